From fddfc978f66cd864048b9ee005c10dac2151faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 01/39] fix: match '...' and symbols in any position of a shape
 hint

Array[..., 3] rejected (3, 3), hints mixing '...', -1 or None with symbols
raised AssertionError, and equations of failed positions leaked into the
result.
---
 asta/utils.py | 129 +++++++-------------------------------------------
 1 file changed, 17 insertions(+), 112 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..e0b3ec2 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -2,7 +2,6 @@
 # -*- coding: utf-8 -*-
 """ Typechecking utilities. """
 import random
-import functools
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
 from sympy import solvers, simplify
@@ -35,21 +34,16 @@ def shapecheck(
 
     assert isinstance(inst_shape, tuple)
 
-    # The portions of ``inst_shape`` which correspond to each ``cls_shape`` elem.
-    shape_pieces: List[Tuple[int, ...]] = []
-
     # Case 1: No ellipses or wildcards.
     if Ellipsis not in cls_shape and -1 not in cls_shape:
         equal, equations = check_equal(cls_shape, inst_shape, equations)
 
         if not equal:
             match = False
-        shape_pieces = [(elem,) for elem in inst_shape]
 
     # Case 2: Only an ellipsis, and instance shape is empty.
     elif cls_shape == (Ellipsis,) and inst_shape == ():
         match = True
-        shape_pieces = [tuple()]
 
     # Case 3: Nonempty, not an ellipsis, and instance shape is empty.
     elif inst_shape == () != cls_shape:
@@ -64,93 +58,15 @@ def shapecheck(
         if is_subtuple((Ellipsis, Ellipsis), cls_shape, equations)[0]:
             raise TypeError("Invalid shape: repeated '...'")
 
-        # Determine if/where '...' bookends ``cls_shape``.
-        left_bookend = False
-        right_bookend = False
-        ellipsis_positions: List[int] = []
-        for i, elem in enumerate(cls_shape):
-            if elem == Ellipsis:
-                ellipsis_positions.append(i)
-
-                # e.g. ``Array[..., 1, 2, 3]``.
-                if i == 0:
-                    left_bookend = True
-
-                # e.g. ``Array[1, 2, 3, ...]``.
-                if i == len(cls_shape) - 1:
-                    right_bookend = True
-
-        # Analogous to ``str.split(<elem>)``, we split the shape on '...'.
-        frags: List[Tuple[int, ...]] = split(cls_shape, Ellipsis)
-
-        # Index in ``cls_shape`` as we construct ``shape_pieces``.
-        cls_idx = 0
-
-        # ``ishape`` is the remaining portion of the instance shape.
-        ishape = inst_shape
-        for i, frag in enumerate(frags):
-
-            # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
-
-            # Must have ``frag`` contained in ``ishape``.
-            if not is_sub:
-                match = False
-                break
-
-            # First fragment must start at 0 if '...' is not the first
-            # element of ``cls_shape``.
-            if i == 0 and not left_bookend and index != 0:
-                match = False
-                break
-
-            # Last fragement must end at (exclusive) ``len(ishape)`` if
-            # '...' is not the last element of ``cls_shape``.
-            if (
-                i == len(frags) - 1
-                and not right_bookend
-                and index + len(frag) != len(ishape)
-            ):
-                match = False
-                break
-
-            # The subseq of ``ishape`` being substituted for ``...``.
-            substituted = ishape[:index]
-
-            # Can't match zero-size dims with ``...``.
-            if 0 in substituted:
-                match = False
+        # Try each way of replacing the '...' in ``cls_shape`` by wildcards.
+        match = False
+        for expanded in expand_ellipses(cls_shape, len(inst_shape)):
+            equal, expanded_equations = check_equal(expanded, inst_shape, set())
+            if equal and astasolver(expanded_equations)[0]:
+                match = True
+                equations = expanded_equations
                 break
 
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
-            ifrag = ishape[index : index + len(frag)]
-            for elem in ifrag:
-                shape_pieces.append((elem,))
-                cls_idx += 1
-
-            new_start = index + len(frag)
-            ishape = ishape[new_start:]
-
-        # If ``cls_shape`` ends with ``...``, ensure substituted tuple has no 0s.
-        if right_bookend and 0 in ishape:
-            match = False
-
-        if right_bookend:
-            substituted = ishape
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
-        if match:
-            reconstructed = functools.reduce(lambda a, b: a + b, shape_pieces)
-            assert reconstructed == inst_shape
-            assert len(shape_pieces) == len(cls_shape) == cls_idx
-
     # Solve our system of equations if it is nonempty.
     if match:
         match, _, _ = astasolver(equations)
@@ -221,30 +137,19 @@ def is_subtuple(
     return False, -1, equations
 
 
-def split(
+def expand_ellipses(
     shape: Tuple[Union[int, EllipsisType], ...],  # type: ignore[valid-type]
-    elem: Union[int, EllipsisType],  # type: ignore[valid-type]
+    rank: int,
 ) -> List[Tuple[int, ...]]:
-    """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
-        if num == elem:
-            tokens.append("@")
-        else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
-
+    """ Replace each '...' by zero or more wildcards, in all ways of length ``rank``. """
+    if Ellipsis not in shape:
+        return [shape] if len(shape) == rank else []
+    index = shape.index(Ellipsis)
+    left, right = shape[:index], shape[index + 1 :]
     result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
-
+    for size in range(rank - len(left) + 1):
+        for rest in expand_ellipses(right, rank - len(left) - size):
+            result.append(left + (-1,) * size + rest)
     return result
 
 
-- 
2.43.0


From 0f97645672403ac8955e6a6e85f616d9c03c75f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 02/39] fix: keep the dtype kind and attributes of a hint in
 decorated calls

refresh() rebuilt the hint from its dtype and shape only, so a decorated
function rejected every str array for Array[str] and ignored attributes.
---
 asta/origins.py | 33 ++++-----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..fd5a149 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -23,9 +23,7 @@ from typing import (
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.array import Array
 from asta.utils import attrcheck, shapecheck
-from asta._array import _ArrayMeta
 from asta.classes import SubscriptableMeta
 from asta.display import (
     fail_io,
@@ -57,23 +55,9 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
-from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
+from asta.constants import NoneType, tf, torch
 from asta.substitution import substitute
 
-METAMAP: Dict[type, SubscriptableMeta] = {_ArrayMeta: Array}
-
-if _TORCH_IMPORTED:
-    from asta.tensor import Tensor
-    from asta._tensor import _TensorMeta
-
-    METAMAP[_TensorMeta] = Tensor
-
-if _TENSORFLOW_IMPORTED:
-    from asta.tftensor import TFTensor
-    from asta._tftensor import _TFTensorMeta
-
-    METAMAP[_TFTensorMeta] = TFTensor
-
 try:
     from typing import Literal  # type: ignore[attr-defined]
 except ImportError:
@@ -86,7 +70,6 @@ def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
     """ Load an asta type annotation containing classical placeholders. """
-    dtype = annotation.dtype
     shape = annotation.shape
     dimvars: List[Any] = []
     initialized = True
@@ -105,19 +88,11 @@ def refresh(
         dimvars = unpacked
 
         shape = tuple(dimvars)
-    # Note we're guaranteed that ``annotation`` has type ``SubscriptableMeta``.
-    subscriptable_class = METAMAP[type(annotation)]
 
-    refreshed_annotation: SubscriptableMeta
+    # Resubscripting keeps the dtype, kind and attributes of ``annotation``.
+    refreshed_annotation: SubscriptableMeta = annotation
     if shape is not None:
-        if dtype is not None:
-            refreshed_annotation = subscriptable_class[dtype, shape]  # type: ignore
-        else:
-            refreshed_annotation = subscriptable_class[shape]  # type: ignore
-    elif dtype is not None:
-        refreshed_annotation = subscriptable_class[dtype]
-    else:
-        refreshed_annotation = annotation
+        refreshed_annotation = annotation[shape]  # type: ignore[assignment]
 
     return refreshed_annotation, initialized
 
-- 
2.43.0


From f221248c50023161bcbecf0e9e9bc8b0550f944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 03/39] fix: accept a subscript which is or starts with a
 dictionary

Array[{...}] raised TypeError: unhashable type: 'dict'.
---
 asta/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index f2b65d4..799491f 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -43,7 +43,7 @@ def parse_subscript(
     shape: Optional[Tuple] = cls.shape
     kwattrs: Optional[Dict[str, Any]] = cls.kwattrs
 
-    isscalar = hash(item) == hash(Scalar)
+    isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
         shape = None
@@ -68,7 +68,7 @@ def parse_subscript(
     elif item:
 
         # Case where generic type is specified.
-        isscalar = hash(item[0]) == hash(Scalar)
+        isscalar = item[0] is Scalar
         if isinstance(item[0], (type, dtype_metaclass)) and not isscalar:
             dtype, kind = cls.get_dtype(item[0])
             item = item[1:]
-- 
2.43.0


From e1b03386e072a97dca4d6272fa3bb6a18e280428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 04/39] fix: solve symbolic attributes together with the
 dimensions of a hint

isinstance ignored the attribute equations, and decorated calls dropped
them for hints without a shape.
---
 asta/_array.py    | 9 +++++----
 asta/_tensor.py   | 9 +++++----
 asta/_tftensor.py | 9 +++++----
 asta/origins.py   | 6 +++---
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..ddf4d97 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -72,9 +72,10 @@ class _ArrayMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
-                match = shape_match and attr_match
+                shape_match, equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
+                solvable, _, _ = astasolver(equations.union(attr_equations))
+                match = shape_match and attr_match and solvable
 
         return match
 
diff --git a/asta/_tensor.py b/asta/_tensor.py
index dffe415..4a87b6c 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -59,9 +59,10 @@ class _TensorMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
-                match = shape_match and attr_match
+                shape_match, equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
+                solvable, _, _ = astasolver(equations.union(attr_equations))
+                match = shape_match and attr_match and solvable
 
         return match
 
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 3eda61a..496ad56 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, astasolver, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -66,9 +66,10 @@ class _TFTensorMeta(SubscriptableMeta):
                 if isinstance(inst_shape, tf.TensorShape):
                     inst_shape = tuple(inst_shape)
 
-                shape_match, _ = shapecheck(inst_shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
-                match = shape_match and attr_match
+                shape_match, equations = shapecheck(inst_shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
+                solvable, _, _ = astasolver(equations.union(attr_equations))
+                match = shape_match and attr_match and solvable
 
         return match
 
diff --git a/asta/origins.py b/asta/origins.py
index fd5a149..fb54b07 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -123,7 +123,8 @@ def check_asta(
 
         # Update equation set.
         shape_equations: Set[Expr] = set()
-        attr_equations: Set[Expr] = set()
+        attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
+        assert attr_match
 
         if annotation.shape is not None:
 
@@ -134,8 +135,7 @@ def check_asta(
 
             # Grab equations from shapecheck call.
             shape_match, shape_equations = shapecheck(value_shape, annotation.shape)
-            attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
-            assert shape_match and attr_match
+            assert shape_match
 
         equations = equations.union(shape_equations, attr_equations)
 
-- 
2.43.0


From 2b590ad9214ede5715cbf2f7479ced2133f6d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 05/39] fix: keep the shape of a hint refined with a dtype or
 attributes

Array[1, 2][float] accepted every shape.
---
 asta/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index 799491f..7c6da9c 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -46,12 +46,10 @@ def parse_subscript(
     isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
-        shape = None
 
     # Adding support for kwargs.
     elif isinstance(item, dict):
         kwattrs = item
-        shape = None
 
     # Case where dtype is Any and shape is scalar.
     elif item in (Scalar, ()):
-- 
2.43.0


From 96f30bbec4626a53cb3a3767a51b6887f06e921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 06/39] fix: support (...,) + <shape variable>

The README spells (BATCH,) + OBS_SHAPE, which raised TypeError.
---
 asta/placeholder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..b625694 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -56,3 +56,10 @@ class Placeholder:
         result.contents = sum_contents
         result.composite = True
         return result
+
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation when the left operand is a tuple. """
+        empty = Placeholder()
+        result = empty + summand
+        result.contents = [summand] + (self.contents if self.contents else [self])
+        return result
-- 
2.43.0


From 079ae57bd7ff25d9de7e05da6ea6dbe18d5ddd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 07/39] fix: handle annotations asta has no checker for

Callable[...], Type[...], Literal[...] and Iterable[...] raised KeyError, or
TypeError with check-non-asta-types=yes, where Any raised TypeError as well.
---
 asta/origins.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index fb54b07..0e0ccff 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -520,15 +520,15 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
-        if ox.check_non_asta_types:
-            checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
-        if checker_fn:
+        if origin in ORIGIN_TYPE_CHECKERS:
+            checker_fn: Callable = ORIGIN_TYPE_CHECKERS[origin]
             equations = checker_fn(name, value, annotation, equations, ox)
+        elif origin in NON_ASTA_CHECKERS:
+            if ox.check_non_asta_types:
+                NON_ASTA_CHECKERS[origin](name, value, annotation, ox)  # type: ignore
         else:
             equations = check_annotation(name, value, origin, equations, ox)
-    elif inspect.isclass(annotation):
+    elif inspect.isclass(annotation) and annotation is not Any:
 
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
         has_args: bool = hasattr(annotation, "__args__")
-- 
2.43.0


From 6e96de28bd03e4d5bf5e8f54b44abc6b3190b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 08/39] fix: check bare List, Dict, Set, Sequence and Callable
 annotations

They raised AttributeError since unparametrized generics have no __args__,
as did any subclass of dict, which was taken for a TypedDict.
---
 asta/origins.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 0e0ccff..ad68ba6 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -180,7 +180,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
@@ -233,6 +233,12 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     return
 
 
+def is_parametrized(annotation: Any) -> bool:
+    """ Check if a generic has arguments, e.g. ``List[int]`` but not ``List``. """
+    args = getattr(annotation, "__args__", None)
+    return args not in (None, getattr(annotation, "__parameters__", None))
+
+
 def check_tuple(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
@@ -300,7 +306,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -324,7 +330,7 @@ def check_sequence(
         fail_sequence(name, annotation, qualified_name(value), ox)
 
     # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    if is_parametrized(annotation):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -349,7 +355,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -374,7 +380,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
@@ -535,7 +541,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From 7f6595d4db06f710fbd0abdcbd2102e2f0cbd8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 09/39] fix: check the fields of NamedTuple annotations

Python 3.9 removed _field_types, so the fields were not checked.
---
 asta/origins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index ad68ba6..b010526 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -245,14 +245,14 @@ def check_tuple(
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if hasattr(annotation, "_fields"):
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
         # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
+        for subname, field_type in annotation.__annotations__.items():
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
-- 
2.43.0


From 7f7d3710b6623a1fa81ce4819128cdc3d51aa228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 10/39] fix: accept only () for Tuple[()]

---
 asta/origins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index b010526..d20ee8b 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -260,13 +260,13 @@ def check_tuple(
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
-    elif not getattr(annotation, "__args__", None):
+    elif getattr(annotation, "__args__", None) is None:
         # Unparametrized Tuple or plain tuple.
         pass
 
     else:
         # Python 3.6+
-        use_ellipsis = annotation.__args__[-1] is Ellipsis
+        use_ellipsis = annotation.__args__[-1:] == (Ellipsis,)
 
         # Remove the ``Ellipsis`` from the end if it exists.
         if use_ellipsis:
@@ -280,7 +280,7 @@ def check_tuple(
                 equations = check_annotation(
                     f"{name}[{i}]", elem, elem_type, equations, ox
                 )
-        elif tuple_params == ((),):
+        elif tuple_params in ((), ((),)):
             if value != ():
                 fail_empty_tuple(name, qualified_name(value), ox)
         else:
-- 
2.43.0


From bbf3e0c70ac9085b0cf151715d9403fd8e1209b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 11/39] fix: try the alternatives of a Union without reporting
 their failures

With raise-errors=no the first alternative was always taken and reported
FAILED; with raise-errors=yes the attempts printed headers and passes.
---
 asta/origins.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index d20ee8b..6230154 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -403,12 +403,17 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
+    # Try the alternatives with settings which raise errors and print nothing.
+    settings = {k: v for k, v in ox.settings.items() if k != "decorated"}
+    settings.update(raise_errors=True, print_passes=False)
+    trial_ox = Oxentiel(settings)
+
     for type_ in union_params:
         try:
-            equations = check_annotation(name, value, type_, equations, ox)
-            return equations
+            check_annotation(name, value, type_, equations, trial_ox)
         except TypeError as _err:
-            pass
+            continue
+        return check_annotation(name, value, type_, equations, ox)
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From f2e3a51f9bb9c33ec3984c51bbf6bff906829ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 12/39] fix: do not look into a value of the wrong kind with
 raise-errors=no

A List, Sequence, Set or Type parameter given anything else made the call
raise while iterating over the value (or comparing it to a class).
---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 6230154..13251ac 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -303,6 +303,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -328,6 +329,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Consider removing this test or even just figuring out what it does?
     if is_parametrized(annotation):
@@ -377,6 +379,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
@@ -424,6 +427,7 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return
 
     # Needed on Python 3.7+
     if annotation is Type:
-- 
2.43.0


From 28f235a14b75abc5f02d10d0e6ecce7234d250e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 13/39] fix: check each argument against the annotation of its
 parameter

Surplus or unknown arguments raised IndexError or KeyError, and arguments of
positional-only parameters were checked against other annotations, because
__annotations__ lists those after the ordinary parameters.
---
 asta/decorators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..caeb43e 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -31,6 +31,9 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     sig = inspect.signature(decorated)
     paramlist = list(sig.parameters)
 
+    # Raises a TypeError if the arguments do not fit the signature.
+    sig.bind(*args, **kwargs)
+
     # Get a list of kwargs with defaults filled-in.
     defaults: Dict[str, Any] = {}
     for k, v in sig.parameters.items():
@@ -46,8 +49,8 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
         pure_args = pure_args[1:]  # type: ignore[assignment]
-    for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
+        paramlist = paramlist[1:]
+    for name, arg in zip(paramlist, pure_args):
         checkable_args[name] = arg
 
     # Check for mismatch between lengths of arguments/annotations.
-- 
2.43.0


From 2930279270264d951263dfa12c35aa3a3a9d38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 14/39] fix: let ASTA_TYPECHECK decide each decoration by
 itself

Any value but "1" switched checking off for the rest of the process.
---
 asta/decorators.py | 6 ++++--
 asta/warning.py    | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index caeb43e..77f1c0b 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -87,8 +87,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
     """
     ox: Oxentiel = get_ox()
     if "ASTA_TYPECHECK" in os.environ:
-        ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-    if not ox.on:
+        enabled = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
+    else:
+        enabled = ox.on
+    if not enabled:
         return decorated
 
     # Treat classes.
diff --git a/asta/warning.py b/asta/warning.py
index c04496e..e166c7c 100644
--- a/asta/warning.py
+++ b/asta/warning.py
@@ -11,9 +11,10 @@ from asta.constants import Color
 # pylint: disable=invalid-name
 
 ox: Oxentiel = get_ox()
+enabled = ox.on
 if "ASTA_TYPECHECK" in os.environ:
-    ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-if ox.on and not ox.print_passes:
+    enabled = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
+if enabled and not ox.print_passes:
     BORDER = "#" * 100
     BORDER = f"{Color.BOLD}{BORDER}{Color.END}"
     INNER = "-" * 100
-- 
2.43.0


From 50fc2b59f2abb90f55fd208475d334c23d48d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 15/39] fix: read pyproject.toml, setup.cfg and any file named
 by ASTARC

They were looked for but never used, since only names ending in astarc
were accepted.
---
 asta/config.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..5d7e067 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -71,10 +71,7 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 def find_astarc() -> Optional[str]:
     """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
-    for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
-    return None
+    return next(find_default_config_files(), None)
 
 
 # pylint: disable=protected-access
@@ -91,6 +88,8 @@ def read_config(config_path: str) -> configparser.ConfigParser:
             pass
         else:
             for section, values in sections_values.items():
+                if not isinstance(values, dict):
+                    continue
                 parser._sections[section.upper()] = values  # type: ignore[attr-defined]
     else:
         # Use this encoding in order to strip the BOM marker, if any.
@@ -99,10 +98,9 @@ def read_config(config_path: str) -> configparser.ConfigParser:
 
         # Normalize sections' titles.
         for sect, values in list(parser._sections.items()):  # type: ignore
-            if sect.startswith("asta."):
-                sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
-                parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
+            title = sect[len("asta.") :] if sect.startswith("asta.") else sect
+            if title.upper() != sect and values:
+                parser._sections[title.upper()] = values  # type: ignore[attr-defined]
     return parser
 
 
@@ -111,7 +109,7 @@ def as_dict(config: configparser.ConfigParser) -> Dict[str, Dict[str, str]]:
     dictionary: Dict[str, Dict[str, str]] = collections.OrderedDict()
     for section in config.sections():
         dictionary[section] = {}
-        for key, val in config.items(section):
+        for key, val in config.items(section, raw=True):
             dictionary[section][key] = val
     return dictionary
 
-- 
2.43.0


From 56a36ed3c45bb25934b6764af79793da3c21db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 16/39] fix: unpack a TensorShape which follows the dtype of a
 TFTensor hint

---
 asta/_tftensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 496ad56..f81b1dd 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -123,6 +123,11 @@ class _TFTensor(metaclass=_TFTensorMeta):
         """ Set class attributes based on the passed dtype/dim data. """
         if isinstance(item, tf.TensorShape):
             item = tuple(item)
+        if isinstance(item, tuple):
+            item = tuple(
+                tuple(elem) if isinstance(elem, tf.TensorShape) else elem
+                for elem in item
+            )
         dtype, shape, kwattrs, _ = parse_subscript(cls, item, tf.dtypes.DType)
         cls.dtype = dtype
         cls.shape = shape
-- 
2.43.0


From 0e9a71306155429e46effc263fcc1dc55ff39772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 17/39] fix: do not treat a dims expression which evaluates to
 -1 as a wildcard

---
 asta/substitution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bd8ea5..b0c86a5 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -69,7 +69,9 @@ def substitute(
             if isinstance(expression, Number):
                 if not isinstance(expression, Integer):
                     fail_numerical_expression(shape[i], expression, ox)
-                expression = int(expression)
+                # A negative result is no wildcard: keep it symbolic, it matches nothing.
+                elif expression >= 0 or isinstance(item, Symbol):
+                    expression = int(expression)
             dimension_sizes.append(expression)
 
         # Case 2: ``item`` is a placeholder.
-- 
2.43.0


From c18eb05732664d8fda07912ebe034b4359895c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 18/39] fix: let Array[datetime] and Array[timedelta] match
 every unit

They matched only arrays of the unitless dtype, which numpy never infers.
---
 asta/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index ddf4d97..c9d5c3d 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -112,8 +112,10 @@ class _Array(metaclass=_ArrayMeta):
                 kind = NP_UNSIZED_TYPE_KINDS[item]
             elif item == datetime.datetime:
                 generic_type = np.datetime64
+                kind = "M"
             elif item == datetime.timedelta:
                 generic_type = np.timedelta64
+                kind = "m"
             else:
                 generic_type = item
             dtype = np.dtype(generic_type)
-- 
2.43.0


From 1392b24beb500523287f69ef891cf7045ce426d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 19/39] fix: make equality and hashing of hints congruent

Array == Array[float] held, attributes and kinds were not compared, and a
hint inherited the memoised hash of the hint it was subscripted from.
---
 asta/_array.py    | 8 ++++++--
 asta/_tensor.py   | 2 +-
 asta/_tftensor.py | 3 +--
 asta/classes.py   | 5 +----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index c9d5c3d..068c5a2 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -43,9 +43,13 @@ class _ArrayMeta(SubscriptableMeta):
         """ If the dtypes and shapes match, they should be equal. """
         if not isinstance(other, _ArrayMeta):
             return False
-        if cls.shape != other.shape or cls.dtype != other.dtype:
+        if cls.shape != other.shape or cls.kwattrs != other.kwattrs:
             return False
-        return True
+
+        # Numpy takes ``None`` for float64 in comparisons of dtypes.
+        if cls.dtype is None or other.dtype is None:
+            return cls.dtype is other.dtype
+        return bool(cls.dtype == other.dtype and cls.kind == other.kind)
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/_tensor.py b/asta/_tensor.py
index 4a87b6c..1c4d6ca 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -38,7 +38,7 @@ class _TensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        return True
+        return bool(cls.kwattrs == other.kwattrs)
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index f81b1dd..1188c50 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -32,14 +32,13 @@ class _TFTensorMeta(SubscriptableMeta):
         """ Defer to the metaclass which calls ``cls._after_subscription()``. """
         return SubscriptableMeta.__getitem__(cls, item)
 
-    # TODO: Include kwattrs for each of these classes.
     def __eq__(cls, other: Any) -> bool:
         """ If the dtypes and shapes match, they should be equal. """
         if not isinstance(other, _TFTensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        return True
+        return bool(cls.kwattrs == other.kwattrs)
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..a8029e9 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -54,7 +54,6 @@ class SubscriptableMeta(GenericMeta):
     __origin__: Any
 
     def __init_subclass__(cls) -> None:
-        cls._hash = 0
         cls.__args__ = None
         cls.__origin__ = None
 
@@ -108,9 +107,7 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "shape")
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
-        if not getattr(cls, "_hash", None):
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{cls.kwattrs}")
-        return cls._hash
+        return hash(f"{cls.shape}{cls.dtype}")
 
     def __repr__(cls) -> str:
         """ String representation of class. """
-- 
2.43.0


From 8c97cd3d4be973c7acd0e28eb65f9425a93e3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 20/39] fix: raise TypeError when only self of the parameters
 is annotated

It raised KeyError.
---
 asta/decorators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 77f1c0b..5faee0f 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -47,7 +47,11 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     pure_args = args
     refs = ("self", "cls", "mcs")
 
-    if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
+    if (
+        len(sig.parameters) == num_non_return_annots + 1
+        and paramlist[0] in refs
+        and paramlist[0] not in annotations
+    ):
         pure_args = pure_args[1:]  # type: ignore[assignment]
         paramlist = paramlist[1:]
     for name, arg in zip(paramlist, pure_args):
-- 
2.43.0


From ab71e9f2b5a4da5cf66f4f7c1fa5132ef0808a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 21/39] fix: count parameters with defaults when checking
 Callable[[...], ...]

A callable which takes the arguments through defaults was rejected.
---
 asta/origins.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 13251ac..d9935d3 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -225,11 +225,24 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
                 if param.kind == inspect.Parameter.VAR_POSITIONAL
             )
 
+            num_args = num_mandatory_args + len(
+                [
+                    param.name
+                    for param in signature.parameters.values()
+                    if param.kind
+                    in (
+                        inspect.Parameter.POSITIONAL_ONLY,
+                        inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                    )
+                    and param.default is not inspect.Parameter.empty
+                ]
+            )
+
             # NOTE: Consider adding true recursive checking.
             if num_mandatory_args > len(argument_types):
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
-            elif not has_varargs and num_mandatory_args < len(argument_types):
-                fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
+            elif not has_varargs and num_args < len(argument_types):
+                fail_too_few_args(name, len(argument_types), num_args, ox)
     return
 
 
-- 
2.43.0


From d3db5bc34d617a2987045a5b6704d9f7e79058bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 22/39] fix: compare a Literal argument with the options of its
 own type only

An array made the comparison raise ValueError, and True or 1.0 passed for 1.
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index d9935d3..72edd07 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -482,7 +482,7 @@ def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
 
 def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck a value annotated with ``Literal[*]``. """
-    if value not in annotation.__args__:
+    if not any(type(value) is type(arg) and value == arg for arg in annotation.__args__):
         fail_literal(name, annotation.__args__, value, ox)
 
 
-- 
2.43.0


From a18dbb5ff379542b970642d851f4677172ea46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 23/39] fix: report values which cannot be shown as strings

---
 asta/display.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/display.py b/asta/display.py
index 4132772..d8c70b3 100644
--- a/asta/display.py
+++ b/asta/display.py
@@ -251,8 +251,13 @@ def fail_io(name: str, rep: str, ox: Oxentiel) -> None:
 
 def fail_literal(name: str, options: List[Any], arg: Any, ox: Oxentiel) -> None:
     """ Print/raise error when argument should match a given literal. """
+    # Not every value can be shown, e.g. arrays of generic ``datetime64``.
+    try:
+        rep = str(arg)
+    except Exception:  # pylint: disable=broad-except
+        rep = qualified_name(arg)
     err = f"{FAIL}: Argument '{name}' should be one of '{options}' "
-    err += f"Actual value: '{arg}'"
+    err += f"Actual value: '{rep}'"
     handle_error(err, ox)
 
 
-- 
2.43.0


From 0460d90f2fb3f8043baae1ee32aa6913dcdd7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 24/39] fix: skip checks of hints with unset dims in soft mode

---
 asta/substitution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/substitution.py b/asta/substitution.py
index b0c86a5..442f666 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -53,6 +53,7 @@ def substitute(
                     # Out of those that are, we check if any have ``None``
                     # for their value.
                     if value is None:
+                        initialized = False
 
                         # If so, we treat as before and raise an error.
                         name = symbol.name
-- 
2.43.0


From 90353f26c5236b2d2273b279d9da7e17a25b3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:40 +0000
Subject: [PATCH 25/39] fix: check the first element of sequences which cannot
 be sliced

---
 asta/origins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 72edd07..32f155f 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
 import inspect
+import itertools
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
 from typing import (
@@ -351,7 +352,7 @@ def check_sequence(
 
             value_iterable = value
             if not ox.check_all_sequence_elements:
-                value_iterable = value_iterable[:1]
+                value_iterable = itertools.islice(value, 1)
             for i, v in enumerate(value_iterable):
                 element_equations = check_annotation(
                     f"{name}[{i}]", v, value_type, equations, ox
-- 
2.43.0


From 3deb57223feb4f20156e3608f24f69cca4b27624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 26/39] fix: hash equal hints equally when a shape is a
 torch.Size

---
 asta/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asta/classes.py b/asta/classes.py
index a8029e9..5651ccc 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -107,7 +107,9 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "shape")
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
-        return hash(f"{cls.shape}{cls.dtype}")
+        # Equal tuples may print differently, e.g. those of type ``torch.Size``.
+        shape = None if cls.shape is None else tuple(cls.shape)
+        return hash(f"{shape}{cls.dtype}")
 
     def __repr__(cls) -> str:
         """ String representation of class. """
-- 
2.43.0


From 16d6a6f17a81502aa6a6643e36b6a811588a07d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 27/39] fix: check the fields of classes derived from a
 NamedTuple

---
 asta/origins.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 32f155f..9906183 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -265,8 +265,14 @@ def check_tuple(
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
+        # Classes derived from a ``NamedTuple`` inherit its field types.
+        field_types: Dict[str, Any] = {}
+        for base in reversed(annotation.__mro__):
+            field_types.update(vars(base).get("__annotations__", {}))
+
         # pylint: disable=protected-access
-        for subname, field_type in annotation.__annotations__.items():
+        for subname in annotation._fields:
+            field_type = field_types.get(subname, Any)
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
-- 
2.43.0


From cea4522c16ab62e2a94b56cdb3af82992538799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 28/39] fix: let keys of typed dicts be absent or present as
 declared

---
 asta/origins.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9906183..6c23cfe 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -160,14 +160,19 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # A total typed dict may inherit or declare keys which are not required.
+    required_keys = expected_keys if annotation.__total__ else frozenset()
+    required_keys = getattr(annotation, "__required_keys__", required_keys)
+    if required_keys - existing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
     for key, argtype in annotation.__annotations__.items():
+        # Unpack ``Required[*]`` and ``NotRequired[*]``.
+        qualifier = getattr(getattr(argtype, "__origin__", None), "_name", None)
+        if qualifier in ("Required", "NotRequired"):
+            argtype = argtype.__args__[0]
         argvalue = value.get(key, MISSING_VALUE)
         if argvalue is not MISSING_VALUE:
             equations = check_annotation(
-- 
2.43.0


From 32de443183f2e63eb824c22602bf9228b0fa5147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 29/39] fix: let Type[Any] and Type of a type variable accept
 any class

---
 asta/origins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 6c23cfe..149a3a0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -18,6 +18,7 @@ from typing import (
     BinaryIO,
     Callable,
     Sequence,
+    TypeVar,
     AbstractSet,
 )
 
@@ -459,6 +460,11 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
         return
 
     expected_class = annotation.__args__[0] if annotation.__args__ else None
+
+    # These describe any class.
+    if expected_class is Any or isinstance(expected_class, TypeVar):
+        return
+
     if expected_class and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
-- 
2.43.0


From d09ff89e11c059c3378ec02b208878eac506bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 30/39] fix: check classes derived from float and complex like
 other classes

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 149a3a0..e52b35b 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -586,7 +586,7 @@ def check_annotation(
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
         elif ox.check_non_asta_types:
-            if issubclass(annotation, (float, complex)):
+            if annotation in (float, complex):
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-- 
2.43.0


From 9f3e49579b862680d3808591442092b19b4d3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 31/39] fix: accept values annotated with protocols which
 cannot be checked

---
 asta/origins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index e52b35b..d2becc6 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -494,7 +494,10 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
-    if not issubclass(type(value), annotation):
+    # Only protocols decorated with ``runtime_checkable`` can be checked.
+    if not getattr(annotation, "_is_runtime_protocol", False):
+        return
+    if not isinstance(value, annotation):
         fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
 
 
-- 
2.43.0


From af5ed90b7679cef52c287bb3e347b1944f1acbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 32/39] fix: check unions written as X | Y

---
 asta/origins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index d2becc6..a64774c 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
+import types
 import inspect
 import itertools
 import collections
@@ -577,6 +578,8 @@ def check_annotation(
                 NON_ASTA_CHECKERS[origin](name, value, annotation, ox)  # type: ignore
         else:
             equations = check_annotation(name, value, origin, equations, ox)
+    elif isinstance(annotation, getattr(types, "UnionType", ())):
+        equations = check_union(name, value, annotation, equations, ox)
     elif inspect.isclass(annotation) and annotation is not Any:
 
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
-- 
2.43.0


From 2c287ff68f040a62bac23da84c7d958553350988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 33/39] fix: check arguments and returns annotated with a plain
 None

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index a64774c..74a57bf 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -562,6 +562,10 @@ def check_annotation(
     # solution, all the annotations' solutions must agree for a given function
     # signature.
 
+    # ``None`` and ``NoneType`` are the same annotation.
+    if annotation is None:
+        annotation = NoneType
+
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
-- 
2.43.0


From 6614efee1df21d340602fb242283c42c83c1f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 34/39] fix: accept bare tuples and callables wrapped in
 Annotated

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 74a57bf..ac2ddc6 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -566,6 +566,10 @@ def check_annotation(
     if annotation is None:
         annotation = NoneType
 
+    # Unpack ``Annotated[*]``.
+    if hasattr(annotation, "__metadata__"):
+        annotation = annotation.__origin__
+
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
-- 
2.43.0


From 97ca76ad19bc4c7530e16ef2cfc089b86501e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 35/39] fix: let symbolic attributes reject attributes which
 are not numbers

---
 asta/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/utils.py b/asta/utils.py
index e0b3ec2..c409e33 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Typechecking utilities. """
 import random
+from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
 from sympy import solvers, simplify
@@ -90,6 +91,10 @@ def attrcheck(
             match = False
             break
         if isinstance(value, Expr):
+            # Only numbers are solutions of an equation.
+            if not isinstance(attr, (Number, Expr)):
+                match = False
+                break
             equations.add(value - attr)
         elif attr != value:
             match = False
-- 
2.43.0


From 7e762476323ba7ed40d7ddf9ea6001e42ee24755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 36/39] fix: decide systems of polynomials by their Groebner
 basis

sympy's solver does not terminate in reasonable time, raises KeyError or
misses the solutions of some systems of polynomial dimensions.
---
 asta/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index c409e33..65b273e 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -5,9 +5,10 @@ import random
 from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
-from sympy import solvers, simplify
+from sympy import QQ, groebner, solvers, simplify
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
+from sympy.polys.polyerrors import BasePolynomialError
 
 from asta.constants import (
     _TORCH_IMPORTED,
@@ -118,6 +119,15 @@ def astasolver(
     symbols: Set[Symbol] = set()
     for equation in equations:
         symbols = symbols.union(equation.free_symbols)
+
+    # Polynomials have a common root unless their Groebner basis is ``[1]``.
+    if symbols and all(symbol == Symbol(symbol.name) for symbol in symbols):
+        try:
+            basis = groebner(list(equations), *symbols, domain=QQ, order="grevlex")
+            return basis.exprs != [1], symbols, []
+        except BasePolynomialError:
+            pass
+
     solutions: List[Dict[Symbol, int]] = solvers.solve(equations, symbols, dict=True)
 
     # Removed pruning of symbolic solutions.
-- 
2.43.0


From 1a12480dba68bd1c06dc9f2db172308a4eb0506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 37/39] fix: allow the unannotated self of a decorated method
 to be passed by keyword

---
 asta/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/decorators.py b/asta/decorators.py
index 5faee0f..48a3087 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -53,6 +53,7 @@ def validate_annotations(  # type: ignore[no-untyped-def]
         and paramlist[0] not in annotations
     ):
         pure_args = pure_args[1:]  # type: ignore[assignment]
+        checkable_args.pop(paramlist[0], None)
         paramlist = paramlist[1:]
     for name, arg in zip(paramlist, pure_args):
         checkable_args[name] = arg
-- 
2.43.0


From 2d9b0af4358ebcb40a97298f39237dd38aa897e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 38/39] fix: take classes derived from tuple for plain classes,
 not for the container tuple

---
 asta/origins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index ac2ddc6..06f7b59 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -593,7 +593,10 @@ def check_annotation(
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
         has_args: bool = hasattr(annotation, "__args__")
 
-        if issubclass(annotation, Tuple):  # type: ignore[arg-type]
+        # Other classes derived from ``tuple`` are no container annotations.
+        if annotation is tuple or (
+            issubclass(annotation, tuple) and hasattr(annotation, "_fields")
+        ):
             equations = check_tuple(name, value, annotation, equations, ox)
         elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
-- 
2.43.0


From 23e081272f3a53047fa5abc18b8fe70cb34245d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 39/39] fix: check values against classes derived from typing's
 IO classes with isinstance

---
 asta/origins.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 06f7b59..4b8e377 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -484,12 +484,12 @@ def check_number(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with *IO annotations. """
     if annotation is TextIO:
-        if not isinstance(value, TextIOBase):
+        if not isinstance(value, (TextIOBase, TextIO)):
             fail_text_io(name, qualified_name(value.__class__), ox)
     elif annotation is BinaryIO:
-        if not isinstance(value, (RawIOBase, BufferedIOBase)):
+        if not isinstance(value, (RawIOBase, BufferedIOBase, BinaryIO)):
             fail_binary_io(name, qualified_name(value.__class__), ox)
-    elif not isinstance(value, IOBase):
+    elif not isinstance(value, (IOBase, IO)):
         fail_io(name, qualified_name(value.__class__), ox)
 
 
@@ -608,7 +608,7 @@ def check_annotation(
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
                 check_callable(name, value, annotation, ox)
-            elif issubclass(annotation, IO):
+            elif annotation in (IO, TextIO, BinaryIO):
                 check_io(name, value, annotation, ox)
             elif getattr(annotation, "_is_protocol", False):
                 check_protocol(name, value, annotation, ox)
-- 
2.43.0

