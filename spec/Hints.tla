------------------------------- MODULE Hints --------------------------------
(***************************************************************************)
(* The hint algebra of asta: what a subscript means (Sub), what the dims   *)
(* and shapes variables of a hint stand for at a moment (Resolve), which   *)
(* values a hint accepts (HintOutcomes) and when hints are equal (EqHint). *)
(*                                                                         *)
(* Encoding (the same as in the JSON traces):                              *)
(*   dimension  [t |-> "i", v |-> n]          size n                       *)
(*              [t |-> "w"]  -1   [t |-> "e"]  ...   [t |-> "n"]  None     *)
(*              [t |-> "x", den |-> d, fl |-> b, p |-> polynomial]         *)
(*                    the expression p / d (floor division if fl)          *)
(*              [t |-> "S", s |-> k]          shapes variable k            *)
(*              [t |-> "C", ps |-> parts]     concatenation of S's and T's *)
(*              [t |-> "T", ds |-> dims]      a tuple                      *)
(*              [t |-> "u"]  Scalar           [t |-> "b", k |-> kind]      *)
(*                                            an illegal dimension         *)
(*              [t |-> "z"]                   matches nothing              *)
(*   dtype part [t |-> "any"], [t |-> "np", n |-> name] (numpy or tf dtype)*)
(*              or [t |-> "py", n |-> python type name]                    *)
(*   hint       [b |-> "A", "T" or "P" (Array, TFTensor, Tensor), dt, sh, at] *)
(*   array      [t |-> "a", b, n |-> dtype name, k |-> kind, z |-> itemsize,*)
(*               sh |-> shape, tag |-> <<>> or <<int>>]                    *)
(***************************************************************************)
EXTENDS Poly, TLC

Unset == -1000000

(***************************** Dtypes **************************************)
PyArray == [int |-> "<i8", float |-> "<f8", complex |-> "<c16", bool |-> "|b1"]
PyKinds == [str |-> "U", bytes |-> "S", object |-> "O", datetime |-> "M", timedelta |-> "m"]
PyTF == [int |-> "int32", float |-> "float32", complex |-> "complex128", bool |-> "bool",
         bytes |-> "string", str |-> "string"]
PyTorch == [int |-> "int32", float |-> "float32", bool |-> "bool", bytes |-> "uint8"]
PyTensor(b) == IF b = "T" THEN PyTF ELSE PyTorch

LegalDtype(b, d) ==
    \/ d.t = "any"
    \/ d.t = "np"                                  \* a dtype of the hint's backend
    \/ d.t = "py" /\ b = "A" /\ d.n \in DOMAIN PyArray \cup DOMAIN PyKinds
    \/ d.t = "py" /\ b # "A" /\ d.n \in DOMAIN PyTensor(b)
DtypeMatch(b, d, v) ==
    CASE d.t = "any" -> TRUE
      [] d.t = "np" -> v.n = d.n
      [] b = "A" /\ d.n \in DOMAIN PyArray -> v.n = PyArray[d.n]
      [] b = "A" -> v.k = PyKinds[d.n]
      [] OTHER -> v.n = PyTensor(b)[d.n]
\* What two dtype parts must share to be equal.
DtypeKey(b, d) ==
    CASE d.t = "any" -> <<"any", "">>
      [] d.t = "np" -> <<"=", d.n>>
      [] b = "A" /\ d.n \in DOMAIN PyArray -> <<"=", PyArray[d.n]>>
      [] b = "A" -> <<"kind", PyKinds[d.n]>>
      [] OTHER -> <<"=", PyTensor(b)[d.n]>>

(***************************** Matching ************************************)
\* The readings of a resolved shape hint: for each way of matching its
\* dimensions with the sizes, the equations that way imposes.
RECURSIVE Readings(_, _)
Readings(ds, sh) ==
    IF ds = <<>> THEN IF sh = <<>> THEN {{}} ELSE {}
    ELSE LET d == Head(ds) IN
      IF d.t = "e" THEN
          Readings(Tail(ds), sh)
          \cup (IF sh # <<>> /\ Head(sh) > 0 THEN Readings(ds, Tail(sh)) ELSE {})
      ELSE IF sh = <<>> THEN {}
      ELSE CASE d.t = "i" -> IF d.v = Head(sh) THEN Readings(Tail(ds), Tail(sh)) ELSE {}
             [] d.t = "w" -> IF Head(sh) > 0 THEN Readings(Tail(ds), Tail(sh)) ELSE {}
             [] d.t = "x" -> {r \cup {PSub(d.p, PConst(d.den * Head(sh)))} :
                                  r \in Readings(Tail(ds), Tail(sh))}
             [] OTHER -> {}

(***************************** Resolution **********************************)
IntDim(n) == IF n = -1 THEN [t |-> "w"] ELSE IF n < 0 THEN [t |-> "z"] ELSE [t |-> "i", v |-> n]

\* The expression with the current values of its dims variables filled in.
FillDims(p, dm) ==
    FoldSet(LAMBDA i, acc : IF dm[i] = Unset THEN acc ELSE PSubst(acc, i, PConst(dm[i])),
            p, DimVars)
UnsetIn(p, dm) == {i \in PVars(p) \cap DimVars : dm[i] = Unset}

Res(err, ds, nm) == [err |-> err, ds |-> ds, nm |-> nm]
DimName(i) == "d" \o ToString(i)
ShapeName(i) == "s" \o ToString(i)

ResolveExpr(d, dm) ==
    IF UnsetIn(d.p, dm) # {} THEN Res(TRUE, <<>>, {DimName(i) : i \in UnsetIn(d.p, dm)})
    ELSE LET q == FillDims(d.p, dm) IN
         IF ~IsConst(q) THEN Res(FALSE, <<[d EXCEPT !.p = q]>>, {})
         ELSE LET c == ConstOf(q) IN
              IF ~d.fl /\ c % d.den # 0 THEN Res(TRUE, <<>>, {"*"})
              ELSE LET n == c \div d.den
                       plain == \E i \in DimVars : d.p = PVar(i) /\ d.den = 1
                   IN Res(FALSE, <<IF n >= 0 \/ plain THEN IntDim(n) ELSE [t |-> "z"]>>, {})

Join(a, b) == Res(a.err \/ b.err, a.ds \o b.ds, a.nm \cup b.nm)
RECURSIVE Resolve(_, _, _)
Resolve(ds, dm, sm) ==
    IF ds = <<>> THEN Res(FALSE, <<>>, {})
    ELSE LET d == Head(ds)
             one == CASE d.t = "x" -> ResolveExpr(d, dm)
                      [] d.t = "S" -> IF sm[d.s].set
                                      THEN Res(FALSE, [j \in 1..Len(sm[d.s].v) |-> IntDim(sm[d.s].v[j])], {})
                                      ELSE Res(TRUE, <<>>, {ShapeName(d.s)})
                      [] d.t = "C" -> Resolve(d.ps, dm, sm)
                      [] d.t = "T" -> Resolve(d.ds, dm, sm)
                      [] OTHER -> Res(FALSE, <<d>>, {})
         IN Join(one, Resolve(Tail(ds), dm, sm))

\* Does the hint contain dims or shapes variables (its meaning is then only
\* given inside decorated calls)?
RECURSIVE Late(_)
Late(ds) == \E j \in 1..Len(ds) :
                CASE ds[j].t = "x" -> PVars(ds[j].p) \cap DimVars # {}
                  [] ds[j].t = "S" -> TRUE
                  [] ds[j].t = "C" -> TRUE
                  [] ds[j].t = "T" -> TRUE
                  [] OTHER -> FALSE
AdjacentEllipses(ds) == \E j \in 1..(Len(ds) - 1) : ds[j].t = "e" /\ ds[j + 1].t = "e"

(***************************** Acceptance **********************************)
\* What one check can come to.  q: equations over the symbols left to the
\* joint system; ps: the array checks reported as passed; nm: names of which
\* a rejection must mention one.
Pass(q, ps) == [ok |-> TRUE, q |-> q, ps |-> ps, nm |-> {}]
Fail(nm) == [ok |-> FALSE, q |-> {}, ps |-> <<>>, nm |-> nm]

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* The number an attribute is; <<>> for attributes which are not numbers (a dtype,
\* strides, the method "size" of torch) or are missing: nothing matches these.
AttrVal(v, a) ==
    CASE a = "ndim" -> <<Len(v.sh)>>
      [] v.b = "A" /\ a = "size" -> <<Prod(v.sh)>>
      [] v.b = "A" /\ a = "itemsize" -> <<v.z>>
      [] v.b = "A" /\ a = "nbytes" -> <<v.z * Prod(v.sh)>>
      [] a = "tag" -> v.tag
      [] OTHER -> <<>>
\* An attribute constraint: a number ("i"), a tuple ("s"), None ("none", which no
\* attribute known here is) or an expression ("x").
AttrOk(v, at) == \A j \in 1..Len(at) :
                    LET x == AttrVal(v, at[j].a)
                    IN CASE at[j].t = "s" -> at[j].a = "shape" /\ v.sh = at[j].v
                         [] at[j].t = "none" -> FALSE
                         [] OTHER -> Len(x) = 1 /\ (at[j].t = "i" => x[1] = at[j].v)
AttrEqs(v, at) == {PSub(at[j].p, PConst(at[j].den * AttrVal(v, at[j].a)[1])) :
                       j \in {j \in 1..Len(at) : at[j].t = "x"}}

HintOutcomes(h, v, path, root, dm, sm) ==
    LET r == IF h.sh.k = "no" THEN Res(FALSE, <<>>, {}) ELSE Resolve(h.sh.ds, dm, sm)
        pass(q) == Pass(q, <<path>>)
        bad == Fail({root})
    IN IF r.err THEN {Fail(IF r.nm = {} THEN {"*"} ELSE r.nm)}
       ELSE IF AdjacentEllipses(r.ds) THEN {bad, pass({}), Fail({"*"})}    \* unspecified
       ELSE IF v.t # "a" THEN {bad}
       ELSE IF v.b # h.b \/ ~DtypeMatch(h.b, h.dt, v) \/ ~AttrOk(v, h.at) THEN {bad}
       ELSE LET rs == IF h.sh.k = "no" THEN {{}} ELSE Readings(r.ds, v.sh)
                eqs == {q \cup AttrEqs(v, h.at) : q \in rs}
                ver == TLCEval([q \in eqs |-> Solve(q)])
            IN {pass(q \ {ZeroP}) : q \in {q \in eqs : ver[q] # "no"}}
               \cup (IF \E q \in eqs : ver[q] = "yes" THEN {} ELSE {bad})

\* isinstance(v, hint) for a hint without dims and shapes variables: the set
\* of permitted answers.
IsInstance(h, v) ==
    LET o == HintOutcomes(h, v, "", "", [i \in DimVars |-> Unset], <<>>)
    IN {x.ok : x \in o}

(***************************** Subscription ********************************)
\* Items come from JSON: [dt |-> 0 or 1 dtypes, form |-> "l" (parts listed) or
\* "t" (dimensions as one tuple), ds, at |-> 0 or 1 attribute lists,
\* late |-> the variables are read when subscripting].
LateDim(d, dm, sm) ==
    CASE d.t = "x" -> LET q == FillDims(d.p, dm) IN
                      IF IsConst(q) /\ d.p # q THEN IntDim(ConstOf(q)) ELSE [d EXCEPT !.p = q]
      [] d.t = "S" -> IF sm[d.s].set
                      THEN [t |-> "T", ds |-> [j \in 1..Len(sm[d.s].v) |-> IntDim(sm[d.s].v[j])]]
                      ELSE d
      [] OTHER -> d
\* A constant expression means its value.
FoldConst(d) ==
    IF d.t # "x" \/ ~IsConst(d.p) THEN d
    ELSE IF ConstOf(d.p) % d.den # 0 \/ ConstOf(d.p) < 0 THEN [t |-> "z"]
    ELSE [t |-> "i", v |-> ConstOf(d.p) \div d.den]
RECURSIVE Parse(_, _, _, _)
Parse(ds, late, dm, sm) ==
    [j \in 1..Len(ds) |->
        LET d == ds[j] IN
        CASE d.t = "x" ->
               LET y == [t |-> "x", den |-> d.den, fl |-> d.fl, p |-> FromTerms(d.ts)]
               IN IF late THEN FoldConst(LateDim(y, dm, sm)) ELSE FoldConst(y)
          [] d.t = "S" -> IF late THEN LateDim(d, dm, sm) ELSE d
          [] d.t = "T" -> [t |-> "T", ds |-> Parse(d.ds, late, dm, sm)]
          [] d.t = "C" ->
               LET ps == Parse(d.ps, late, dm, sm)
               IN IF \A k \in 1..Len(ps) : ps[k].t = "T"
                  THEN [t |-> "T", ds |-> FlattenSeq([k \in 1..Len(ps) |-> ps[k].ds])]
                  ELSE [t |-> "C", ps |-> ps]
          [] OTHER -> d]
ParseAttrs(at) ==
    [j \in 1..Len(at) |->
        IF at[j].t = "x" THEN [a |-> at[j].a, t |-> "x", den |-> at[j].den, p |-> FromTerms(at[j].ts)]
        ELSE at[j]]

EmptyTuple(d) == d.t = "u" \/ (d.t = "T" /\ d.ds = <<>>)
\* The shape a list of dimensions spells: [ok, ds].
Spell(ds) ==
    IF \E j \in 1..Len(ds) : ds[j].t = "b" THEN [ok |-> FALSE, ds |-> <<>>]
    ELSE IF \E j \in 1..Len(ds) : EmptyTuple(ds[j])
         THEN [ok |-> Len(ds) = 1, ds |-> <<>>]
    ELSE LET flat == IF Len(ds) = 1 /\ ds[1].t = "T" THEN ds[1].ds ELSE ds
         IN [ok |-> ~AdjacentEllipses(flat), ds |-> flat]

Refused == [ok |-> FALSE]
Sub(h, it, dm, sm) ==
    LET ds == Parse(it.ds, it.late, dm, sm)
        given == it.form = "t" \/ ds # <<>>
        sp == IF it.form = "t" /\ ds = <<>> THEN [ok |-> TRUE, ds |-> <<>>] ELSE Spell(ds)
    IN IF it.dt # <<>> /\ ~LegalDtype(h.b, it.dt[1]) THEN Refused
       ELSE IF given /\ ~sp.ok THEN Refused
       ELSE [ok |-> TRUE,
             h |-> [b |-> h.b,
                    dt |-> IF it.dt = <<>> THEN h.dt ELSE it.dt[1],
                    sh |-> IF given THEN [k |-> "sh", ds |-> sp.ds] ELSE h.sh,
                    hasat |-> IF it.at = <<>> THEN h.hasat ELSE TRUE,
                    at |-> IF it.at = <<>> THEN h.at ELSE ParseAttrs(it.at[1])]]

Bare(b) == [b |-> b, dt |-> [t |-> "any"], sh |-> [k |-> "no"], hasat |-> FALSE, at |-> <<>>]

(***************************** Equality ************************************)
\* "yes", "no" or "either" (the identity of concatenations is unspecified).
RECURSIVE DimEq(_, _)
DimEq(a, b) ==
    IF a.t # b.t THEN "no"
    ELSE CASE a.t = "i" -> IF a.v = b.v THEN "yes" ELSE "no"
           [] a.t = "x" -> IF a.p = b.p /\ a.den = b.den /\ a.fl = b.fl THEN "yes"
                           ELSE IF a.den # b.den \/ a.fl # b.fl THEN "either" ELSE "no"
           [] a.t = "S" -> IF a.s = b.s THEN "yes" ELSE "no"
           [] a.t \in {"C", "T", "z"} -> "either"
           [] OTHER -> "yes"
ShapeEq(a, b) ==
    IF a.k # b.k THEN "no"
    ELSE IF a.k = "no" THEN "yes"
    ELSE IF \E j \in 1..Len(a.ds) : a.ds[j].t \in {"C", "T", "z"} THEN "either"
    ELSE IF \E j \in 1..Len(b.ds) : b.ds[j].t \in {"C", "T", "z"} THEN "either"
    ELSE IF Len(a.ds) # Len(b.ds) THEN "no"
    ELSE IF \E j \in 1..Len(a.ds) : DimEq(a.ds[j], b.ds[j]) = "no" THEN "no"
    ELSE IF \E j \in 1..Len(a.ds) : DimEq(a.ds[j], b.ds[j]) = "either" THEN "either"
    ELSE "yes"
\* Attributes form a dictionary: order does not count.
AttrKey(x) == CASE x.t = "i" -> <<x.a, "i", x.v, ZeroP>>
                [] x.t = "s" -> <<x.a, "s", x.v, ZeroP>>
                [] x.t = "none" -> <<x.a, "none", 0, ZeroP>>
                [] OTHER -> <<x.a, "x", x.den, x.p>>
AttrEq(g, h) ==
    /\ g.hasat = h.hasat
    /\ {AttrKey(g.at[j]) : j \in 1..Len(g.at)} = {AttrKey(h.at[j]) : j \in 1..Len(h.at)}
EqHint(g, h) ==
    IF g.b # h.b \/ DtypeKey(g.b, g.dt) # DtypeKey(h.b, h.dt) \/ ~AttrEq(g, h) THEN "no"
    ELSE ShapeEq(g.sh, h.sh)
=============================================================================
