"""Interpreter of events: performs the events of Asta.tla on the real asta.

Runs under asta's own python in a scratch directory (the current one), with the
configuration of the job written to ./.astarc.  Reads plans (one JSON object per
line: {"cfg","nsh","evs"}), performs them and writes the histories with what was
observed (the traces which Trace.tla validates).  Uses nothing but asta's public
interface: the hint classes, typechecked, asta.dims / shapes / symbols, stdout.
"""
import abc
import decimal
import fractions
import json
import os
import re
import sys
import threading
import traceback
import typing

ANSI = re.compile(r"\x1b\[[0-9;]*m")


class Out:
    """Per-thread stdout."""

    def __init__(self, real):
        self.real = real
        self.bufs = {}

    def write(self, s):
        self.bufs.setdefault(threading.get_ident(), []).append(s)
        return len(s)

    def flush(self):
        pass

    def take(self):
        return "".join(self.bufs.pop(threading.get_ident(), []))


class Absent:
    """ Import machinery of a system without these packages. """

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            self.fail(name)
        return None

    def fail(self, name):
        raise ModuleNotFoundError(f"No module named {name!r}", name=name)


class Broken(Absent):
    """ ... where they are installed, but cannot be loaded. """

    def fail(self, name):
        raise ImportError(f"cannot load {name}: libdevice.so: cannot open shared object file", name=name)


def setup(cfg, mode=(), repo=os.environ.get("ASTA_VERIF_REPO", "/repo"), rc=".astarc"):
    """ Configure and import asta; returns a namespace of what is used. """
    yn = lambda b: "yes" if b else "no"
    if rc:
        with open(rc, "w") as f:
            f.write("[MASTER]\n\n")
            for k, o in (("on", "on"), ("raise", "raise-errors"), ("print", "print-passes"),
                         ("non", "check-non-asta-types"), ("all", "check-all-sequence-elements")):
                f.write(f"{o}={yn(cfg[k])}\n")
    os.environ.pop("ASTA_TYPECHECK", None)
    os.environ.pop("ASTARC", None)
    sys.path.insert(0, repo)
    have = ["A"] + ["T"] * ("tf" in mode) + ["P"] * ("torch" in mode)
    if "torch" in mode:
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
    absent = [m for m, k in (("tensorflow", "T"), ("torch", "P")) if k not in have]
    if "broken" in mode:
        sys.meta_path.insert(0, Broken(absent))
    elif "absent" in mode:
        sys.meta_path.insert(0, Absent(absent))
    else:
        for m in absent:
            sys.modules[m] = None
    out = Out(sys.stdout)
    sys.stdout = out
    import numpy as np
    import asta

    g = {"np": np, "asta": asta, "out": out}
    from asta import Array, Scalar, typechecked, dims, shapes, symbols

    g.update(Array=Array, Scalar=Scalar, typechecked=typechecked, dims=dims, shapes=shapes, symbols=symbols)
    from asta import Tensor, TFTensor

    g.update(Tensor=Tensor, TFTensor=TFTensor, have=have)
    if "T" in have:
        import tensorflow

        g["tf"] = tensorflow
    if "P" in have:
        import torch

        g["torch"] = torch
    out.take()
    return g


def make_values(g):
    """ Builders of values and annotations, and the fixed classes. """
    import abc
    import collections
    import datetime
    import enum
    import functools
    import io
    import operator
    import types
    import typing
    np = g["np"]

    class Tagged(np.ndarray):
        """ An array with an own attribute. """

    class Foo:
        """ A class. """

    class Bar(Foo):
        """ A subclass. """

    class Abs(abc.ABC):
        """ A class which others declare themselves to be. """

    Abs.register(Foo)

    class IntSub(int):
        """ A number. """

    class FloatSub(float):
        """ A number. """

    class En(enum.Enum):
        """ An enumeration. """
        a = 1

    class IEn(enum.IntEnum):
        """ An enumeration of numbers. """
        a = 3

    TV = typing.TypeVar("TV")

    class Gen(typing.Generic[TV]):
        """ A generic class. """

    class Quack:
        """ Has what the protocols ask for. """

        def quack(self):
            """ A method. """

    @typing.runtime_checkable
    class Duck(typing.Protocol):
        """ A protocol. """

        def quack(self):
            """ A method. """

    class Loose(typing.Protocol):
        """ A protocol which cannot be checked. """

        def quack(self):
            """ A method. """

    class MyList(list):
        """ A subclass. """

    class MyTuple(tuple):
        """ A subclass. """

    class MyDict(dict):
        """ A subclass. """

    class MySet(set):
        """ A subclass. """

    class Log(typing.TextIO):
        """ A stream by its base class. """

    class Raw(typing.BinaryIO):
        """ A stream by its base class. """

    classes = {"Log": Log, "Raw": Raw, "MyList": MyList, "MyTuple": MyTuple, "MyDict": MyDict, "MySet": MySet, "ODict": collections.OrderedDict,
               "DDict": collections.defaultdict, "list": list, "dict": dict, "set": set, "frozenset": frozenset, "deque": collections.deque,
               "int": int, "float": float, "complex": complex, "str": str, "bytes": bytes,
               "bool": bool, "object": object, "Foo": Foo, "Bar": Bar, "ndarray": np.ndarray,
               "datetime": datetime.datetime, "timedelta": datetime.timedelta, "date": datetime.date,
               "bytearray": bytearray, "none": type(None), "Scalar": g["Scalar"],
               "Abs": Abs, "isub": IntSub, "fsub": FloatSub, "npf": np.float64, "E": En, "IE": IEn, "G": Gen,
               "Duck": Duck, "Quack": Quack, "TextIO": typing.TextIO, "BinaryIO": typing.BinaryIO, "IO": typing.IO}
    if "tf" in g:
        classes["tensor"] = g["tf"].Tensor
    def array(v):
        if v["b"] == "T":
            tf = g["tf"]
            dt = getattr(tf, v["n"])
            if dt == tf.string:
                return tf.fill(v["sh"], "x")
            return tf.zeros(v["sh"], dtype=dt)
        if v["b"] == "P":
            make = g["torch"].nn.Parameter if v.get("lay") == "sub" else g["torch"].Tensor
            return make(tuple(v["sh"]), getattr(g["torch"], v["n"]))
        sh, lay, dt = tuple(v["sh"]), v.get("lay", "C"), np.dtype(v["n"])
        if lay == "ll":
            dt = np.dtype({"<i8": np.longlong, "<u8": np.ulonglong}[v["n"]])
        size = 1
        for n in sh:
            size *= n
        if size > 100000:
            a = np.broadcast_to(np.zeros((), dt), sh)
        elif lay == "F":
            a = np.zeros(sh, dt, order="F")
        elif lay == "neg" and sh:
            a = np.zeros(sh, dt)[tuple(slice(None, None, -1) for _ in sh)]
        elif lay == "step" and sh:
            a = np.zeros(tuple(2 * n for n in sh), dt)[tuple(slice(None, None, 2) for _ in sh)]
        elif lay == "bc":
            a = np.broadcast_to(np.zeros((), dt), sh)
        elif lay == "T" and sh:
            a = np.zeros(sh[::-1], dt).T
        elif lay == "ro":
            a = np.zeros(sh, dt)
            a.flags.writeable = False
        else:
            a = np.zeros(sh, dt)
            if dt.kind in "iuf" and size:
                a = a + np.arange(size).reshape(sh).astype(dt)
                a = np.asarray(a, dtype=dt).reshape(sh)
        if v.get("tag") or lay == "sub":
            a = a.view(Tagged)
        elif lay == "cls":
            a = a.view(np.matrix if len(sh) == 2 else np.memmap)
        elif lay == "ma":
            a = np.ma.masked_array(a)
        elif lay == "rec":
            a = a.view(np.recarray)
        if v.get("tag") or lay == "sub":
            if v.get("tag"):
                a.tag = v["tag"][0]
        assert a.shape == sh and a.dtype == dt and a.dtype.str == v["n"], (v, a.dtype.str)
        return a

    files = {"textio": open(os.devnull), "rawio": open(os.devnull, "rb", 0)}

    def atom(v):
        c, x = v["c"], v["v"]
        if c == "int":
            return int(x)
        if c == "float":
            return float(x)
        if c == "complex":
            return complex(x)
        if c == "str":
            return x
        if c == "bytes":
            return x.encode()
        if c == "bytearray":
            return bytearray(x.encode())
        if c == "bool":
            return x == "True"
        if c == "none":
            return None
        if c == "datetime":
            return datetime.datetime(2020, 1, 2)
        if c == "timedelta":
            return datetime.timedelta(3)
        if c == "date":
            return datetime.date(2020, 1, 2)
        if c == "time":
            return datetime.time(3, 4)
        if c == "frac":
            return fractions.Fraction(3, 1)
        if c == "dec":
            return decimal.Decimal(3)
        if c == "Foo":
            return Foo()
        if c == "Bar":
            return Bar()
        if c == "obj":
            return object()
        if c == "cls":
            return classes[x]
        if c in ("isub", "fsub", "npf"):
            return classes[c](x)
        if c in ("E", "IE"):
            return classes[c].a
        if c in ("G", "Quack"):
            return classes[c]()
        if c in ("Log", "Raw"):
            return classes[c]()
        if c == "strio":
            return io.StringIO("x")
        if c == "bytesio":
            return io.BytesIO(b"x")
        if c in ("textio", "rawio"):
            return files[c]
        if c == "fun":
            sp = v.get("sp", "")
            args = [f"a{i}" for i in range(v["lo"])]
            if v["hi"] >= 99:
                args.append("*rest")
            else:
                args += [f"b{i}=0" for i in range(v["hi"] - v["lo"])]
            if sp == "po" and v["lo"]:
                args.insert(v["lo"], "/")
            if sp == "kws":
                args.append("**more")
            if sp == "kwo":
                args += ([] if v["hi"] >= 99 else ["*"]) + ["k=1"]
            if sp in ("meth", "obj", "part"):
                args.insert(0, "first")
            fn = eval(f"lambda {', '.join(args)}: None")
            if sp == "part":
                return functools.partial(fn, 1)
            if sp == "meth":
                return types.MethodType(fn, Foo())
            if sp == "obj":
                return type("Calls", (), {"__call__": fn})()
            return fn
        raise ValueError(c)

    def nt(c, H, n=0):
        """ A NamedTuple class, a subclass of it or one which just looks like it. """
        if c.split("/")[0] not in H.nts:    # no annotation mentions it
            H.nts[c.split("/")[0]] = typing.NamedTuple("Other", [(f"f{i}", typing.Any) for i in range(n)])
        if c not in H.nts:
            base = H.nts[c.rsplit("/", 1)[0]]
            if c.endswith("/sub"):
                H.nts[c] = type(base.__name__ + "Sub", (base,), {"method": lambda self: 1})
            else:
                H.nts[c] = typing.NamedTuple(base.__name__, [(f, typing.Any) for f in base._fields])
        return H.nts[c]

    def plain(v):
        return (v["t"] in "LDs" and not v.get("sub")) or (v["t"] == "a" and v["b"] == "A" and not v.get("lay") and not v["tag"])

    def change(x, v, H):
        """ Change the object in place to what is described; false if that cannot be. """
        t = v["t"]
        if t == "a":
            dt, size = np.dtype(v["n"]), 1
            for n in v["sh"]:
                size *= n
            if size > 100000 or (dt != x.dtype and (dt.itemsize != x.dtype.itemsize or dt.hasobject or x.dtype.hasobject or not x.size)):
                return False
            x.dtype = dt
            x.resize(v["sh"], refcheck=False)
            return x.shape == tuple(v["sh"]) and x.dtype.str == v["n"]
        es = [value(e, H) for e in v["es"]]
        if t == "L":
            x[:] = es
        else:
            ks = [value(k, H) for k in v["ks"]] if t == "D" else []
            x.clear()
            x.update(zip(ks, es) if t == "D" else es)
        return True

    def value(v, H):
        t = v["t"]
        if v.get("keep") and plain(v):
            x, was = H.kept.get((v["keep"], t), (None, None))
            if x is None or (was != v and not change(x, v, H)):
                x = (np.zeros(tuple(v["sh"]), v["n"]) if t == "a" and np.prod(v["sh"], dtype=float) <= 100000
                     else value({k: e for k, e in v.items() if k != "keep"}, H))
            if t != "a" or x.flags.owndata:
                H.kept[v["keep"], t] = (x, v)
            return x
        if t == "a":
            return array(v)
        if t == "o":
            return atom(v)
        es = [value(e, H) for e in v["es"]]
        if t == "q":
            return collections.deque(es)
        if v.get("sub"):
            if t == "L":
                return MyList(es)
            if t == "T":
                return MyTuple(es)
            if t == "D":
                return {1: MyDict, 2: collections.OrderedDict, 3: lambda x: collections.defaultdict(list, x)}[v["sub"]](
                    zip([value(k, H) for k in v["ks"]], es))
            if t == "s":
                return MySet(es) if v["sub"] == 1 else dict.fromkeys(es).keys()
        if t == "L":
            return es
        if t == "T":
            return tuple(es)
        if t == "s":
            return set(es)
        if t == "fs":
            return frozenset(es)
        if t == "D":
            return dict(zip([value(k, H) for k in v["ks"]], es))
        if t == "nt":
            return nt(v["c"], H, len(es))(*es)
        raise ValueError(t)

    def ann(a, H):
        """ An annotation, maybe with notes. """
        x = spell(a, H)
        return typing.Annotated[x, "a note", 3] if a.get("mt") else x

    def typeddict(a, H):
        """ A TypedDict in one of the ways to say which keys are required. """
        anns = dict(zip(a["ks"], [ann(x, H) for x in a["as"]]))
        rq, sp = set(a["rq"]), a.get("sp", "")
        if not sp and len(rq) in (0, len(anns)):
            return typing.TypedDict("TD", anns, total=bool(rq))
        if sp in ("I", "J"):
            tot = sp == "I"
            base = typing.TypedDict("TB", {k: x for k, x in anns.items() if (k in rq) == tot}, total=tot)
            rest = {k: x for k, x in anns.items() if (k in rq) != tot}
            return types.new_class("TD", (base,), {"total": not tot}, lambda ns: ns.update(__annotations__=rest))
        tot = a.get("tt", True)
        for k in anns:
            if (k in rq) != tot or sp == "RR":
                anns[k] = (typing.Required if k in rq else typing.NotRequired)[anns[k]]
        return typing.TypedDict("TD", anns, total=tot)

    def spell(a, H):
        t, b = a["t"], a.get("sp") == "b"
        if t == "h":
            return H.hint(a["h"])
        if t == "L":
            return (list if b else typing.List)[ann(a["a"], H)]
        if t == "Q":
            return (collections.abc.Sequence if b else typing.Sequence)[ann(a["a"], H)]
        if t == "s":
            sp = a.get("sp")
            return (set if sp == "b" else typing.AbstractSet if sp == "A" else typing.Set)[ann(a["a"], H)]
        if t == "V":
            return (tuple if b else typing.Tuple)[ann(a["a"], H), ...]
        if t == "T":
            if not a["as"]:
                return (tuple if b else typing.Tuple)[()]
            return (tuple if b else typing.Tuple)[tuple(ann(x, H) for x in a["as"])]
        if t == "D":
            return (dict if b else typing.Dict)[ann(a["ka"], H), ann(a["va"], H)]
        if t == "td":
            return typeddict(a, H)
        if t == "nt":
            c = a["c"].split("/")[0]
            gen = a.get("sp") == "G"
            if c not in H.nts:
                fields = dict(zip(a["fs"], [ann(x, H) for x in a["as"]]))
                H.nts[c] = types.new_class(c, (typing.NamedTuple,) + (typing.Generic[TV],) * gen, {},
                                           lambda ns: ns.update(__annotations__=fields, __module__=H.mod))
            cls = nt(a["c"], H)
            return cls[int] if gen and cls is H.nts[c] else cls
        if t == "U":
            if a.get("sp") == "O":
                return typing.Optional[ann(a["as"][0], H)]
            xs = [ann(x, H) for x in a["as"]]
            if a.get("sp") == "|" and not any(x is None for x in xs[:2]):
                return functools.reduce(operator.or_, xs)
            return typing.Union[tuple(xs)]
        if t == "N":
            return None if a.get("sp") == "0" else type(None)
        if t == "any":
            return {"": typing.Any, "proto": Loose}[a.get("sp", "")]
        if t == "bare":
            return {"List": typing.List, "Sequence": typing.Sequence, "Dict": typing.Dict,
                    "Set": typing.Set, "Tuple": typing.Tuple, "tuple": tuple}[a["c"]]
        if t == "c":
            return classes[a["c"]][int] if a.get("sp") == "b" else classes[a["c"]]
        if t == "cal":
            cal = collections.abc.Callable if b else typing.Callable
            return cal[..., int] if a["n"] < 0 else cal[[int] * a["n"], int]
        if t == "ty":
            tp = type if b else typing.Type
            if not a["cs"]:
                return {"": tp, "b": tp, "any": typing.Type[typing.Any], "tv": typing.Type[TV]}[a.get("sp", "")]
            return tp[typing.Union[tuple(classes[c] for c in a["cs"])]]
        if t == "lit":
            return typing.Literal[tuple(atom(x) for x in a["vs"])]
        if t == "odd":
            o = a["c"]
            if o == "iter":
                return typing.Iterable[int]
            if o == "cal":
                return typing.Callable
            if o == "map":
                return typing.Mapping[str, int]
            if o == "cnt":
                return collections.Counter
            if o == "tv":
                return typing.TypeVar("TV")
        raise ValueError(t)

    return dict(value=value, ann=ann, classes=classes, Foo=Foo, Bar=Bar)


class Sentinel(Exception):
    """ What bodies raise. """


class Odd(TypeError, KeyError):
    """ ... one of many classes. """


class Deep(BaseException):
    """ ... one which is no Exception. """


RAISED = {"own": Sentinel, "type": TypeError, "odd": Odd, "key": KeyError, "index": IndexError, "attr": AttributeError,
          "name": NameError, "value": ValueError, "notimpl": NotImplementedError, "import": ImportError,
          "stop": StopIteration, "assert": AssertionError, "os": OSError, "rec": RecursionError,
          "exit": SystemExit, "int": KeyboardInterrupt, "gen": GeneratorExit, "deep": Deep}


class Stop(BaseException):
    """ The plan is over. """


def fingerprint(x):
    """ What must not change in a value during a call. """
    np = sys.modules["numpy"]
    if isinstance(x, np.ndarray):
        data = x.tobytes() if 0 < x.size <= 64 and not x.dtype.hasobject else b""
        return (id(x), x.shape, x.dtype.str, x.strides, x.flags.writeable, data)
    if isinstance(x, (list, tuple)):
        return (id(x), tuple(fingerprint(e) for e in x))
    if isinstance(x, dict):
        return (id(x), tuple((id(k), fingerprint(e)) for k, e in x.items()))
    if isinstance(x, (set, frozenset)):
        return (id(x), tuple(sorted(id(e) for e in x)))
    return (id(x),)


UID = [0]
# (Each is used by one history. Not what asta.symbols itself imports: Any, symbols.)
CONSTANTS = ["S", "O", "Q", "pi", "oo", "beta", "gamma", "zeta", "Symbol", "sin", "zoo", "nan", "test", "C", "re", "im", "Ellipsis",
             "Integer", "exp", "lamda", "Rational", "None_", "Tensor", "int", "float", "object", "shape", "dtype", "size",
             "dims", "shapes", "tuple", "list", "Array", "Scalar", "ndim", "T", "os", "sys", "Dict", "sympy", "np", "add", "div"]


class Hist:
    """ One history. """

    def __init__(self, g, V, plan, syms=("X", "Y", "Z", "W")):
        UID[0] += 1
        u = UID[0]
        self.g, self.V, self.plan = g, V, plan
        self.dnames = {1: f"DA{u}", 2: f"DB{u}", 6: f"DC{u}"}
        self.snames = {j: f"SH{j}_{u}" for j in range(1, plan["nsh"] + 1)}
        style = plan.get("names", 0)
        if style == 1:      # shapes named like dims
            self.snames = {j: {1: f"DA{u}", 2: f"DB{u}"}.get(j, n) for j, n in self.snames.items()}
        elif style == 2:    # names which begin with others
            self.dnames = {1: f"N{u}", 2: f"N{u}_", 6: f"N{u}_N{u}"}
            self.snames = {j: f"N{u}" + "_" * j for j in self.snames}
        elif style == 3:
            self.dnames = {1: f"_d{u}", 2: f"__d{u}x", 6: f"__d{u}__"}
            self.snames = {j: f"lambda{'_' * j}{u}" for j in self.snames}
            syms = ("n", "n_", "n_1", "n_1_2")
        elif style == 4:    # long names
            self.dnames = {1: f"input_features_per_head_{u}_in", 2: f"input_features_per_head_{u}_out", 6: f"input_features_per_head_{u}_in_out"}
            self.snames = {j: f"batch_dimensions_of_run_{u}_number_{j}_all" for j in self.snames}
            syms = ("number_of_tokens_in_source_text", "number_of_tokens_in_target_text", "number_of_tokens_in_memory_text", "number_of_tokens_in_source")
        elif style == 5:    # names which differ in case
            self.dnames = {1: f"q{u}", 2: f"Q{u}", 6: f"Qq{u}"}
            self.snames = {j: {1: f"Sh{u}", 2: f"sh{u}", 3: f"SH{u}"}.get(j, n) for j, n in self.snames.items()}
            syms = ("x", "X", "xX", "Xx")
        elif style == 6:    # names which mean something elsewhere
            self.dnames = {i: CONSTANTS.pop(0) if CONSTANTS else n for i, n in self.dnames.items()}
            self.snames = {j: CONSTANTS.pop(0) if CONSTANTS else n for j, n in self.snames.items()}
            syms = ("E", "I", "N", "Eq")
        self.dsym = {i: getattr(g["dims"], n) for i, n in self.dnames.items()}
        self.ssym = {j: getattr(g["shapes"], n) for j, n in self.snames.items()}
        self.xnames = dict(enumerate(syms, 1))
        self.xsym = {i: getattr(g["symbols"], n) for i, n in zip((3, 4, 5, 7), syms)}
        self.mod = f"hist{u}"
        self.hints = []
        self.fns = []
        self.cores = {}
        self.nts = {}
        self.kept = {}
        self.log = []
        self.ptr = 0
        self.cv = threading.Condition()
        self.dropped = set()
        self.comps = {}
        self.error = None

    # -------------------------------------------------------------- building
    def var(self, i, late):
        if i in self.dnames:
            return getattr(self.g["dims"], self.dnames[i]) if late else self.dsym[i]
        return self.xsym[i]

    def expr(self, d, late):
        tot = None
        for c, es in d["ts"]:
            term = c
            for i, e in enumerate(es):
                if e:
                    x = self.var(i + 1, late)
                    term = (x ** e if e > 1 else x) if isinstance(term, int) and term == 1 else term * x ** e
            tot = term if tot is None else tot + term
        if d["fl"]:
            return tot // d["den"]
        if d["den"] != 1:
            return tot / d["den"]
        return tot

    def dim(self, d, late):
        t = d["t"]
        if t == "i":
            return d["v"]
        if t == "w":
            return -1
        if t == "e":
            return ...
        if t == "n":
            return None
        if t == "u":
            return self.g["Scalar"]
        if t == "x":
            return self.expr(d, late)
        if t == "S":
            return getattr(self.g["shapes"], self.snames[d["s"]]) if late else self.ssym[d["s"]]
        if t == "T":
            return tuple(self.dim(x, late) for x in d["ds"])
        if t == "C":
            if d.get("id") in self.comps:
                return self.comps[d["id"]]
            tot = self.concat(d, late)
            if d.get("id"):
                self.comps[d["id"]] = tot
            return tot
        if t == "b":
            return {"float": 1.5, "str": "3", "bool": True, "list": [1]}[d["k"]]
        raise ValueError(t)

    def concat(self, d, late):
        """ A concatenation of shape variables, tuples and earlier concatenations. """
        parts = [self.dim(x, late) for x in d["ps"]]
        if d.get("rt"):
            tot = parts[-1]
            for p in parts[-2::-1]:
                tot = p + tot
        else:
            tot = parts[0]
            for p in parts[1:]:
                tot = tot + p
        return tot

    def dtype(self, d, b):
        np = self.g["np"]
        if d["t"] == "py":
            import datetime
            return {"int": int, "float": float, "complex": complex, "bool": bool, "str": str,
                    "bytes": bytes, "object": object, "datetime": datetime.datetime,
                    "timedelta": datetime.timedelta, "dict": dict, "np": np.dtype("float32"),
                    "npt": np.float32}[d["n"]]
        if b != "A":
            return getattr(self.g["tf" if b == "T" else "torch"], d["n"])
        dt = np.dtype(d["n"])
        if d.get("sp") == "ll":
            return {"<i8": np.longlong, "<u8": np.ulonglong}[d["n"]]
        return dt.type if d.get("sp") == "type" else dt

    def item(self, it, b):
        late = it["late"]
        parts = [self.dtype(it["dt"][0], b)] if it["dt"] else []
        ds = []
        for d in it["ds"]:
            if d.get("st"):
                ds.extend([*self.dim(d, late)])
            else:
                ds.append(self.dim(d, late))
        if it["form"] == "t":
            ds = tuple(ds)
            if it.get("ts"):
                ds = self.g["tf"].TensorShape(ds) if b == "T" else self.g["torch"].Size(ds)
            elif not parts and not it["at"]:
                return ds
            parts.append(ds)
        else:
            parts.extend(ds)
        if it["at"]:
            parts.append({a["a"]: self.attr(a) for a in it["at"][0]})
        if len(parts) == 1 and it.get("bare", True):
            return parts[0]
        return tuple(parts)

    def attr(self, a):
        """ The value of an attribute constraint. """
        if a["t"] == "x":
            return self.expr({**a, "fl": False}, False)
        if a["t"] == "none":
            return None
        if a["t"] == "s":
            return tuple(a["v"])
        return {"float": float, "np": self.g["np"].int64}.get(a.get("sp"), int)(a["v"])

    def hint(self, h):
        return self.hints[h - 1]

    def href(self, x):
        if x["b"]:
            return self.g[{"A": "Array", "T": "TFTensor", "P": "Tensor"}[x["b"]]]
        return self.hints[x["h"] - 1]

    # -------------------------------------------------------------- output
    def output(self):
        text = ANSI.sub("", self.g["out"].take())
        hdr, ps, nf, ot, first = [], [], 0, 0, True
        seen = False
        for line in text.split("\n"):
            if not line.strip():
                continue
            m = re.search(r"<asta::(.*)\(\)>", line)
            if m and line.startswith("="):
                if not seen:
                    first = True
                hdr.append(self.cores.get(m.group(1), 0))
            else:
                if not seen:
                    first = False
                if "FAILED" in line:
                    nf += 1
                elif "PASSED" in line:
                    n = re.search(r"(?:Argument|Return) '?([^']*?)'? matched", line)
                    ps.append(n.group(1) if n else line)
                else:
                    ot += 1
            seen = True
        return {"hdr": hdr, "first": first, "ps": ps, "nf": nf, "ot": ot}

    def named(self, fid, err):
        """ Parameters and variables which the message mentions. """
        msg = ANSI.sub("", str(err))
        names = [p["n"] for p in self.fns[fid]["m"]["ps"]] + ["return"]
        res = [n for n in names if re.search(rf"'{n}['\[.]", msg)]
        res += [f"d{i}" for i, n in self.dnames.items() if re.search(rf"\b{n}\b", msg)]
        res += [f"s{i}" for i, n in self.snames.items() if re.search(rf"\b{n}\b", msg)]
        return res

    # -------------------------------------------------------------- events
    def record(self, ev, obs):
        e = dict(ev)
        e["obs"] = obs
        self.log.append(e)

    def attempt(self, fn):
        try:
            fn()
            return "ok"
        except TypeError:
            return "TypeError"
        except Exception as err:
            return "exc:" + type(err).__name__

    def do_setdim(self, ev):
        if ev["bad"]:
            val = {"float": 2.0, "str": "3", "none": None, "tuple": (3,), "npint": self.g["np"].int64(3),
                   "sym": self.dsym[1], "list": [3], "frac": fractions.Fraction(3), "cplx": 3 + 0j, "bytes": b"3",
                   "nparr": self.g["np"].array(3), "dict": {3: 3}, "npfloat": self.g["np"].float64(3), "npuint": self.g["np"].uint8(3),
                   "range": range(3), "type": int, "ell": ...}[ev["kind"]]
        else:
            val = ev["v"]
        self.record(ev, self.attempt(lambda: setattr(self.g["dims"], self.dnames[ev["i"]], val)))

    def do_setshape(self, ev):
        if ev["bad"]:
            val = {"list": [1, 2], "int": 3, "floats": (1.5, 2), "strs": ("a",), "none": None, "sym": (self.dsym[1],),
                   "nested": ((1, 2),), "mixed": (1, None), "npints": (self.g["np"].int64(3),), "str": "ab", "mid": (2, "a", 3), "midnone": (2, None, 3),
                   "last": (2, 3, 2.5), "set": {1, 2}, "bytes": b"ab", "range": range(2), "arr": self.g["np"].array([2, 3]),
                   "dims": (2, self.dsym[1], 3), "shape": self.ssym[1], "nest2": (2, (3,), 4), "ell": (2, ...), "dict": {2: 3},
                   "fourth": (1, 2, 3, "4", 5), "ninth": (1,) * 8 + (None,)}[ev["kind"]]
        else:
            val = tuple(ev["v"])
        self.record(ev, self.attempt(lambda: setattr(self.g["shapes"], self.snames[ev["i"]], val)))

    def do_getdim(self, ev):
        try:
            x = getattr(self.g["dims"], self.dnames[ev["i"]])
        except Exception as err:
            return self.record(ev, {"k": "exc:" + type(err).__name__, "v": 0, "same": False})
        if type(x) is int:
            self.record(ev, {"k": "int", "v": x, "same": True})
        else:
            self.record(ev, {"k": "sym", "v": 0, "same": bool(x == self.dsym[ev["i"]])})

    def do_getshape(self, ev):
        try:
            x = getattr(self.g["shapes"], self.snames[ev["i"]])
        except Exception as err:
            return self.record(ev, {"k": "exc:" + type(err).__name__, "v": [], "same": False})
        if type(x) is tuple:
            ints = all(type(e) is int for e in x)
            self.record(ev, {"k": "tup" if ints else "odd", "v": list(x) if ints else [], "same": True})
        else:
            self.record(ev, {"k": "ph", "v": [], "same": x is self.ssym[ev["i"]]})

    def do_getsym(self, ev):
        name = {"x": self.xnames, "d": self.dnames, "s": self.snames}[ev["n"]][ev["i"]]
        try:
            x, y = getattr(self.g["symbols"], name), getattr(self.g["symbols"], name)
            obs = {"k": "sym" if type(x).__name__ == "Symbol" else "odd",
                   "same": bool(x == y and hash(x) == hash(y) and str(x) == name)}
        except Exception as err:
            obs = {"k": "exc:" + type(err).__name__, "same": False}
        self.record(ev, obs)

    def do_cat(self, ev):
        x = self.ssym[ev["i"]]
        other = {"int": 3, "list": [1, 2], "str": "ab", "none": None, "floats": (1.5,), "strs": (1, "a"),
                 "nested": ((1, 2),), "dim": self.dsym[1], "ell": (1, ...), "dict": {}}[ev["o"]]
        self.record(ev, self.attempt(lambda: other + x if ev["left"] else x + other))

    def do_key(self, ev):
        import typing
        x, y = self.href(ev["x"]), self.href(ev["y"])
        try:
            dic = {x: 1}
            obs = {"k": "ok", "d": bool(y in dic and dic[y] == 1), "s": len({x, y}) == 1,
                   "l": typing.List[x] == typing.List[y]}
        except Exception as err:
            obs = {"k": "exc:" + type(err).__name__}
        self.record(ev, obs)

    def do_mk(self, ev):
        base = self.href(ev["from"])
        b = "A"
        for k, n in (("T", "TFTensor"), ("P", "Tensor")):
            if k in self.g["have"] and issubclass(base, self.g[n]):
                b = k
        res = []

        def make():
            item = self.item(ev["it"], b)
            res.append(base[item])

        obs = self.attempt(make)
        self.hints.append(res[0] if res else base)
        self.record(ev, obs)

    def do_isinst(self, ev):
        v = self.V["value"](ev["v"], self)
        before = fingerprint(v)
        try:
            r = isinstance(v, self.href(ev["h"]))
            obs = "T" if r is True else "F" if r is False else "odd"
        except Exception as err:
            obs = "exc:" + type(err).__name__
        if fingerprint(v) != before:
            obs = "modified"
        self.g["out"].take()
        self.record(ev, obs)

    def do_scalar(self, ev):
        try:
            r = isinstance(self.V["value"](ev["v"], self), self.g["Scalar"])
            obs = "T" if r is True else "F" if r is False else "odd"
        except Exception as err:
            obs = "exc:" + type(err).__name__
        self.record(ev, obs)

    def do_eq(self, ev):
        x, y = self.href(ev["x"]), self.href(ev["y"])
        try:
            obs = {"k": "ok", "e": bool(x == y), "r": bool(y == x), "ne": bool(x != y), "h": hash(x) == hash(y)}
        except Exception as err:
            obs = {"k": "exc:" + type(err).__name__}
        self.record(ev, obs)

    def do_eqx(self, ev):
        np = self.g["np"]
        other = {"int": 3, "none": None, "str": "x", "array": np.zeros(2), "dtype": np.dtype("f8"),
                 "type": float, "tuple": (1, 2), "ndarray": np.ndarray}[ev["o"]]
        try:
            r = self.href(ev["x"]) == other
            obs = "T" if r is True else "F" if r is False else "odd"
        except Exception as err:
            obs = "exc:" + type(err).__name__
        self.record(ev, obs)

    def do_new(self, ev):
        self.record(ev, self.attempt(lambda: self.href(ev["h"])(*[3] * ev["n"])))

    def do_use(self, ev):
        """ What becomes of using an exported class (of a backend which may be missing). """
        import typing
        name = {"A": "Array", "T": "TFTensor", "P": "Tensor"}[ev["b"]]
        module = {"A": "numpy", "T": "tensorflow", "P": "torch"}[ev["b"]]
        w, np = ev["w"], self.g["np"]
        items = [3, (2, 3), (), ..., -1, float, None, (float, 2), "x", {"ndim": 1}, self.xsym[3]]
        others = [3, None, "x", (1,), float, np.float64, [1]]
        vals = [3, None, np.zeros(2), "x", [1], ()]
        k = ev.get("k", 0)

        def use():
            cls = getattr(self.g["asta"], name)
            if w == "name":
                return cls.__name__ == name and isinstance(cls, type)
            if w == "sub":
                return isinstance(cls[items[k % len(items)]], type)
            if w == "eq":
                return (cls == others[k % len(others)]) is False
            if w == "req":
                return (others[k % len(others)] == cls) is False
            if w == "ne":
                return (cls != others[k % len(others)]) is True
            if w == "same":
                return (cls == cls) is True
            if w == "repr":
                return name in repr(cls)
            if w == "str":
                return name in str(cls)
            if w == "format":
                return name in f"{cls}"
            if w == "isinst":
                return isinstance(vals[k % len(vals)], cls) is (ev["b"] == "A" and isinstance(vals[k % len(vals)], np.ndarray))
            if w == "in":
                return cls not in others
            def f(x):
                return x
            f.__annotations__ = {"x": cls} if w == "call" else {"x": int, "return": cls}
            v = 3 if ev["b"] != "A" else np.zeros(2)
            return self.g["typechecked"](f)(v) is v

        try:
            obs = "ok" if use() else "wrong"
        except ImportError as err:
            obs = "ImportError" if re.search(rf"\b{module}\b", str(err)) else "ImportError: " + str(err)[:80]
        except Exception as err:
            obs = "exc:" + type(err).__name__
        self.g["out"].take()
        self.record(ev, obs)

    def do_env(self, ev):
        if ev["v"] == "unset":
            os.environ.pop("ASTA_TYPECHECK", None)
        else:
            os.environ["ASTA_TYPECHECK"] = ev["v"]
        self.record(ev, "ok")

    def do_def(self, ev):
        first = len(self.fns)
        ns = {"__name__": self.mod}
        lines = []
        ind = "    " if ev["cls"] else ""
        cname = f"C{first}"
        local = bool(ev.get("loc", self.plan.get("loc", False)))
        if ev["cls"]:
            ns["H"], ns["META"], ns["GEN"] = self.g["Array"][2], abc.ABCMeta, typing.Generic[typing.TypeVar("TV")]
            lines += ["def elsewhere(x: H): return x",
                      f"class B{cname}:", "    attribute: H = None", "    def inherited(self, x: H): return x",
                      f"class {cname}(B{cname}{dict(abc=', metaclass=META', gen=', GEN').get(ev.get('cs'), '')}):",
                      f"    {'__slots__ = ()' if ev.get('cs') == 'slots' else 'pass'}",
                      "    data = 7", "    fn_data = len", "    def plain(self, x): return x",
                      "    foreign = elsewhere", f"    other = B{cname}", "    annotated: H = None"]
        for j, m in enumerate(ev["ms"]):
            fid = first + j
            sig, seen_po, seen_ko = [], False, False
            if m["kind"] == "inst":
                sig.append("self")
            elif m["kind"] == "cm":
                sig.append("cls")
            pos_only = [p for p in m["ps"] if p["k"] == "po"]
            for k, p in enumerate(m["ps"]):
                if p["k"] == "ko" and not seen_ko:
                    sig.append("*")
                    seen_ko = True
                s = p["n"]
                if p["an"]:
                    key = f"A{j}_{k}"
                    ns[key] = self.V["ann"](p["an"][0], self)
                    s += f": {key}"
                if p["df"]:
                    key = f"D{j}_{k}"
                    ns[key] = self.V["value"](p["df"][0], self)
                    s += f" = {key}"
                sig.append(s)
                if p["k"] == "po" and p is pos_only[-1]:
                    sig.append("/")
            ret = ""
            if m["ret"]:
                ns[f"R{j}"] = self.V["ann"](m["ret"][0], self)
                ret = f" -> R{j}"
            ns["BODY"] = self.body
            if m["kind"] == "cm":
                lines.append(ind + "@classmethod")
            elif m["kind"] == "sm":
                lines.append(ind + "@staticmethod")
            name = {"_": f"_f{fid}", "__": f"__f{fid}", "__x__": f"__f{fid}__", "call": "__call__"}.get(m.get("nm"), f"f{fid}" + "_with_a_name_which_says_what_it_does" * (3 if self.plan.get("names") == 4 else 0))
            attr = f"_{cname}{name}" if m.get("nm") == "__" else name
            args = ", ".join([p["n"] for p in m["ps"]])
            me = {"inst": "self", "cm": "cls"}.get(m["kind"], "None")
            lines.append(f"{ind}def {name}({', '.join(sig)}){ret}:")
            lines.append(f"{ind}    return BODY({fid}, {me}, ({args}{',' if args else ''}))")
            defaults = [ns.get(f"D{j}_{k}") for k in range(len(m["ps"]))]
            self.fns.append({"m": m, "name": name, "attr": attr, "defaults": defaults})
            core = f"{self.mod}.{'outer.<locals>.' if local else ''}{cname + '.' if ev['cls'] else ''}{name}"
            self.cores[core] = fid + 1
        obs = {"k": "ok", "same": False, "name": True, "rest": True}
        try:
            if local:   # made by a function
                lines = ["def outer():"] + ["    " + x for x in lines] + ["    return locals()", "LOCALS = outer()"]
            exec("\n".join(lines), ns)
            ns.update(ns.get("LOCALS", ()))
            if ev["cls"]:
                cls = ns[cname]
                before = {k: v for k, v in cls.__dict__.items()}
                dec = self.g["typechecked"](cls)
                obs["same"] = dec is cls
                rest = True
                for k in ("data", "fn_data", "plain", "foreign", "other", "annotated"):
                    rest = rest and cls.__dict__.get(k) is before[k]
                base = ns["B" + cname]
                rest = rest and "inherited" not in cls.__dict__ and cls.inherited is base.inherited
                rest = rest and base.__dict__["inherited"].__code__.co_filename == "<string>"
                rest = rest and set(cls.__dict__) == set(before)
                for j, m in enumerate(ev["ms"]):
                    fn = self.fns[first + j]
                    if not m["dec"]:
                        rest = rest and cls.__dict__[fn["attr"]] is before[fn["attr"]]
                    got = cls.__dict__[fn["attr"]]
                    under = getattr(got, "__func__", got)
                    obs["name"] = bool(obs["name"] and under.__name__ == fn["name"] and under.__module__ == self.mod)
                    if cfg_off(self) and got is not before[fn["attr"]]:
                        obs["same"] = False
                    fn["cls"] = cls
                    fn["sub"] = type("Sub" + cname, (cls,), {})
                    fn["inst"] = cls()
                    fn["subinst"] = fn["sub"]()
                obs["rest"] = bool(rest)
            else:
                fn = self.fns[first]
                raw = ns[fn["name"]]
                dec = self.g["typechecked"](raw)
                obs["same"] = dec is raw
                obs["name"] = bool(dec.__name__ == raw.__name__ and dec.__module__ == raw.__module__)
                fn["fn"] = dec
        except Exception as err:
            obs["k"] = "exc:" + type(err).__name__
        self.g["out"].take()
        self.record(ev, obs)

    def target(self, fn, ev):
        """ The callable to use and the expected self/cls. """
        m, via = fn["m"], ev.get("via", "inst")
        if "fn" in fn:
            return fn["fn"], None, []
        name = fn["attr"]
        if m["kind"] == "inst":
            obj = fn["subinst"] if via == "sub" else fn["inst"]
            if via == "cls":
                return getattr(fn["cls"], name), obj, [obj]
            return obj if name == "__call__" else getattr(obj, name), obj, []
        if m["kind"] == "cm":
            if via == "sub":
                return getattr(fn["sub"], name), fn["sub"], []
            return getattr(fn["cls"] if via == "cls" else fn["inst"], name), fn["cls"], []
        return getattr({"cls": fn["cls"], "sub": fn["subinst"]}.get(via, fn["inst"]), name), None, []

    def do_call(self, ev):
        fid, th = ev["f"] - 1, ev["th"]
        fn = self.fns[fid]
        callee, me, extra = self.target(fn, ev)
        pos = [self.V["value"](v, self) for v in ev["pos"]]
        kw = {k["n"]: self.V["value"](k["v"], self) for k in ev["kw"]}
        names = [p["n"] for p in fn["m"]["ps"]]
        expect = {}
        for n, d, p in zip(names, fn["defaults"], fn["m"]["ps"]):
            if p["df"]:
                expect[n] = d
        expect.update(kw)
        for p, v in zip([p for p in fn["m"]["ps"] if p["k"] != "ko"], pos):
            expect[p["n"]] = v
        frame = {"ev": ev, "fid": fid, "me": me, "names": names, "expect": expect, "entered": 0,
                 "prints": {n: fingerprint(v) for n, v in expect.items()}, "end": None}
        self.frames.setdefault(th, []).append(frame)
        self.g["out"].take()
        depth = len(self.frames[th])
        try:
            if extra and not pos and (fid + len(kw)) % 2 and not any(p["k"] == "po" for p in fn["m"]["ps"]):
                ret = callee(self=extra[0], **kw)   # self by keyword
            else:
                ret = callee(*extra, *pos, **kw)
            obs = {"k": "returned", "nm": []}
            same = frame["end"] is not None and frame["end"][0] == "ret" and ret is frame["end"][2]
        except Stop:
            raise
        except BaseException as err:
            same = frame["end"] is not None and frame["end"][0] == "raise" and err is frame["end"][2]
            if same:
                obs = {"k": "raised", "nm": []}
            elif isinstance(err, TypeError):
                obs = {"k": "TypeError", "nm": self.named(fid, err)}
            else:
                obs = {"k": "exc:" + type(err).__name__, "nm": []}
        finally:
            del self.frames[th][depth - 1:]
        if self.over:
            raise Stop()
        obs["out"] = self.output()
        if frame["entered"] != 1:
            same = False
        obs["same"] = bool(same)
        if not frame["entered"]:
            self.record(ev, obs)
            self.drop_end(ev, th)
        elif frame["end"] is not None:
            self.record(frame["end"][1], obs)
        else:
            self.record(ev, {"k": "lost", "out": obs["out"], "same": False, "nm": []})

    def body(self, fid, me, args):
        th = self.me()
        if self.over:
            raise Stop()
        frame = self.frames[th][-1]
        frame["entered"] += 1
        got = dict(zip(frame["names"], args))
        same = (frame["entered"] == 1 and frame["fid"] == fid and me is frame["me"]
                and set(got) == set(frame["expect"])
                and all(got[n] is frame["expect"][n] for n in got)
                and all(fingerprint(got[n]) == frame["prints"][n] for n in got))
        if frame["entered"] > 1:
            # A second execution of the body: make it visible at the end.
            return frame["end"][2] if frame["end"] and frame["end"][0] == "ret" else None
        self.record(frame["ev"], {"k": "enter", "same": bool(same), "nm": [], "out": self.output()})
        end = self.run(th, True)
        if end is None:
            raise Stop()
        self.g["out"].take()
        if end["op"] == "ret":
            v = got[end["arg"]] if end.get("arg") in got else self.V["value"](end["v"], self)
            frame["end"] = ("ret", end, v)
            return v
        err = RAISED[end.get("exc", "own")]("planned")
        frame["end"] = ("raise", end, err)
        raise err

    # -------------------------------------------------------------- running
    def drop_end(self, call, th):
        """ The call was rejected: what was planned for its body happens at its caller. """
        evs = self.plan["evs"]
        depth = 0
        for j in range(next(k for k, e in enumerate(evs) if e is call), len(evs)):
            if evs[j].get("th", 1) == th:
                if evs[j]["op"] == "call":
                    depth += 1
                elif evs[j]["op"] in ("ret", "raise"):
                    depth -= 1
                    if depth == 0:
                        self.dropped.add(j)
                        return

    def me(self):
        return self.tids.get(threading.get_ident(), 1)

    def next(self, th):
        """ The next event of this thread, in the global order of the plan. """
        evs = self.plan["evs"]
        with self.cv:
            while True:
                if self.over or self.ptr >= len(evs):
                    self.over = True
                    self.cv.notify_all()
                    return None
                ev = evs[self.ptr]
                t = ev.get("th", 1)
                if t == th:
                    if self.ptr in self.dropped:
                        self.ptr += 1
                        self.cv.notify_all()
                        continue
                    return ev
                if not self.cv.wait(20):
                    self.over = True
                    return None

    def done(self):
        with self.cv:
            self.ptr += 1
            self.cv.notify_all()

    def run(self, th, inside):
        while True:
            ev = self.next(th)
            if ev is None:
                return None
            if ev["op"] in ("ret", "raise"):
                self.done_later(th)
                if inside:
                    return ev
                continue
            if ev["op"] == "call":
                # The baton moves on once the call has been decided.
                self.holding[th] = True
                getattr(self, "do_call")(ev)
                self.done_if(th)
            else:
                getattr(self, "do_" + ev["op"])(ev)
                self.done()

    # A call hands the baton over either when its body asks for the next event
    # (entered) or when it is rejected; an end hands it over when the call is
    # back at its caller.  So no two threads are ever between events at once.
    def done_later(self, th):
        self.holding[th] = True

    def done_if(self, th):
        if self.holding.get(th):
            self.holding[th] = False
            self.done()

    def go(self):
        self.frames, self.tids, self.holding, self.over = {}, {}, {}, False
        ths = sorted({e.get("th", 1) for e in self.plan["evs"]})
        inner_next = self.next

        def nxt(th):
            self.done_if(th)
            return inner_next(th)

        self.next = nxt

        def main(th):
            self.tids[threading.get_ident()] = th
            try:
                self.run(th, False)
            except Stop:
                pass
            except BaseException as err:
                self.error = traceback.format_exc()
                self.over = True
                with self.cv:
                    self.cv.notify_all()

        if ths == [1] or not ths:
            main(1)
        else:
            ts = [threading.Thread(target=main, args=(t,), daemon=True) for t in ths]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        return self.log


def cfg_off(H):
    """ Checking is off for a decoration made now. """
    return not H.g["cfg"]["on"] or os.environ.get("ASTA_TYPECHECK", "1") != "1"


def perform(g, V, plan):
    os.environ.pop("ASTA_TYPECHECK", None)
    H = Hist(g, V, plan)
    log = H.go()
    os.environ.pop("ASTA_TYPECHECK", None)
    g["out"].bufs.clear()
    return {"cfg": {**plan["cfg"], "have": g["have"]}, "nsh": plan["nsh"], "evs": log, "err": H.error or ""}


def main():
    plans, traces = sys.argv[1], sys.argv[2]
    with open(plans) as f:
        lines = [json.loads(line) for line in f if line.strip()]
    cfg = lines[0]["cfg"]
    g = setup(cfg, sys.argv[3:])
    g["cfg"] = cfg
    V = make_values(g)
    with open(traces, "w") as f:
        for plan in lines:
            assert plan["cfg"] == cfg
            f.write(json.dumps(perform(g, V, plan)) + "\n")


if __name__ == "__main__":
    main()
