"""Seeded generator of plans (client behaviours of Asta.tla) for the real code.

Each plan is aimed: hints are generated together with values which fit them under
an assignment of the symbols, and about half of the values are then disturbed.
What the outcome must be is never decided here but by the specification.
"""
import random

NAMES_A = [("<f8", "f", 8), ("<f4", "f", 4), ("<f2", "f", 2), ("<i8", "i", 8), ("<i4", "i", 4), ("|i1", "i", 1),
           ("<u2", "u", 2), ("|u1", "u", 1), ("|b1", "b", 1), ("<c16", "c", 16), ("<c8", "c", 8), (">f8", "f", 8),
           (">i4", "i", 4), ("<U1", "U", 4), ("<U7", "U", 28), ("|S1", "S", 1), ("|S5", "S", 5), ("|O", "O", 8),
           ("<M8[D]", "M", 8), ("<M8[ns]", "M", 8), ("<m8[s]", "m", 8), ("<m8[D]", "m", 8), ("<M8", "M", 8),
           ("<u8", "u", 8), ("<i2", "i", 2), ("<u4", "u", 4), (">c16", "c", 16), (">U3", "U", 12),
           ("<f16", "f", 16), ("<c32", "c", 32), ("|V4", "V", 4), ("<M8[25s]", "M", 8), ("<M8[10D]", "M", 8)]
TYPED = {"<f8", "<f4", "<f2", "<i8", "<i4", "|i1", "<u2", "|u1", "|b1", "<c16", "<c8", "<u8", "<i2", "<u4", "<f16", "<c32"}
BYNAME = {n: (n, k, z) for n, k, z in NAMES_A}
NAMES_T = ["float32", "float64", "float16", "bfloat16", "int32", "int64", "int8", "uint8", "int16", "uint16", "uint32",
           "uint64", "bool", "complex64", "complex128", "string"]
PY_A = {"int": ["<i8"], "float": ["<f8"], "complex": ["<c16"], "bool": ["|b1"], "str": ["<U1", "<U7", ">U3"],
        "bytes": ["|S1", "|S5"], "object": ["|O"], "datetime": ["<M8[D]", "<M8[ns]", "<M8", "<M8[25s]"],
        "timedelta": ["<m8[s]", "<m8[D]"]}
PY_T = {"int": "int32", "float": "float32", "complex": "complex128", "bool": "bool", "bytes": "string",
        "str": "string"}
PY_P = {"int": "int32", "float": "float32", "bool": "bool", "bytes": "uint8"}
NAMES_P = ["float16", "float32", "float64", "bfloat16", "int8", "int16", "int32", "int64", "uint8", "bool", "complex64",
           "complex128"]
EXCS = ["own", "type", "type", "odd", "key", "index", "attr", "name", "value", "notimpl", "import", "stop", "assert", "os",
        "rec", "exit", "int", "gen", "deep"]
# classes of containers, and their values
HOLDERS = {"MyList": ("L", 1), "MyTuple": ("T", 1), "MyDict": ("D", 1), "MySet": ("s", 1), "ODict": ("D", 2), "DDict": ("D", 3), "list": ("L", 0),
           "dict": ("D", 0), "set": ("s", 0), "frozenset": ("fs", 0), "deque": ("q", 0)}
ATOMS = [("int", "3"), ("int", "0"), ("float", "1.5"), ("datetime", ""), ("timedelta", ""), ("str", "abc"), ("bytes", "xy"), ("bool", "True"),
         ("none", "None"), ("Foo", ""), ("Bar", ""), ("obj", ""), ("complex", "1j"), ("str", "")]


LARGE = [100, 127, 128, 255, 256, 257, 300, 1000]


def I(n):
    return {"t": "i", "v": n}


def expr(ts, den=1, fl=False):
    return {"t": "x", "den": den, "fl": fl, "ts": ts}


def mono(*idx):
    e = [0] * 7
    for i in idx:
        e[i - 1] += 1
    return e


def peval(ts, asg):
    tot = 0
    for c, es in ts:
        for i, e in enumerate(es):
            c *= asg[i + 1] ** e
        tot += c
    return tot


# What dims and shapes must refuse.
BAD_DIMS = ["float", "str", "none", "tuple", "npint", "sym", "list", "frac", "cplx", "bytes", "nparr", "dict", "npfloat",
            "npuint", "range", "type", "ell"]
BAD_SHAPES = ["list", "int", "floats", "strs", "none", "sym", "nested", "mixed", "npints", "str", "mid", "midnone", "last",
              "set", "bytes", "range", "arr", "dims", "shape", "nest2", "ell", "dict", "fourth", "ninth"]


class Gen:
    def __init__(self, rng, cfg, prof):
        self.r = rng
        self.cfg = cfg
        self.p = {"backend": "A", "rank": 4, "sym": 0.3, "dim": 0.0, "shp": 0.0, "ell": 0.3, "wild": 0.2, "none": 0.03,
                  "dt": 0.5, "at": 0.0, "bad": 0.5, "big": 0.1, "cont": 0.0, "union": 0.0, "other": 0.0, "depth": 2,
                  "malformed": 0.0, "lateread": 0.1, "zero": 0.05, "nonasta": 0.15}
        self.p.update(prof)
        self.evs = []
        self.hints = []          # mirrored: b, dt, ds or None, at, ok
        self.fns = []
        self.dims = {1: None, 2: None, 6: None}
        self.shapes = {j: None for j in range(1, 6)}
        self.nts = 0
        self.comps, self.ids = [], 0
        self.asg = {}
        self.mag, self.longest = "", False
        self.newasg()
        self.alts = {}
        # Now and then one thing is much larger than usual.
        self.mag = rng.choice(["size", "rank", "long", "deep", "alts", "params", "tower", "vars"] + self.p.get("mags", [])) if self.ch(self.p.get("mag", 0.2)) else ""
        if self.mag == "size":
            self.newasg()
        if self.mag == "deep":
            self.p["depth"] += rng.choice([2, 3, 4])
            self.p["cont"] = max(self.p["cont"], 0.8) if self.p["cont"] else 0.0
        if self.mag == "tower":
            self.p["nest"] = 12

    def ch(self, p):
        return self.r.random() < p

    def di(self):
        """ A dims variable. """
        return self.r.choice([1, 2, 6]) if self.mag == "vars" else self.r.choice([1, 2])

    def si(self):
        """ A shapes variable. """
        return self.r.choice([1, 2, 3, 4, 5]) if self.mag == "vars" else self.r.choice([1, 2, 3])

    def xi(self, usual=(3, 4, 5)):
        """ A symbol. """
        return self.r.choice([3, 4, 5, 7] if self.mag == "vars" else usual)

    def newasg(self):
        for i in (3, 4, 5, 7):
            self.asg[i] = self.r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 11, -2])
            if getattr(self, "mag", "") == "size" and self.ch(0.4):
                self.asg[i] = self.r.choice(LARGE)

    def full(self):
        a = dict(self.asg)
        for i in (1, 2, 6):
            a[i] = self.dims[i] if self.dims[i] is not None else self.r.randint(0, 5)
        return a

    def plan(self):
        return {"cfg": self.cfg, "nsh": 5, "evs": self.evs, "names": self.r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])}

    def ev(self, op, **kw):
        e = {"op": op}
        e.update(kw)
        self.evs.append(e)
        return e

    # ------------------------------------------------------------------ dims
    def size(self):
        if self.ch(self.p["zero"]):
            return 0
        if self.mag == "size" and self.ch(0.4):
            return self.r.choice(LARGE)
        if self.mag == "rank":
            return self.r.choice([1, 1, 2])
        if self.ch(self.p["big"]):
            return self.r.randint(8, 60)
        return self.r.randint(1, 5)

    def symexpr(self):
        """ An expression in symbols (3, 4, 5). """
        r = self.r
        a, b = self.xi(), self.xi()
        one = mono()
        if self.mag == "vars" and self.ch(0.3):
            a, b, c = r.sample([3, 4, 5, 7], 3)
            return expr(r.choice([[[1, mono(a)], [1, mono(b)], [1, mono(c)]], [[1, mono(a, b, c)]], [[1, mono(a, b)], [1, mono(c)]],
                                  [[2, mono(a)], [1, mono(b)], [-1, mono(c)]]]))
        k = r.randint(0, 13)
        if k <= 4:
            return expr([[1, mono(a)]])
        if k == 5:
            return expr([[1, mono(a)], [r.choice([1, 2, -1]), one]])
        if k == 6:
            return expr([[2, mono(a)]])
        if k == 7 and a != b:
            return expr([[1, mono(a)], [1, mono(b)]])
        if k == 8 and a != b:
            return expr([[1, mono(a, b)]])
        if k == 9:
            return expr([[1, mono(a, a)]])
        if k == 10 and a != b:
            return expr([[1, mono(a)], [-1, mono(b)]])
        if k == 11 and a != b:
            return expr([[2, mono(a)], [3, mono(b)]])
        if k == 12:
            return expr([[1, mono(a)]], den=2)
        if k == 13 and a != b:
            return expr([[1, mono(a, b)], [1, one]])
        return expr([[1, mono(a)]])

    def dimexpr(self):
        """ An expression containing a dims variable. """
        r = self.r
        d, e = self.di(), self.di()
        s = self.xi()
        one = mono()
        if self.mag == "vars" and self.ch(0.4):
            return expr(r.choice([[[1, mono(1)], [1, mono(2)], [1, mono(6)]], [[1, mono(1, 2, 6)]], [[1, mono(1, 6)], [1, mono(2)]],
                                  [[2, mono(6)], [1, mono(1)], [-1, mono(2)]], [[1, mono(1, 6)], [1, mono(s)]],
                                  [[1, mono(1)], [1, mono(6)], [1, mono(s)], [1, one]]]))
        k = r.randint(0, 13)
        if k <= 4:
            return expr([[1, mono(d)]])
        if k == 5:
            return expr([[1, mono(d)], [r.choice([1, 2, -1, -1, -2]), one]])
        if k == 6:
            return expr([[r.choice([2, 3]), mono(d)]])
        if k == 7:
            return expr([[1, mono(d)]], den=2)
        if k == 8:
            return expr([[1, mono(d)]], den=2, fl=True)
        if k == 9 and d != e:
            return expr([[1, mono(d)], [1, mono(e)]])
        if k == 10 and d != e:
            return expr([[1, mono(d, e)]])
        if k == 11:
            return expr([[1, mono(d)], [1, mono(s)]])
        if k == 12:
            return expr([[1, mono(d, s)]])
        if k == 13:
            return expr([[1, mono(d, d)]])
        return expr([[1, mono(d)]])

    def constexpr(self):
        s = self.xi()
        return expr([[1, mono(s)], [-1, mono(s)], [self.r.randint(1, 4), mono()]])

    def gdims(self, rank=None, late=False):
        """ Dimensions of a hint (well-formed). """
        r, p = self.r, self.p
        n = r.choice([0, 1, 1, 2, 2, 3, r.randint(0, p["rank"])]) if rank is None else rank
        if self.mag == "rank" and rank is None and self.ch(0.7):
            n = r.randint(6, 10)
        ds = []
        for _ in range(n):
            x = r.random()
            if x < p["ell"]:
                if ds and ds[-1]["t"] == "e":
                    ds.append(I(self.size()))
                else:
                    ds.append({"t": "e"})
            elif self.ch(p["wild"]):
                ds.append({"t": "w"})
            elif self.ch(p["none"]):
                ds.append({"t": "n"})
            elif self.ch(p["shp"]):
                ds.append(self.shapedim(late))
            elif self.ch(p["dim"]):
                e = self.dimexpr()
                if late and (e["den"] != 1 or e["fl"]):
                    e = expr([[1, mono(1)]])
                ds.append(e)
            elif self.ch(p["sym"]):
                ds.append(self.symexpr() if not self.ch(0.03) else self.constexpr())
            else:
                ds.append(I(self.size()))
        if sum(d["t"] == "e" for d in ds) > 1 and (any(d["t"] in "xSC" for d in ds) or len(ds) > 5):
            seen = False
            for k, d in enumerate(ds):
                if d["t"] == "e":
                    if seen:
                        ds[k] = I(self.size())
                    seen = True
        return ds

    def shapedim(self, late):
        r = self.r
        j = self.si()
        ok = [k for k, v in self.shapes.items() if v is None or v != ()]
        if late:
            if not ok:
                return I(2)
            j = r.choice(ok)
        x = {"t": "S", "s": j}
        k = r.randint(0, 5)
        if k <= 2:
            return x
        if k == 3 and not late:
            return {"t": "S", "s": j, "st": True}
        T = {"t": "T", "ds": [self.leaf(late) for _ in range(r.randint(1, 2))]}
        y = {"t": "S", "s": r.choice(ok) if late and ok else self.si()}
        ps = r.choice([[x, T], [T, x], [x, y], [T, x, y], [x, T, y], [x, y, x], [x, T, T], [T, x, T]])
        if late:
            ps = [q for q in ps]
        c = {"t": "C", "ps": ps, "rt": self.ch(0.3)}
        if late:
            return c
        if self.comps and self.ch(0.35):
            # Reuse an earlier concatenation, as it is or as an operand.
            old = r.choice(self.comps)
            if self.ch(0.5):
                return old
            c = {"t": "C", "ps": r.choice([[old, T], [T, old], [old, y], [y, old], [old, old]]), "rt": False}
        if self.ch(0.5):
            self.ids += 1
            c["id"] = self.ids
            self.comps.append(c)
        return c

    def leaf(self, late):
        if self.ch(self.p["dim"] / 2) and not late:
            return expr([[1, mono(self.di())]])
        if self.ch(self.p["sym"] / 2):
            return expr([[1, mono(self.xi((3, 4)))]])
        return I(self.size())

    # --------------------------------------------------------------- hints
    def gdtype(self, b):
        r = self.r
        if b != "A":
            if self.ch(0.4):
                return {"t": "py", "n": r.choice(list(PY_T if b == "T" else PY_P))}
            return {"t": "np", "n": r.choice(NAMES_T if b == "T" else NAMES_P)}
        if self.ch(0.4):
            return {"t": "py", "n": r.choice(list(PY_A))}
        n = r.choice([n for n, k, _ in NAMES_A if k != "O"])
        if n in ("<i8", "<u8") and self.ch(0.2):
            return {"t": "np", "n": n, "sp": "ll"}
        return {"t": "np", "n": n, "sp": "type" if n in TYPED and self.ch(0.4) else "dtype"}

    def gattrs(self, b):
        r = self.r
        res, used = [], set()
        many = self.ch(0.2)
        for _ in range(r.choice([3, 4, 5]) if many else r.choice([1, 1, 2])):
            a = r.choice(["ndim", "ndim", "shape"] + ["dtype", "size"][:self.ch(0.1) + self.ch(0.1) * (b == "P")] if b != "A" else
                         ["ndim", "size", "itemsize", "nbytes", "tag", "tag", "ndim", "size", "shape"] + ["missing", "dtype", "strides"] * (not many and self.ch(0.5)))
            if a in used:
                continue
            used.add(a)
            if a == "shape":
                res.append({"a": a, "t": "s", "v": r.choice([[], [1], [2], [2, 3], [1, 1]])})
            elif (self.ch(0.7 if many else 0.5) or a in ("dtype", "strides")) and a != "missing":
                es = [[[1, mono(3)]], [[1, mono(4)]], [[1, mono(3)], [1, mono()]], [[2, mono(4)]]]
                if many:
                    es += [[[1, mono(5)]]] + es[:1] * 4
                res.append({"a": a, "t": "x", "den": 1, "ts": r.choice(es)})
            elif self.ch(0.08):
                res.append({"a": a, "t": "none"})
            else:
                res.append({"a": a, "t": "i", "v": r.randint(0, 4)})
                if self.ch(0.15):
                    res[-1]["sp"] = r.choice(["float", "np"])
        r.shuffle(res)
        return res

    def gstats(self, h, sh, n):
        """ A shape and dtype whose attributes agree with the attribute part of a hint, if that is easily found. """
        at = [a for a in h["at"] if a["a"] != "tag"]
        if len(at) < 2:
            return sh, n
        r = self.r
        for _ in range(40):
            s = sh if h["ds"] is not None else r.choice([a["v"] for a in at if a["t"] == "s"] * 3 + [
                [1] * r.randint(0, 4), [r.randint(1, 4) for _ in range(r.randint(0, 3))]])
            m = n if h["dt"] is not None else r.choice(NAMES_A)[0]
            size = 1
            for x in s:
                size *= x
            z = BYNAME[m][2]
            have = {"ndim": len(s), "size": size, "itemsize": z, "nbytes": size * z}
            asg, good = {}, True
            for a in at:
                if a["t"] == "s":
                    good = good and list(a["v"]) == list(s)
                elif a["a"] not in have:
                    good = False
                elif a["t"] == "i":
                    good = good and a["v"] == have[a["a"]]
                elif a["t"] == "x":
                    c, es = a["ts"][0]
                    v = have[a["a"]] - sum(x[0] for x in a["ts"][1:])
                    i = es.index(1)
                    good = good and asg.setdefault(i, v / c) == v / c
            if good:
                return s, m
        return sh, n

    def malformed(self, b):
        """ An item which must be refused. """
        r = self.r
        it = {"dt": [], "form": "l", "ds": [], "at": [], "late": False, "bare": self.ch(0.5)}
        k = r.randint(0, 6)
        if b != "A" and k == 6:
            it["dt"] = [{"t": "py", "n": r.choice(["np", "npt", "datetime", "object", "dict"] + (["str", "complex"] if b == "P" else []))}]
            it["ds"] = self.gdims(1)
            return it
        if self.ch(0.4):
            it["dt"] = [self.gdtype(b)]
        ds = self.gdims(r.randint(0, 2))
        pos = r.randint(0, len(ds))
        if k <= 1:
            ds[pos:pos] = [{"t": "e"}, {"t": "e"}]
            if self.ch(0.3) and not it["dt"]:
                it["form"] = "t"
        elif k <= 3:
            ds.insert(pos, r.choice([{"t": "u"}, {"t": "T", "ds": []}]))
            if len(ds) == 1:
                ds.insert(r.randint(0, 1), r.choice([I(2), {"t": "u"}, {"t": "T", "ds": []}, {"t": "w"}]))
        else:
            ds.insert(pos, {"t": "b", "k": r.choice(["float", "str", "bool", "list"])})
        it["ds"] = ds
        return it

    def gitem(self, b, want_dt=None, want_ds=None, want_at=None):
        r, p = self.r, self.p
        late = self.ch(p["lateread"])
        dt = self.ch(p["dt"]) if want_dt is None else want_dt
        at = self.ch(p["at"]) if want_at is None else want_at
        dsq = (self.ch(0.85) or not (dt or at)) if want_ds is None else want_ds
        it = {"dt": [self.gdtype(b)] if dt else [], "form": "l", "ds": [], "at": [self.gattrs(b)] if at else [],
              "late": late, "bare": self.ch(0.6)}
        if dsq:
            ds = self.gdims(late=late)
            if not ds:
                if self.ch(0.5):
                    it["form"] = "t"
                else:
                    ds = [r.choice([{"t": "u"}, {"t": "T", "ds": []}])]
                    if at or it["bare"] is False:
                        pass
            elif self.ch(0.3) and all(d["t"] not in "TC" and not d.get("st") for d in ds) and not (
                    late and any(d["t"] == "S" for d in ds)):
                it["form"] = "t"
                if b != "A" and all(d["t"] == "i" for d in ds) and self.ch(0.5):
                    it["ts"] = True
            it["ds"] = ds
        return it

    def mk(self, it=None, base=None):
        """ Event for a new hint; returns its index. """
        b = self.r.choice(self.p["backend"])
        if base is None:
            frm = {"b": b, "h": 0}
            old = {"b": b, "dt": None, "ds": None, "at": []}
        else:
            frm = {"b": "", "h": base}
            old = self.hints[base - 1]
            b = old["b"]
        bad = False
        if it is None:
            if self.ch(self.p["malformed"]):
                it, bad = self.malformed(b), True
            else:
                it = self.gitem(b)
        self.ev("mk", **{"from": frm}, it=it)
        new = dict(old)
        if not bad:
            if it["dt"]:
                new["dt"] = it["dt"][0]
            if it["ds"] or it["form"] == "t":
                ds = [d for d in it["ds"] if d["t"] != "u"]
                new["ds"] = self.readlate(ds) if it["late"] else ds
            if it["at"]:
                new["at"] = it["at"][0]
        self.hints.append(new)
        return len(self.hints)

    def readlate(self, ds):
        out = []
        for d in ds:
            if d["t"] == "x":
                ts = []
                for c, es in d["ts"]:
                    es = list(es)
                    for i in (1, 2, 6):
                        if self.dims[i] is not None:
                            c *= self.dims[i] ** es[i - 1]
                            es[i - 1] = 0
                    ts.append([c, es])
                out.append({**d, "ts": ts})
            elif d["t"] == "S" and self.shapes[d["s"]] is not None:
                out.append({"t": "T", "ds": [I(n) if n >= 0 else {"t": "w"} for n in self.shapes[d["s"]]]})
            else:
                out.append(d)
        return out

    # --------------------------------------------------------------- values
    def inst(self, ds, asg):
        """ A shape fitting the dimensions. """
        sh = []
        for d in ds:
            t = d["t"]
            if t == "i":
                sh.append(d["v"])
            elif t == "w":
                sh.append(self.r.randint(1, 6))
            elif t == "e":
                sh.extend(self.r.randint(1, 4) for _ in range(self.r.choice([0, 0, 1, 2, 3])))
            elif t == "x":
                v = peval(d["ts"], asg) // d["den"]
                sh.append(v if v >= 0 else self.r.randint(0, 3))
            elif t == "S":
                sh.extend(n if n >= 0 else self.r.randint(1, 3) for n in (self.shapes[d["s"]] or ()))
            elif t == "C":
                sh.extend(self.inst(d["ps"], asg))
            elif t == "T":
                sh.extend(self.inst(d["ds"], asg))
            else:
                sh.append(self.r.randint(0, 3))
        return sh

    def disturb(self, sh):
        r = self.r
        sh = list(sh)
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.randint(0, 6)
            if k <= 1 and sh:
                i = r.randrange(len(sh))
                sh[i] = max(0, sh[i] + r.choice([-1, 1]))
            elif k == 2:
                sh.insert(r.randint(0, len(sh)), r.choice([1, 1, 2, 0]))
            elif k == 3 and sh:
                sh.pop(r.randrange(len(sh)))
            elif k == 4 and sh:
                sh[r.randrange(len(sh))] = r.choice([0, 0, 1, 2])
            elif k == 5 and len(sh) > 1:
                i, j = r.sample(range(len(sh)), 2)
                sh[i], sh[j] = sh[j], sh[i]
            elif k == 6 and sh:
                i = r.randrange(len(sh))
                sh[i] = r.choice(sh)
        return sh

    def arr(self, b, n, sh, tag=()):
        if b != "A":
            v = {"t": "a", "b": b, "n": n, "k": "", "z": 0, "sh": sh, "tag": []}
            return dict(v, lay="sub") if b == "P" and self.ch(0.2) else v
        n, k, z = BYNAME[n]
        v = {"t": "a", "b": "A", "n": n, "k": k, "z": z, "sh": sh, "tag": list(tag)}
        if n in ("<i8", "<u8") and self.ch(0.1):
            return dict(v, lay="ll")
        if self.ch(0.3):
            v["lay"] = self.r.choice(["F", "neg", "step", "bc", "T", "ro", "sub", "cls", "ma", "rec"])
        return v

    def dtfor(self, h, fit):
        b, dt = h["b"], h["dt"]
        if b != "A":
            if dt is None or not fit:
                return self.r.choice(NAMES_T if b == "T" else NAMES_P)
            return (PY_T if b == "T" else PY_P).get(dt["n"], "float32") if dt["t"] == "py" else dt["n"]
        if not fit or dt is None:
            return self.r.choice(NAMES_A)[0] if self.ch(0.6) else self.r.choice(["<f8", "<i8", "<f4", "<i4"])
        return self.r.choice(PY_A[dt["n"]]) if dt["t"] == "py" else dt["n"]

    def clip(self, sh, b="A"):
        sh = [min(n, 2000) for n in sh][:24]
        tot = 1
        out = []
        most = 2 ** 24 if b == "A" else 2 ** 20
        for n in sh:
            tot *= max(n, 1)
            out.append(n if tot < most else 1)
            if tot >= most:
                tot //= max(n, 1)
        return out

    def hval(self, h, fit=True, asg=None):
        """ A value for a mirrored hint. """
        r = self.r
        asg = asg or self.full()
        if not fit and self.ch(self.p["nonasta"]):
            c, x = r.choice(ATOMS) if self.ch(0.7) else ("none", "None")
            return self.atom(c, x) if self.ch(0.8) else {"t": r.choice("LTq"), "es": []}
        sh = self.inst(h["ds"], asg) if h["ds"] is not None else [r.randint(0, 4) for _ in range(r.randint(0, 3))]
        okdt = True
        if not fit:
            if h["dt"] is not None and self.ch(0.35):
                okdt = False
            else:
                sh = self.disturb(sh)
        sh = self.clip(sh, "A" if set(self.p["backend"]) == {"A"} else "T")
        b = h["b"]
        if not fit and len(set(self.p["backend"])) > 1 and self.ch(0.15):
            b = r.choice([x for x in sorted(set(self.p["backend"])) if x != b])
            n = "<f8" if b == "A" else "float32"
            return self.arr(b, n, sh)
        tag = []
        n = self.dtfor(h, okdt)
        for a in h["at"]:
            if a["a"] == "tag" and b == "A" and a["t"] != "none":
                v = a["v"] if a["t"] == "i" else peval(a["ts"], asg)
                tag = [v] if fit or self.ch(0.5) else [v + 1]
            elif a["a"] == "shape" and fit and h["ds"] is None and a["t"] == "s":
                sh = a["v"]
            elif a["a"] == "ndim" and a["t"] == "i" and fit and h["ds"] is None:
                sh = [r.randint(1, 3) for _ in range(a["v"])]
            elif a["a"] == "size" and a["t"] == "i" and fit and h["ds"] is None:
                sh = [a["v"]]
        if tag and not fit and self.ch(0.2):
            tag = []
        if b == "A" and len(h["at"]) > 1 and (fit or self.ch(0.3)):
            sh, n = self.gstats(h, sh, n)
        return self.arr(b, n, sh, tag)

    def atom(self, c, x):
        return {"t": "o", "c": c, "v": x}

    def fun(self):
        lo = self.r.randint(0, 2)
        hi = self.r.choice([lo, lo, lo + 1, 99])
        return {"t": "o", "c": "fun", "v": "", "lo": lo, "hi": hi, "sp": self.r.choice(["", "", "", "meth", "obj", "part", "kwo", "kws", "kws", "po"])}

    def odd_atom(self):
        """ An object of a class which only annotations of classes tell apart. """
        return self.atom(*self.r.choice([("isub", "3"), ("fsub", "1.5"), ("npf", "1.5"), ("IE", "3"), ("E", ""), ("strio", ""), ("Log", ""), ("Raw", ""),
                                         ("textio", ""), ("bytesio", ""), ("rawio", ""), ("G", ""), ("Quack", ""), ("date", ""),
                                         ("time", ""), ("frac", ""), ("dec", ""), ("bytearray", "xy")]))

    def any_value(self):
        r = self.r
        k = r.randint(0, 9)
        if k <= 3:
            return self.atom(*r.choice(ATOMS))
        if k == 4:
            return self.fun() if self.ch(0.5) else self.odd_atom()
        if k == 5:
            return {"t": "L", "es": [self.atom("int", "1")]}
        if k == 6:
            return {"t": "T", "es": [self.atom("str", "q")] * r.randint(0, 2)}
        if k == 7:
            return {"t": "D", "ks": [self.atom("str", "a")], "es": [self.atom("int", "1")]}
        if k == 8:
            return {"t": "o", "c": "cls", "v": r.choice(["Foo", "Bar", "int", "float"])}
        return self.arr("A", "<f8", [r.randint(0, 3) for _ in range(r.randint(0, 2))])

    def scalar(self, fit):
        """ A value which is a scalar, or mostly one which is not. """
        r = self.r
        b = r.choice(self.p["backend"])
        n = r.choice([x[0] for x in NAMES_A]) if b == "A" else r.choice(NAMES_T if b == "T" else NAMES_P)
        if fit:
            return self.arr(b, n, []) if self.ch(0.5) else self.atom(*r.choice(
                [("int", "3"), ("bool", "True"), ("float", "1.5"), ("complex", "1j"), ("str", ""), ("bytes", "xy"),
                 ("datetime", ""), ("timedelta", "")]))
        return self.arr(b, n, r.choice([[1], [0], [1, 1], [2, 3], [1, 0]])) if self.ch(0.5) else self.any_value() if self.ch(0.6) else \
            self.atom(*r.choice([("date", ""), ("time", ""), ("frac", ""), ("dec", ""), ("bytearray", "xy")]))

    # ----------------------------------------------------------- annotations
    def hsome(self):
        """ A hint index, mostly a new one. """
        if self.hints and self.ch(0.85 if self.mag in ("long", "params", "alts") and len(self.hints) > 2 else 0.5):
            return self.r.randint(1, len(self.hints))
        return self.mk()

    def many(self, usual, lo, hi):
        """ How many elements. """
        if self.mag == "long" and self.ch(0.6):
            return self.r.randint(lo, hi)
        if self.mag == "deep":
            return min(1, self.r.choice(usual))
        return self.r.choice(usual)

    def gann(self, depth=None):
        """ An annotation. """
        a = self.gann0(depth)
        if self.p["cont"] + self.p["other"] > 0 and self.ch(0.06):
            a["mt"] = True
        return a

    def gann0(self, depth=None):
        r, p = self.r, self.p
        depth = p["depth"] if depth is None else depth
        x = r.random()
        if depth > 0 and x < p["cont"]:
            k = r.choice("LLQVTTDDstn")
            sp = r.choice(["b", ""])
            if k in "LQV":
                return {"t": k, "a": self.gann(depth - 1), "sp": sp}
            if k == "T":
                return {"t": "T", "as": [self.gann(0 if self.mag == "long" else depth - 1) for _ in range(self.many([0, 1, 2, 2, 3], 5, 9))], "sp": sp}
            if k == "D":
                return {"t": "D", "ka": r.choice([{"t": "c", "c": "str"}] * 4 + [{"t": "c", "c": "int"}] * 3 + [{"t": "N"}, {"t": "any"}]),
                        "va": self.gann(depth - 1), "sp": sp}
            if k == "s":
                return {"t": "s", "a": r.choice([{"t": "c", "c": "int"}, {"t": "N"}, self.gann(0)]),
                        "sp": r.choice(["b", "", "A"])}
            if k == "t":
                n = self.many([0, 1, 2, 3], 4, 7)
                ks = list("abcdefg"[:n])
                rq = ks if self.ch(0.45) else [] if self.ch(0.4) else r.sample(ks, r.randint(0, n))
                return {"t": "td", "ks": ks, "as": [self.gann(depth - 1) for _ in range(n)], "rq": rq,
                        "sp": r.choice(["", "", "I", "J", "R", "RR"]), "tt": self.ch(0.5)}
            self.nts += 1
            n = self.many([1, 2, 3], 4, 7)
            return {"t": "nt", "c": f"NT{self.nts}" + ("/sub" if self.ch(0.25) else ""), "fs": ["fa", "fb", "fc", "fd", "fe", "ff", "fg"][:n],
                    "as": [self.gann(depth - 1) for _ in range(n)], "sp": "G" if self.ch(0.15) else ""}
        if depth > 0 and x < p["cont"] + p["union"]:
            if self.ch(0.3):
                a = self.gann(depth - 1)
                if a["t"] not in ("N", "any"):
                    return {"t": "U", "as": [a, {"t": "N"}], "sp": "O"}
            n = r.randint(4, 6) if self.mag == "alts" else r.choice([2, 2, 3])
            return {"t": "U", "as": [self.gann(depth - 1) for _ in range(n)], "sp": "|" if self.ch(0.35) else ""}
        if self.ch(p["other"]):
            k = r.randint(0, 9)
            if k <= 3:
                if self.ch(0.12):
                    return {"t": "c", "c": r.choice(list(HOLDERS))}
                if self.ch(0.25):
                    c = r.choice(["Abs", "fsub", "npf", "E", "IE", "G", "Duck", "TextIO", "BinaryIO", "IO", "Log", "Raw", "isub", "date", "datetime"])
                    return {"t": "c", "c": c, "sp": "b" if c == "G" and self.ch(0.5) else ""}
                return {"t": "c", "c": r.choice(["int", "float", "complex", "str", "bytes", "Foo", "Bar", "object", "bool",
                                                 "ndarray", "Scalar"])}
            if k == 4:
                return {"t": "N", "sp": r.choice(["", "0"])}
            if k == 5:
                return {"t": "any", "sp": "proto" if self.ch(0.2) else ""}
            if k == 6:
                return {"t": "cal", "n": r.choice([-1, 0, 1, 2]), "sp": "b" if self.ch(0.3) else ""}
            if k == 7:
                if self.ch(0.25):
                    return {"t": "ty", "cs": [], "sp": r.choice(["", "any", "tv"])}
                return {"t": "ty", "cs": r.sample(["Foo", "Bar", "int", "object", "Abs", "str"], r.choice([1, 1, 1, 2])),
                        "sp": r.choice(["", "b"])}
            if k == 8:
                return {"t": "lit", "vs": r.sample([self.atom("int", "3"), self.atom("str", "abc"), self.atom("bool", "True"),
                                                    self.atom("int", "1"), self.atom("none", "None"), self.atom("E", "")], r.randint(1, 3))}
            if self.ch(0.5):
                return {"t": "bare", "c": r.choice(["List", "Sequence", "Dict", "Set", "Tuple", "tuple"])}
            return {"t": "odd", "c": r.choice(["iter", "cal", "map", "cnt", "tv"])}
        return {"t": "h", "h": self.hsome()}

    def sub(self, v):
        """ Now and then a value of a subclass. """
        if v["t"] in "LTDs" and self.ch(0.1):
            v["sub"] = self.r.choice({"D": [1, 2, 3], "s": [1, 2]}.get(v["t"], [1]))
        return v

    def aval(self, a, fit=True):
        """ A value for an annotation. """
        r, t = self.r, a["t"]
        if t == "h":
            return self.hval(self.hints[a["h"] - 1], fit)
        if t == "N":
            return self.atom("none", "None") if fit else self.any_value()
        if not fit and t not in ("any", "odd") and self.ch(0.25):
            return self.any_value()
        one = lambda n: (r.randrange(n) if n and not fit else -1)
        if t in "LQVs" and len(t) == 1:
            n = self.many([0, 1, 2, 3] if fit else [1, 2, 3], 5, 40 if not self.longest and self.ch(0.3) else 14)
            self.longest = self.longest or n > 14
            if t == "s":
                es = []
                for j in range(n):
                    e = self.aval(a["a"], fit)
                    if e["t"] == "o" and e["c"] in ("int", "str", "none", "Foo") and e not in es:
                        es.append(e if e["c"] != "int" else self.atom("int", str(j + 10)))
                seen, out = set(), []
                for e in es:
                    if (e["c"], e["v"]) not in seen:
                        seen.add((e["c"], e["v"]))
                        out.append(e)
                return self.sub({"t": r.choice(["s", "fs"]), "es": out})
            k = one(n)
            es = [self.aval(a["a"], j != k) for j in range(n)]
            kind = {"L": "L", "V": "T", "Q": r.choice("LTLTq")}[t]
            if not fit and self.ch(0.1):
                kind = r.choice([x for x in "LTq" if x != kind])
            return self.sub({"t": kind, "es": es})
        if t == "T":
            n = len(a["as"])
            k = one(n)
            es = [self.aval(x, j != k) for j, x in enumerate(a["as"])]
            if not fit and (self.ch(0.3) or not n):
                if es and self.ch(0.5):
                    es.pop()
                else:
                    es.append(self.any_value())
            return self.sub({"t": "T", "es": es})
        if t == "D":
            n = self.many([0, 1, 2] if fit else [1, 2], 4, 11)
            k = one(n)
            if a["ka"]["t"] == "N":
                ks = [self.atom("none", "None")][:n]
            elif a["ka"]["t"] == "any":
                ks = [self.atom("str", "k"), self.atom("int", "3")][:n]
            elif a["ka"]["c"] == "int":
                ks = [self.atom("int", str(j)) for j in range(n)]
            else:
                ks = [self.atom("str", "abcdefghijklm"[j]) for j in range(n)]
            if not fit and self.ch(0.2) and ks:
                ks[0] = self.atom("str", "zz")
            return self.sub({"t": "D", "ks": ks, "es": [self.aval(a["va"], j != k) for j in range(len(ks))]})
        if t == "td":
            keys = list(a["ks"])
            if self.ch(0.6):
                keys = [x for x in keys if x in a["rq"] or self.ch(0.5)]
            drop = not fit and self.ch(0.4) and keys
            if drop:
                keys.pop(r.randrange(len(keys)))
            k = one(len(keys)) if not drop else -1
            es = [self.aval(a["as"][a["ks"].index(x)], j != k) for j, x in enumerate(keys)]
            if not fit and self.ch(0.2):
                keys.append("extra")
                es.append(self.atom("int", "1"))
            return self.sub({"t": "D", "ks": [self.atom("str", x) for x in keys], "es": es})
        if t == "nt":
            k = one(len(a["as"]))
            es = [self.aval(x, j != k) for j, x in enumerate(a["as"])]
            if not fit and self.ch(0.4):
                return r.choice([{"t": "T", "es": es}, {"t": "nt", "c": a["c"] + "/twin", "es": es},
                                 {"t": "nt", "c": a["c"].split("/")[0], "es": es}])
            return {"t": "nt", "c": a["c"] + ("/sub" if self.ch(0.1) else ""), "es": es}
        if t == "U":
            return self.aval(r.choice(a["as"]), fit)
        if t == "bare":
            if not fit:
                return self.any_value()
            return {"List": {"t": "L", "es": [self.atom("int", "1")]}, "Sequence": {"t": "T", "es": []},
                    "Dict": {"t": "D", "ks": [], "es": []}, "Set": {"t": "s", "es": []},
                    "Tuple": {"t": "T", "es": []}, "tuple": {"t": "T", "es": [self.atom("int", "1")]}}[a["c"]]
        if t == "any":
            return self.any_value()
        if t == "odd":
            c = a["c"]
            if not self.cfg["non"] and not fit:
                return self.any_value()
            return {"iter": {"t": "L", "es": []}, "cal": self.fun(), "map": {"t": "D", "ks": [], "es": []},
                    "cnt": self.any_value() if not self.cfg["non"] else None, "tv": self.any_value()}[c] or \
                {"t": "D", "ks": [], "es": []}
        if t == "c" and a["c"] in HOLDERS:
            k, sub = HOLDERS[a["c"]]
            if not fit:
                k, sub = r.choice([(k, 0), r.choice(list(HOLDERS.values())), r.choice(list(HOLDERS.values()))])
                if self.ch(0.4):
                    return self.any_value()
            es = r.choice([[], [self.atom("int", "3")], [self.atom("int", "3"), self.atom("str", "abc")]])
            v = {"t": k, "es": es}
            if k == "D":
                v["ks"] = [self.atom("str", "k" * (j + 1)) for j in range(len(es))]
            if sub:
                v["sub"] = sub
            return v
        if t == "c":
            good = {"int": r.choice([("int", "3"), ("int", "3"), ("int", "-1"), ("bool", "True"), ("bool", "False"), ("isub", "3"), ("IE", "3")]),
                    "float": r.choice([("float", "1.5"), ("float", "1.5"), ("fsub", "1.5"), ("float", "0.0")]), "complex": ("complex", "1j"), "str": ("str", "abc"),
                    "bytes": ("bytes", "xy"), "Foo": r.choice([("Foo", ""), ("Bar", "")]), "Bar": ("Bar", ""), "object": ("obj", ""),
                    "bool": ("bool", r.choice(["True", "False"])), "Abs": ("Foo", ""), "fsub": ("fsub", "1.5"), "isub": ("isub", "3"),
                    "npf": ("npf", "1.5"), "E": ("E", ""), "IE": ("IE", "3"), "G": ("G", ""), "Duck": ("Quack", ""), "datetime": ("datetime", ""),
                    "date": r.choice([("date", ""), ("datetime", "")]),
                    "TextIO": r.choice([("strio", ""), ("textio", ""), ("Log", "")]), "BinaryIO": r.choice([("bytesio", ""), ("rawio", ""), ("Raw", "")]),
                    "Log": ("Log", ""), "Raw": ("Raw", ""),
                    "IO": r.choice([("strio", ""), ("textio", ""), ("bytesio", ""), ("rawio", ""), ("Log", ""), ("Raw", "")])}
            if not fit and a["c"] not in ("Scalar", "ndarray") and self.ch(0.5):
                return self.odd_atom()
            if a["c"] == "Scalar":
                return self.scalar(fit)
            if a["c"] == "ndarray":
                return self.arr("A", "<f8", [2]) if fit else self.any_value()
            return self.atom(*good[a["c"]]) if fit else self.any_value()
        if t == "cal":
            return self.fun()
        if t == "ty":
            c = r.choice(a["cs"] or ["object"])
            return {"t": "o", "c": "cls", "v": c if fit and c not in ("object", "Abs") else
                    r.choice(["Foo", "Bar"] if c == "Abs" and fit else ["Foo", "Bar", "int", "float", "IE", "fsub", "E", "G", "Quack"])}
        if t == "lit":
            return r.choice(a["vs"]) if fit else self.any_value()
        raise ValueError(t)

    # ----------------------------------------------------------- functions
    def gparams(self, n=None, kinds=True, unann=0.0, defaults=0.2, odd=True):
        r = self.r
        names = list("xyzuvwabcdef")
        if odd and self.ch(0.15) and self.mag != "params":
            names = r.sample(["args", "kwargs", "ret", "name", "value", "decorated", "annotation", "ox", "fn", "x_y", "X"], 6)
        if n is None:
            n = r.randint(5, 10) if self.mag == "params" else r.choice([1, 1, 2, 2, 3])
        ks = sorted((r.choice(["pk", "pk", "pk", "po", "ko"]) if kinds else "pk") for _ in range(n))
        ks = [k for k in ks if k == "po"] + [k for k in ks if k == "pk"] + [k for k in ks if k == "ko"]
        ps, dflt = [], False
        for j, k in enumerate(ks):
            an = [] if self.ch(unann) else [self.gann()]
            df = []
            if (dflt and k != "ko") or self.ch(defaults):
                df = [self.aval(an[0], not self.ch(0.15)) if an else self.atom("int", "1")]
                dflt = dflt or k != "ko"
            ps.append({"n": names[j], "k": k, "an": an, "df": df})
        return ps

    def needs_nt(self, ps):
        return False

    def gdef(self, cls=False, **kw):
        r = self.r
        ms = []
        for _ in range(r.choice([1, 2, 3]) if cls else 1):
            kind = r.choice(["inst", "inst", "cm", "sm"]) if cls else "func"
            if cls and self.ch(0.15):
                ps = [{"n": "xyz"[j], "k": "pk", "an": [], "df": []} for j in range(r.randint(0, 2))]
                ms.append({"kind": kind, "ps": ps, "ret": [], "dec": False})
                continue
            ps = self.gparams(**kw)
            if kind == "func" and ps[0]["an"] and self.ch(0.06):
                ps[0]["n"] = r.choice(["self", "cls", "mcs"])
            if self.ch(0.08):
                ps = []
            # NamedTuple classes of values exist once their annotation has been made.
            ret = [self.gann()] if self.ch(0.5 if ps else 0.9) else []
            dec = not cls or bool(ret) or any(p["an"] for p in ps)
            ms.append({"kind": kind, "ps": ps, "ret": ret, "dec": dec})
            if cls and self.ch(0.4):
                ms[-1]["nm"] = r.choice(["_", "__", "__x__"])
            elif kind == "inst" and self.ch(0.3) and not any(m.get("nm") == "call" for m in ms):
                ms[-1]["nm"] = "call"
        e = self.ev("def", cls=cls, ms=ms, loc=self.ch(0.25))
        if cls and self.ch(0.3):
            e["cs"] = r.choice(["slots", "abc", "gen"])
        for m in ms:
            self.fns.append({"m": m, "cls": cls})
        return [len(self.fns) - len(ms) + j + 1 for j in range(len(ms))]

    def gcall(self, f, th=1, fit=None, weird=0.0):
        """ Emit the call event only. """
        r = self.r
        m = self.fns[f - 1]["m"]
        fit = (not self.ch(self.p["bad"])) if fit is None else fit
        if self.ch(0.7):
            self.newasg()
        ps = m["ps"]
        k = -1 if fit or not ps else r.randrange(len(ps))
        pos, kw = [], []
        usekw = False
        for j, p in enumerate(ps):
            if p["df"] and self.ch(0.5):
                usekw = True
                continue
            v = self.aval(p["an"][0], j != k) if p["an"] else self.any_value()
            if p["k"] == "ko" or (p["k"] == "pk" and (usekw or self.ch(0.3))):
                kw.append({"n": p["n"], "v": v})
                usekw = True
            elif usekw:
                if p["df"]:
                    continue
                kw.append({"n": p["n"], "v": v})
            else:
                pos.append(v)
        r.shuffle(kw)
        if self.ch(weird):
            w = r.randint(0, 4)
            if w == 0:
                pos.append(self.any_value())
            elif w == 1:
                kw.append({"n": "nope", "v": self.any_value()})
            elif w == 2 and pos:
                pos.pop()
            elif w == 3 and kw:
                kw.pop()
            elif w == 4 and ps and pos and ps[0]["n"] not in [x["n"] for x in kw]:
                kw.append({"n": ps[0]["n"], "v": self.any_value()})
        e = self.ev("call", f=f, th=th, pos=pos, kw=kw)
        if self.fns[f - 1]["cls"]:
            e["via"] = r.choice(["inst", "inst", "sub", "cls"])
        return e

    def gend(self, f, th=1, fit=None, call=None):
        r = self.r
        m = self.fns[f - 1]["m"]
        if self.ch(self.p.get("raises", 0.12)):
            self.ev("raise", th=th, exc=r.choice(EXCS))
            return
        fit = (not self.ch(self.p["bad"])) if fit is None else fit
        if call and self.ch(0.2) and call["pos"]:
            names = [p["n"] for p in m["ps"] if p["k"] != "ko"]
            j = r.randrange(len(call["pos"]))
            if j < len(names):
                self.ev("ret", th=th, v=call["pos"][j], arg=names[j])
                return
        v = self.aval(m["ret"][0], fit) if m["ret"] else self.any_value()
        self.ev("ret", th=th, v=v)

    def setdim(self, th=1, bad=0.0):
        i = self.di()
        if self.ch(bad):
            self.ev("setdim", th=th, i=i, v=0, bad=True,
                    kind=self.r.choice(BAD_DIMS))
            return
        v = self.r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 12])
        if self.ch(0.06):
            v = self.r.choice([-2, -3])
        if self.mag == "size" and self.ch(0.4):
            v = self.r.choice(LARGE)
        if self.p.get("anyint") and self.ch(0.3):
            v = self.r.choice([-1, -2, -7, 2 ** 31 - 1, 10 ** 6])
        self.dims[i] = v
        self.ev("setdim", th=th, i=i, v=v, bad=False)

    def setshape(self, th=1, bad=0.0):
        r = self.r
        j = self.si()
        if self.ch(bad):
            self.ev("setshape", th=th, i=j, v=[], bad=True,
                    kind=r.choice(BAD_SHAPES))
            return
        v = [r.choice([-5, 10 ** 6]) if self.p.get("anyint") and self.ch(0.2) else r.choice([0, 1, 2, 2, 3, 4, -1]) if self.ch(0.9) else 7 for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
        self.shapes[j] = tuple(v)
        self.ev("setshape", th=th, i=j, v=v, bad=False)

    def isinst(self, h, th=1, fit=None):
        self.newasg()
        fit = (not self.ch(self.p["bad"])) if fit is None else fit
        if h == 0:
            b = self.r.choice(self.p["backend"])
            hh = {"b": b, "dt": None, "ds": None, "at": []}
            self.ev("isinst", th=th, h={"b": b, "h": 0}, v=self.hval(hh, fit))
        else:
            self.ev("isinst", th=th, h={"b": "", "h": h}, v=self.hval(self.hints[h - 1], fit))

    def cat(self):
        self.ev("cat", i=self.r.choice([1, 2, 3]), left=self.ch(0.5),
                o=self.r.choice(["int", "list", "str", "none", "floats", "strs", "nested", "dim", "ell", "dict"]))

    def eq(self, x, y):
        if self.ch(0.25):
            self.ev("key", x={"b": "", "h": x} if x else {"b": self.p["backend"][0], "h": 0},
                    y={"b": "", "h": y} if y else {"b": self.p["backend"][0], "h": 0})
            return
        self.ev("eq", x={"b": "", "h": x} if x else {"b": self.p["backend"][0], "h": 0},
                y={"b": "", "h": y} if y else {"b": self.p["backend"][0], "h": 0})


# ------------------------------------------------------------------- plans
def kept(v, k):
    """ The value, made of objects which are used (and changed in place) all through the history. """
    v = dict(v, keep=k)
    if v["t"] in "LD":
        v["es"] = [kept(e, f"{k}{v['t']}{j}") for j, e in enumerate(v["es"])]
    return v


def keep(g):
    """ Now and then the values of a history are a few objects which change between their uses. """
    if not g.ch(g.p.get("keep", 0.2)):
        return g.plan()
    done = {}
    def one(v, k):
        return done.setdefault(id(v), kept(v, k))
    for e in g.evs:
        if e["op"] == "isinst":
            e["v"] = one(e["v"], "i")
        elif e["op"] == "call":
            e["pos"] = [one(v, f"p{j}") for j, v in enumerate(e["pos"])]
            for x in e["kw"]:
                x["v"] = one(x["v"], "k" + x["n"])
        elif e["op"] == "ret":
            e["v"] = one(e["v"], "r")
    return g.plan()


def p_isinst(g):
    """ Hints and isinstance checks. """
    for _ in range(g.r.randint(1, 3)):
        h = g.mk()
        for _ in range(g.r.randint(2, 5)):
            g.isinst(h)
    if g.ch(0.1):
        g.isinst(0)
    return keep(g)


def body(g, th, depth, call, f, inner):
    """ What happens inside a call, up to its end. """
    for _ in range(g.r.choice(inner)):
        step(g, th, depth)
    g.gend(f, th, call=call)


def step(g, th=1, depth=0):
    r = g.r
    w = g.p.get("steps", {"call": 6, "isinst": 2, "setdim": 1, "setshape": 1, "mk": 1, "eq": 1, "def": 1, "getdim": 0.3})
    op = r.choices(list(w), list(w.values()))[0]
    if op == "call" and not g.fns:
        op = "def"
    if op == "call":
        f = r.randint(1, len(g.fns))
        c = g.gcall(f, th, weird=g.p.get("weird", 0.0))
        body(g, th, depth + 1, c, f, [0] if depth >= g.p.get("nest", 2) else [0, 0, 1, 2] if g.mag != "tower" else [1] * 19 + [0])
    elif op == "isinst":
        g.isinst(g.hsome() if g.ch(0.9) else 0, th)
        g.evs[-1]["th"] = th
    elif op == "setdim":
        g.setdim(th, g.p.get("badset", 0.0))
    elif op == "setshape":
        g.setshape(th, g.p.get("badset", 0.0))
    elif op == "getdim":
        if g.ch(0.2):
            n = r.choice("xds")
            g.ev("getsym", th=th, n=n, i=g.di() if n == "d" else r.randint(1, 4) if n == "x" else g.si())
        elif g.ch(0.5):
            g.ev("getdim", th=th, i=g.di())
        else:
            g.ev("getshape", th=th, i=g.si())
    elif op == "mk":
        g.mk(base=r.randint(1, len(g.hints)) if g.hints and g.ch(0.5) else None)
    elif op == "eq" and g.hints:
        g.eq(r.randint(0, len(g.hints)), r.randint(0, len(g.hints)))
    elif op == "def":
        g.gdef(cls=g.ch(g.p.get("clsdef", 0.0)), unann=g.p.get("unann", 0.0), defaults=g.p.get("defaults", 0.2))
    elif op == "env":
        g.ev("env", v=r.choice(["unset", "0", "1", "1", "", "yes", "true", "no", " 1", "1 ", "01", "11", "on", "True"]))
    for e in g.evs:
        e.setdefault("th", th)


def p_calls(g):
    """ One or two functions, called a few times. """
    for _ in range(g.r.choice([1, 1, 2])):
        if g.p["dim"] and g.ch(0.5):
            g.setdim()
        if g.p["shp"] and g.ch(0.5):
            g.setshape()
        g.gdef(cls=g.ch(g.p.get("clsdef", 0.0)), unann=g.p.get("unann", 0.0), defaults=g.p.get("defaults", 0.2))
    for _ in range(g.r.randint(2, 5)):
        if g.p["dim"] and g.ch(0.5):
            g.setdim()
        if g.p["shp"] and g.ch(0.5):
            g.setshape()
        f = g.r.randint(1, len(g.fns))
        c = g.gcall(f, weird=g.p.get("weird", 0.0))
        if g.p["dim"] and g.ch(0.2):
            g.setdim()
        if g.p["shp"] and g.ch(0.2):
            g.setshape()
        g.gend(f, call=c)
    return keep(g)


def p_history(g):
    for _ in range(g.r.choice([1, 2])):
        g.gdef(cls=g.ch(g.p.get("clsdef", 0.0)), unann=g.p.get("unann", 0.0), defaults=g.p.get("defaults", 0.2))
    for _ in range(g.r.randint(4, 10)):
        step(g)
    return g.plan()


def p_threads(g):
    """ Threads whose calls overlap: per-thread scripts merged at random. """
    n = g.r.choice([2, 2, 3])
    for _ in range(g.r.choice([1, 2, 3])):
        g.gdef(unann=0.0, defaults=0.2)
    pre = g.evs
    scripts = []
    for th in range(1, n + 1):
        g.evs = []
        for _ in range(g.r.randint(2, 4)):
            f = g.r.randint(1, len(g.fns))
            c = g.gcall(f, th)
            if g.ch(0.4):
                f2 = g.r.randint(1, len(g.fns))
                c2 = g.gcall(f2, th)
                g.gend(f2, th, call=c2)
            if g.ch(0.2):
                g.setdim(th)
            g.gend(f, th, call=c)
        for e in g.evs:
            e["th"] = th
        scripts.append(g.evs)
    for e in pre:
        e.setdefault("th", 1)
    g.evs = pre
    while any(scripts):
        s = g.r.choice([s for s in scripts if s])
        g.evs.append(s.pop(0))
    return g.plan()


def p_agree(g):
    """ isinstance and decorated functions on the same hints and values. """
    base = None
    for _ in range(g.r.randint(1, 2)):
        h = g.mk()
        while g.ch(0.3):
            h = g.mk(base=h)
        hh = g.hints[h - 1]
        a = {"t": "h", "h": h}
        g.ev("def", cls=False, ms=[{"kind": "func", "ps": [{"n": "x", "k": "pk", "an": [a], "df": []}], "ret": [],
                                    "dec": True}])
        g.fns.append({"m": g.evs[-1]["ms"][0], "cls": False})
        g.ev("def", cls=False, ms=[{"kind": "func", "ps": [], "ret": [a], "dec": True}])
        g.fns.append({"m": g.evs[-1]["ms"][0], "cls": False})
        f = len(g.fns)
        for _ in range(g.r.randint(2, 4)):
            g.newasg()
            v = g.hval(hh, not g.ch(g.p["bad"]))
            g.ev("isinst", h={"b": "", "h": h}, v=v)
            g.ev("call", f=f - 1, th=1, pos=[v] if g.ch(0.7) else [], kw=[])
            if not g.evs[-1]["pos"]:
                g.evs[-1]["kw"] = [{"n": "x", "v": v}]
            g.ev("ret", th=1, v=v)
            g.ev("call", f=f, th=1, pos=[], kw=[])
            g.ev("ret", th=1, v=v)
    for e in g.evs:
        e.setdefault("th", 1)
    return keep(g)


def p_concat(g):
    """ Concatenations made of one another; each keeps its meaning. """
    r = g.r
    T = lambda: {"t": "T", "ds": [g.leaf(False) for _ in range(r.choice([0, 1, 1, 2]))]}
    S = lambda: {"t": "S", "s": r.choice([1, 2, 3])}
    pool = []
    hs = []
    b = r.choice(g.p["backend"])
    for _ in range(r.randint(2, 5)):
        old = r.choice(pool) if pool and g.ch(0.75) else None
        x = old or S()
        y = r.choice([T, T, S, lambda: r.choice(pool) if pool else S()])()
        ps = [x, y] if g.ch(0.5) else [y, x]
        if g.ch(0.3):
            ps.insert(r.randint(0, 2), T())
        if sum(p["t"] == "T" for p in ps[:2]) == 2:
            ps = [x, y]
        g.ids += 1
        c = {"t": "C", "ps": ps, "rt": False, "id": g.ids}
        pool.append(c)
        for d in [c] + ([r.choice(pool)] if g.ch(0.5) else []):
            ds = [d]
            if g.ch(0.3):
                ds.insert(r.randint(0, 1), r.choice([I(g.size()), S(), {"t": "w"}]))
            hs.append(g.mk({"dt": [], "form": "l", "ds": ds, "at": [], "late": False, "bare": g.ch(0.5)}))
    r.shuffle(hs)
    for h in hs[:4]:
        a = {"t": "h", "h": h}
        m = {"kind": "func", "ps": [{"n": "x", "k": "pk", "an": [a], "df": []}], "ret": [], "dec": True}
        g.ev("def", cls=False, ms=[m])
        g.fns.append({"m": m, "cls": False})
    for j in (1, 2, 3):
        if g.ch(0.92):
            v = [r.randint(1, 4) for _ in range(r.choice([0, 1, 1, 2]))]
            g.shapes[j] = tuple(v)
            g.ev("setshape", i=j, v=v, bad=False)
    for i in (1, 2, 6):
        if g.p["dim"] and g.ch(0.9):
            g.setdim()
    for _ in range(2):
        for f in range(1, len(g.fns) + 1):
            c = g.gcall(f, fit=g.ch(0.7))
            g.gend(f, call=c)
        if g.ch(0.5):
            g.setshape()
    return g.plan()


def p_refine(g):
    """ Aliases refined in several steps; nothing made earlier changes. """
    r = g.r
    b = r.choice(g.p["backend"])
    g.p["backend"] = b
    probes = []
    for _ in range(r.randint(1, 2)):
        parts = [("dt", dict(want_dt=True, want_ds=False, want_at=False)),
                 ("ds", dict(want_dt=False, want_ds=True, want_at=False)),
                 ("at", dict(want_dt=False, want_ds=False, want_at=True))]
        r.shuffle(parts)
        parts = parts[:r.randint(1, 3)]
        if g.ch(0.3):
            parts.append(r.choice(parts))
        h = None
        items = []
        for _, kw in parts:
            it = g.gitem(b, **kw)
            items.append(it)
            h = g.mk(it, base=h)
            probes.append(h)
        # the same in one step, when each part is given once
        if len({n for n, _ in parts}) == len(parts):
            one = {"dt": [], "form": "l", "ds": [], "at": [], "late": False, "bare": False}
            fine = True
            for it in items:
                if it["dt"]:
                    one["dt"] = it["dt"]
                if it["at"]:
                    one["at"] = it["at"]
                if it["ds"] or it["form"] == "t":
                    one["ds"], one["form"] = it["ds"], it["form"]
                fine = fine and not it["late"] and not it.get("ts")
            if one["form"] == "t" and any(d["t"] == "u" for d in one["ds"]):
                fine = False
            if fine:
                k = g.mk(one)
                probes.append(k)
                g.eq(h, k)
        # siblings
        if g.ch(0.5):
            probes.append(g.mk(base=r.choice(probes)))
        for _ in range(r.randint(2, 5)):
            v = g.hval(g.hints[r.choice(probes) - 1], not g.ch(g.p["bad"]))
            for k in r.sample(probes, min(3, len(probes))):
                g.ev("isinst", h={"b": "", "h": k}, v=v)
            if g.ch(0.3):
                g.ev("isinst", h={"b": b, "h": 0}, v=v)
    for _ in range(r.randint(0, 2)):
        g.isinst(r.choice(probes))
    for e in g.evs:
        e.setdefault("th", 1)
    return g.plan()


def respell(g, it, b):
    """ Another spelling of the same hint. """
    it = {k: v for k, v in it.items()}
    it["bare"] = g.ch(0.5)
    if it["late"]:
        return it
    if it["at"]:
        it["at"] = [g.r.sample(it["at"][0], len(it["at"][0]))]
        it["at"] = [[{**a, "sp": g.r.choice(["int", "float", "np"])} if a["t"] == "i" else a for a in it["at"][0]]]
    ds = it["ds"]
    if it["form"] == "l" and len(ds) == 1 and ds[0]["t"] in "uT" and not ds[0].get("ds"):
        it["ds"] = [g.r.choice([{"t": "u"}, {"t": "T", "ds": []}])]
        if g.ch(0.3):
            it["ds"], it["form"] = [], "t"
    elif ds and all(d["t"] in "iwenx" for d in ds):
        it["form"] = g.r.choice("lt")
        it.pop("ts", None)
    if it["dt"] and it["dt"][0]["t"] == "py" and g.ch(0.5):
        n = it["dt"][0]["n"]
        if b == "A" and n in ("int", "float", "complex", "bool"):
            it["dt"] = [{"t": "np", "n": PY_A[n][0], "sp": g.r.choice(["dtype", "type"])}]
        elif b != "A":
            it["dt"] = [{"t": "np", "n": (PY_T if b == "T" else PY_P)[n]}]
    return it


def p_equal(g):
    """ Equality and hashing of hints. """
    r = g.r
    hs = [0]
    for _ in range(r.randint(2, 4)):
        b = r.choice(g.p["backend"])
        it = g.gitem(b)
        keep, g.p["backend"] = g.p["backend"], b
        hs.append(g.mk(it))
        if g.ch(0.5):
            hs.append(g.mk(respell(g, it, b)))
        if g.ch(0.4):
            it2 = {**it, "at": [] if it["at"] else [g.gattrs(b)]}
            if it2["ds"] or it2["dt"] or it2["at"] or it2["form"] == "t":
                hs.append(g.mk(it2))
        if g.ch(0.3) and it["ds"] and (it["dt"] or it["at"]):
            it3 = {**it, "ds": [], "form": "l"}
            it3.pop("ts", None)
            hs.append(g.mk(it3))
        g.p["backend"] = keep
        if g.ch(0.4):
            hs.append(g.mk(base=r.choice([h for h in hs if h])))
        for _ in range(r.randint(1, 4)):
            g.eq(r.choice(hs), r.choice(hs))
    for _ in range(r.randint(2, 6)):
        g.eq(r.choice(hs), r.choice(hs))
    if g.ch(0.3):
        g.ev("eqx", x={"b": "", "h": r.choice([h for h in hs if h])},
             o=r.choice(["int", "none", "str", "array", "dtype", "type", "tuple", "ndarray"]))
    for _ in range(r.randint(0, 2)):
        x, y = r.choice(hs), r.choice(hs)
        if x and y:
            v = g.hval(g.hints[x - 1], True)
            g.ev("isinst", h={"b": "", "h": x}, v=v)
            g.ev("isinst", h={"b": "", "h": y}, v=v)
    for e in g.evs:
        e.setdefault("th", 1)
    return g.plan()


def p_malformed(g):
    """ Subscripts which must be refused, among well-formed ones. """
    base = None
    for _ in range(g.r.randint(2, 5)):
        h = g.mk(base=base)
        g.isinst(h)
        base = g.r.choice([None, h])
        if g.ch(0.2):
            g.cat()
        if g.ch(0.3):
            g.ev("new", h={"b": "", "h": h} if g.ch(0.7) else {"b": g.p["backend"][0], "h": 0}, n=g.r.randint(0, 2))
    for e in g.evs:
        e.setdefault("th", 1)
    return g.plan()


def p_scalar(g):
    """ Scalar, as a class, as an annotation and as a shape. """
    r = g.r
    a = {"t": "c", "c": "Scalar"}
    kind = r.choice(["plain", "list", "union"])
    h = g.mk({"dt": [], "form": "l", "ds": [r.choice([{"t": "u"}, {"t": "T", "ds": []}])], "at": [], "late": False, "bare": g.ch(0.5)})
    an = {"plain": a, "list": {"t": "L", "a": a, "sp": ""}, "union": {"t": "U", "as": [{"t": "h", "h": h}, a], "sp": ""}}[kind]
    g.ev("def", cls=False, ms=[{"kind": "func", "ps": [{"n": "x", "k": "pk", "an": [an], "df": []}], "ret": [a] if g.ch(0.5) else [],
                                "dec": True}])
    g.fns.append({"m": g.evs[-1]["ms"][0], "cls": False})
    for _ in range(r.randint(4, 8)):
        v = g.scalar(g.ch(0.5))
        g.ev("scalar", v=v)
        g.ev("isinst", h={"b": "", "h": h}, v=v)
        w = g.scalar(g.ch(0.7))
        if g.ch(0.5):
            g.ev("call", f=1, th=1, pos=[{"t": "L", "es": [v, w][:r.randint(1, 2)]} if kind == "list" else v], kw=[])
            g.ev("ret", th=1, v=w)
    return g.plan()


def p_stores(g):
    g.p["steps"] = {"setdim": 3, "setshape": 3, "getdim": 5, "isinst": 0.3}
    g.p["anyint"] = True
    for _ in range(g.r.randint(5, 12)):
        step(g)
    return g.plan()


CFG_PLACES = ["cwd/astarc", "cwd/.astarc", "cwd/pyproject.toml", "cwd/setup.cfg", "p1/astarc", "p1/.astarc", "p2/astarc",
              "p2/.astarc", "p3/astarc", "p3/.astarc", "env", "home/.astarc", "home/.config/astarc", "etc"]
CFG_OPTIONS = ["on", "raise-errors", "print-passes", "check-non-asta-types", "check-all-sequence-elements"]


def config_plan(r, prof):
    """ Configuration files written, changed and removed between boots (Config.tla). """
    evs, here, named = [], set(), False

    def write(p):
        nonlocal named
        x = r.random()
        if x < 0.15 and p in ("cwd/pyproject.toml", "cwd/setup.cfg"):
            c = {"k": "unrelated"}
        elif x < 0.1 and "." not in p.split("/")[-1][1:]:
            c = {"k": "empty"}
        elif x > 0.9 and p != "env":
            c = {"k": r.choice(["dir", "dir", "dangling"])}
        else:
            opts = [o for o in CFG_OPTIONS if r.random() < prof.get("opt", 0.6)]
            r.shuffle(opts)
            c = {"k": "master", "s": [{"o": o, "v": r.random() < (0.8 if o == "on" else 0.5)} for o in opts]}
            if r.random() < 0.4:
                # (Sorted by name, as they are observed.)
                c["x"] = [{"o": o, "v": r.choice(["yes", "no", "maybe", "7"])}
                          for o in sorted(r.sample(["alpha", "beta-gamma", "delta"], r.randint(1, 3)))]
            if r.random() < 0.4:
                c["look"] = r.sample(["bom", "upper", "space", "before", "after", "comment", "link"], r.randint(1, 3))
        if p == "env":
            named = True
            if c["k"] == "master":
                c["fmt"] = r.choice(["rc", "rc", "toml", "cfg"])
        here.add(p)
        evs.append({"op": "write", "p": p, "c": c})

    for p in r.sample(CFG_PLACES, r.randint(0, prof.get("files", 5))):
        write(p)
    evs.append({"op": "inits", "n": r.randint(0, 3)})
    for _ in range(prof.get("boots", 3)):
        for _ in range(r.randint(0, 2)):
            x = r.random()
            if x < 0.5 or not here:
                write(r.choice(CFG_PLACES))
            elif x < 0.8:
                p = r.choice(sorted(here))
                if p == "env":
                    continue
                here.discard(p)
                evs.append({"op": "write", "p": p, "c": {"k": "none"}})
            else:
                evs.append({"op": "inits", "n": r.randint(0, 3)})
        evs.append({"op": "astarc", "v": r.choice(["unset", "missing"] + ["file"] * (2 if named else 0))})
        evs.append({"op": "boot", "env": r.choice(["unset", "unset", "unset", "1", "0", "", "yes", " 1", "01"])})
    return evs


def p_config(g):
    return {"cfg": {}, "nsh": 0, "evs": config_plan(g.r, g.p)}


PLANS = {k[2:]: v for k, v in globals().items() if k.startswith("p_")}


def plans(kind, n, seed, cfg, prof):
    rng = random.Random(f"{seed}/{kind}/{sorted(cfg.items())}/{sorted((k, str(v)) for k, v in prof.items())}")
    for _ in range(n):
        g = Gen(rng, cfg, dict(prof))
        p = PLANS[kind](g)
        for e in p["evs"]:
            e.setdefault("th", 1)
        yield p
