------------------------------- MODULE GenLib -------------------------------
(***************************************************************************)
(* Building blocks for the exhaustive enumeration of client behaviours     *)
(* (plans: sequences of events of Asta, without their observations).       *)
(* Everything is a sequence, so the order of the plans is fixed.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Cat(ss) == FlattenSeq(ss)
Map(Op(_), s) == [j \in 1..Len(s) |-> Op(s[j])]
Cross(s, t) == [k \in 1..(Len(s) * Len(t)) |-> <<s[((k - 1) \div Len(t)) + 1], t[((k - 1) % Len(t)) + 1]>>]
\* all sequences of exactly / at most n members of alphabet a (a sequence)
RECURSIVE Exactly(_, _)
Exactly(a, n) == IF n = 0 THEN <<<<>>>>
                 ELSE LET rest == Exactly(a, n - 1)
                      IN [k \in 1..(Len(a) * Len(rest)) |->
                            <<a[((k - 1) \div Len(rest)) + 1]>> \o rest[((k - 1) % Len(rest)) + 1]]
UpTo(a, n) == Cat([k \in 1..(n + 1) |-> Exactly(a, k - 1)])
Keep(s, Test(_)) == SelectSeq(s, Test)
\* all ways of merging two sequences
RECURSIVE Merges(_, _)
Merges(s, t) == IF s = <<>> THEN <<t>> ELSE IF t = <<>> THEN <<s>>
                ELSE [k \in 1..Len(Merges(Tail(s), t)) |-> <<Head(s)>> \o Merges(Tail(s), t)[k]]
                     \o [k \in 1..Len(Merges(s, Tail(t))) |-> <<Head(t)>> \o Merges(s, Tail(t))[k]]
\* every n-th of a sequence, from the k-th on
Sieve(s, n, k) == [j \in 1..((Len(s) + n - k) \div n) |-> s[(j - 1) * n + k]]

(***************************** Dimensions **********************************)
I(n) == [t |-> "i", v |-> n]
W == [t |-> "w"]
Ell == [t |-> "e"]
NoneDim == [t |-> "n"]
Unit == [t |-> "u"]
Bad(k) == [t |-> "b", k |-> k]
Sv(j) == [t |-> "S", s |-> j]
Tup(ds) == [t |-> "T", ds |-> ds]
Con(ps) == [t |-> "C", ps |-> ps, rt |-> FALSE]
Expr(den, fl, ts) == [t |-> "x", den |-> den, fl |-> fl, ts |-> ts]
\* monomials over <<d1, d2, X, Y, Z>>
D1 == <<1, 0, 0, 0, 0>>
D2 == <<0, 1, 0, 0, 0>>
X1 == <<0, 0, 1, 0, 0>>
Y1 == <<0, 0, 0, 1, 0>>
Z1 == <<0, 0, 0, 0, 1>>
XY1 == <<0, 0, 1, 1, 0>>
XX1 == <<0, 0, 2, 0, 0>>
One == <<0, 0, 0, 0, 0>>
X == Expr(1, FALSE, << <<1, X1>> >>)
Y == Expr(1, FALSE, << <<1, Y1>> >>)
Z == Expr(1, FALSE, << <<1, Z1>> >>)
XplusN(n) == Expr(1, FALSE, << <<1, X1>>, <<n, One>> >>)
XtimesN(n) == Expr(1, FALSE, << <<n, X1>> >>)
XplusY == Expr(1, FALSE, << <<1, X1>>, <<1, Y1>> >>)
XminusY == Expr(1, FALSE, << <<1, X1>>, <<-1, Y1>> >>)
XtimesY == Expr(1, FALSE, << <<1, XY1>> >>)
Xsquare == Expr(1, FALSE, << <<1, XX1>> >>)
Xhalf == Expr(2, FALSE, << <<1, X1>> >>)
DimV(i) == Expr(1, FALSE, << <<1, IF i = 1 THEN D1 ELSE D2>> >>)
DimPlus(i, n) == Expr(1, FALSE, << <<1, IF i = 1 THEN D1 ELSE D2>>, <<n, One>> >>)
DimHalf(i) == Expr(2, FALSE, << <<1, IF i = 1 THEN D1 ELSE D2>> >>)
DimFloor(i) == Expr(2, TRUE, << <<1, IF i = 1 THEN D1 ELSE D2>> >>)
DimSum == Expr(1, FALSE, << <<1, D1>>, <<1, D2>> >>)
DimSym(i) == Expr(1, FALSE, << <<1, IF i = 1 THEN D1 ELSE D2>>, <<1, X1>> >>)

(***************************** Hints ***************************************)
Item(dt, form, ds, at, late) == [dt |-> dt, form |-> form, ds |-> ds, at |-> at, late |-> late, bare |-> TRUE]
\* dimensions listed, or as one tuple when there are none
Dims(ds) == Item(<<>>, IF ds = <<>> THEN "t" ELSE "l", ds, <<>>, FALSE)
DtDims(dt, ds) == Item(<<dt>>, IF ds = <<>> THEN "t" ELSE "l", ds, <<>>, FALSE)
Np(n) == [t |-> "np", n |-> n]
Py(n) == [t |-> "py", n |-> n]
Mk(b, it) == [op |-> "mk", from |-> [b |-> b, h |-> 0], it |-> it]
Refine(h, it) == [op |-> "mk", from |-> [b |-> "", h |-> h], it |-> it]
H(h) == [b |-> "", h |-> h]
Root(b) == [b |-> b, h |-> 0]

(***************************** Values **************************************)
\* numpy dtypes: <<name, kind, item size>>
NpTypes == << <<"<f8", "f", 8>>, <<"<f4", "f", 4>>, <<"<f2", "f", 2>>, <<"<i8", "i", 8>>, <<"<i4", "i", 4>>,
   <<"<i2", "i", 2>>, <<"|i1", "i", 1>>, <<"<u8", "u", 8>>, <<"<u4", "u", 4>>, <<"<u2", "u", 2>>, <<"|u1", "u", 1>>,
   <<"|b1", "b", 1>>, <<"<c16", "c", 16>>, <<"<c8", "c", 8>>, <<">f8", "f", 8>>, <<">i8", "i", 8>>, <<">i4", "i", 4>>,
   <<"<U1", "U", 4>>, <<"<U7", "U", 28>>, <<">U3", "U", 12>>, <<"|S1", "S", 1>>, <<"|S5", "S", 5>>, <<"|O", "O", 8>>,
   <<"<M8", "M", 8>>, <<"<M8[D]", "M", 8>>, <<"<M8[ns]", "M", 8>>, <<"<m8", "m", 8>>, <<"<m8[s]", "m", 8>>,
   <<"<m8[D]", "m", 8>>, <<"<f16", "f", 16>>, <<"<c32", "c", 32>> >>
TfTypes == <<"float16", "float32", "float64", "bfloat16", "int8", "int16", "int32", "int64", "uint8", "uint16",
             "uint32", "uint64", "bool", "complex64", "complex128", "string">>
NpArr(d, sh) == [t |-> "a", b |-> "A", n |-> d[1], k |-> d[2], z |-> d[3], sh |-> sh, tag |-> <<>>]
Arr(sh) == NpArr(<<"<f8", "f", 8>>, sh)
Ten(sh) == [t |-> "a", b |-> "T", n |-> "float32", k |-> "", z |-> 0, sh |-> sh, tag |-> <<>>]
TfArr(n, sh) == [t |-> "a", b |-> "T", n |-> n, k |-> "", z |-> 0, sh |-> sh, tag |-> <<>>]
TorchTypes == <<"float16", "float32", "float64", "bfloat16", "int8", "int16", "int32", "int64", "uint8", "bool",
                "complex64", "complex128">>
PtArr(n, sh) == [t |-> "a", b |-> "P", n |-> n, k |-> "", z |-> 0, sh |-> sh, tag |-> <<>>]
\* the same array as an instance of a class derived from that of arrays
Derived(v) == v @@ [lay |-> "sub"]
Val(b, sh) == IF b = "A" THEN Arr(sh) ELSE IF b = "T" THEN Ten(sh) ELSE PtArr("float32", sh)
Obj(c, x) == [t |-> "o", c |-> c, v |-> x]
IntObj(n) == Obj("int", ToString(n))
StrObj(s) == Obj("str", s)
NoneObj == Obj("none", "None")

(***************************** Events **************************************)
IsInst(h, v) == [op |-> "isinst", h |-> h, v |-> v]
Param(n, k, an, df) == [n |-> n, k |-> k, an |-> an, df |-> df]
AnnH(h) == [t |-> "h", h |-> h]
Member(kind, ps, ret) == [kind |-> kind, ps |-> ps, ret |-> ret, dec |-> TRUE]
DefF(ps, ret) == [op |-> "def", cls |-> FALSE, ms |-> <<Member("func", ps, ret)>>]
Call(f, th, pos, kw) == [op |-> "call", f |-> f, th |-> th, pos |-> pos, kw |-> kw]
Ret(th, v) == [op |-> "ret", th |-> th, v |-> v]
Raise(th) == [op |-> "raise", th |-> th]
SetDim(i, v) == [op |-> "setdim", i |-> i, v |-> v, bad |-> FALSE]
BadDim(i, k) == [op |-> "setdim", i |-> i, v |-> 0, bad |-> TRUE, kind |-> k]
GetDim(i) == [op |-> "getdim", i |-> i]
SetShape(i, v) == [op |-> "setshape", i |-> i, v |-> v, bad |-> FALSE]
BadShape(i, k) == [op |-> "setshape", i |-> i, v |-> <<>>, bad |-> TRUE, kind |-> k]
GetShape(i) == [op |-> "getshape", i |-> i]
GetSym(n, i) == [op |-> "getsym", n |-> n, i |-> i]
Eq(x, y) == [op |-> "eq", x |-> x, y |-> y]
Key(x, y) == [op |-> "key", x |-> x, y |-> y]
SetEnv(v) == [op |-> "env", v |-> v]

Plan(evs) == [evs |-> evs]
\* Several short behaviours which cannot influence each other are no plan of
\* their own: plans are cut from a sequence of events, each after its preamble.
Write(plans) == ndJsonSerialize(IOEnv.DEST, plans)
=============================================================================
