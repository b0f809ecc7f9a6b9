------------------------------- MODULE GenHints -----------------------------
(***************************************************************************)
(* Hints: how they are written, refined, compared and used.                *)
(*   refine     every sequence of up to N subscripts, each hint on the way *)
(*              checked before and after                                   *)
(*   equal      every pair of hints of a pool, compared and used as keys   *)
(*   dtypes     every pair of dtype parts, compared and used as keys       *)
(*   malformed  every list of up to N parts, legal or not                  *)
(*   attrs      every dictionary of up to two attributes with every shape  *)
(*   agree      every hint of a pool, with isinstance and as parameter,    *)
(*              default, element and result                                *)
(* (The kinds are operators because TLC evaluates all constants.)          *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Kind, N, Every, Backend
Typ(d) == Item(<<d>>, "l", <<>>, <<>>, FALSE)
AtI(a, n) == [a |-> a, t |-> "i", v |-> n]
AtX(a, x) == [a |-> a, t |-> "x", den |-> x.den, ts |-> x.ts]
AtS(a, v) == [a |-> a, t |-> "s", v |-> v]
Att(at) == Item(<<>>, "l", <<>>, <<at>>, FALSE)
Arrs(ns, shs) == Map(LAMBDA c : IF Backend = "A" THEN NpArr(c[1], c[2]) ELSE IF Backend = "T" THEN TfArr(c[1], c[2]) ELSE PtArr(c[1], c[2]), Cross(ns, shs))
Dts == IF Backend = "A" THEN << <<"<f8", "f", 8>>, <<"<i8", "i", 8>>, <<"<U3", "U", 12>>, <<"<f4", "f", 4>> >>
       ELSE <<"float32", "int32", "float64">>
PartsDt == IF Backend = "A" THEN <<Py("float"), Py("str"), Np("<f4"), Np("<f8")>> ELSE <<Py("float"), Py("int"), Np("float64"), Np("float32")>>
Chunks(s, n) == [k \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (k - 1) * n + 1, IF k * n < Len(s) THEN k * n ELSE Len(s))]
Upto(n) == [j \in 1..n |-> j]

(* refine *)
Parts == Map(Typ, SubSeq(PartsDt, 1, 3)) \o <<Dims(<<>>), Dims(<<I(2)>>), Dims(<<X, X>>), Dims(<<Ell, I(3)>>), Dims(<<Unit>>),
         Att(<<AtI("ndim", 2)>>), Att(<<AtX("ndim", X)>>), DtDims(PartsDt[1], <<I(2)>>), DtDims(PartsDt[3], <<>>)>>
RVals == Arrs(SubSeq(Dts, 1, 3), << <<>>, <<2>>, <<2, 2>>, <<2, 3>> >>)
Chain(s) == Plan(Cat([j \in 1..Len(s) |-> (IF j = 1 THEN <<Mk(Backend, s[1])>> ELSE <<Refine(j - 1, s[j])>>)
                                          \o Map(LAMBDA v : IsInst(H(j), v), Sieve(RVals, 3, 1 + (j % 3)))])
                 \o Cat(Map(LAMBDA j : Map(LAMBDA v : IsInst(H(j), v), RVals), Upto(Len(s))))
                 \o <<IsInst(Root(Backend), RVals[1])>>)
Chains(n) == Map(Chain, Sieve(UpTo(Parts, N), Every, 2))

(* equal *)
Full(c) == Item(c[1][1], IF c[1][2] = <<>> THEN "t" ELSE "l", c[1][2], c[2], FALSE)
Dss == << <<>>, <<I(2)>>, <<I(2), I(3)>>, <<I(3), I(2)>>, <<W>>, <<Ell>>, <<X>>, <<Y>>, <<XplusN(1)>>, <<XtimesN(2)>>, <<NoneDim>>, <<DimV(1)>>, <<Sv(1)>>,
          <<Sv(2)>>, <<I(2), Sv(1)>>, <<Tup(<<I(2)>>)>> >>
Ats == << <<>>, << <<AtI("ndim", 2)>> >>, << <<AtI("ndim", 3)>> >>, << <<AtI("ndim", 2), AtI("size", 4)>> >>, << <<AtI("size", 4), AtI("ndim", 2)>> >>,
          << <<AtX("ndim", X)>> >>, << <<AtI("size", 2)>> >> >>
Pool == Map(Full, Cross(Map(LAMBDA d : << <<>>, d>>, Dss), <<Ats[1]>>)) \o Map(Full, Cross(Map(LAMBDA d : << <<PartsDt[1]>>, d>>, SubSeq(Dss, 1, 8)), <<Ats[1]>>))
        \o Map(Typ, PartsDt) \o Map(LAMBDA a : Item(<<>>, "l", <<>>, a, FALSE), Tail(Ats))
        \o Map(Full, Cross(<< << <<PartsDt[1]>>, <<I(2)>> >>, << <<>>, <<I(2)>> >> >>, Tail(Ats)))
\* all of the pool; then again in two steps: a dtype first, which is replaced or kept
Made == Map(LAMBDA it : Mk(Backend, it), Pool)
Again(n) == <<Mk(Backend, Typ(PartsDt[1]))>> \o Map(LAMBDA it : Refine(Len(Pool) + 1, it), Pool)
Equal(n) == Map(LAMBDA x : Plan(Made \o Again(0) \o Cat(Map(LAMBDA y : <<Eq(H(x), H(y)), Key(H(x), H(y)), Eq(H(y + Len(Pool) + 1), H(x))>>,
                                                            Sieve(Upto(Len(Pool)), Every, 1 + (x % Every))))
                                \o <<Eq(H(x), H(x)), Key(H(x), H(x)), Eq(H(x), Root(Backend)), Eq(Root(Backend), H(x))>>),
                Upto(Len(Pool)))

(* dtypes *)
AllTypes == IF Backend = "A" THEN Map(LAMBDA d : Np(d[1]), NpTypes) \o Map(Np, <<"<U0", "|S0", ">M8[D]", "|V4", "|V8", "<M8[25s]", ">c16">>)
                                  \o Map(Py, <<"int", "float", "complex", "bool", "str", "bytes", "object", "datetime", "timedelta">>)
            ELSE IF Backend = "P" THEN Map(Np, TorchTypes) \o Map(Py, <<"int", "float", "bool", "bytes">>)
            ELSE Map(Np, TfTypes) \o Map(Py, <<"int", "float", "complex", "bool", "bytes", "str">>)
Dtypes(n) == Map(LAMBDA x : Plan(Map(LAMBDA d : Mk(Backend, Typ(d)), AllTypes) \o <<Refine(x, Dims(<<I(2)>>))>>
                                 \o Cat(Map(LAMBDA y : <<Eq(H(x), H(y)), Key(H(x), H(y))>>, Upto(Len(AllTypes))))
                                 \o <<Eq(H(x), H(Len(AllTypes) + 1)), Eq(H(x), Root(Backend)), Eq(Root(Backend), H(x))>>), Upto(Len(AllTypes)))

(* malformed *)
Marks == <<I(2), W, Ell, X, Unit, Tup(<<>>), Tup(<<I(2)>>), Bad("float"), Bad("str"), Bad("bool"), Bad("list"), NoneDim>>
\* tuples among other dimensions are unspecified
Decided(s) == Len(s) < 2 \/ ~\E j \in 1..Len(s) : s[j] = Marks[7]
Subs(n) == Cat(Map(LAMBDA s : <<Dims(s), DtDims(PartsDt[1], s)>>, Keep(Sieve(UpTo(Marks, N), Every, 1), Decided)))
Malformed(n) == Map(LAMBDA c : Plan(Map(LAMBDA it : Mk(Backend, it), c) \o Map(LAMBDA j : IsInst(H(j), RVals[2]), Upto(Len(c)))
                                    \o Map(LAMBDA j : [op |-> "new", h |-> H(j), n |-> j % 3], Upto(Len(c)))), Chunks(Subs(0), 40))

(* attrs *)
Single == <<AtI("ndim", 1), AtI("ndim", 2), AtI("size", 4), AtI("size", 0), AtI("itemsize", 8), AtI("missing", 1), AtX("dtype", X), AtX("ndim", X), AtX("size", X), AtX("size", Y),
            AtX("size", XtimesN(2)), AtX("ndim", XplusN(1)), AtS("shape", <<2>>), AtS("shape", <<2, 2>>)>>
Distinct(c) == c[1].a # c[2].a
Dicts(n) == Map(LAMBDA a : <<a>>, Single) \o Keep(Exactly(Single, 2), Distinct)
AShapes == << <<>>, <<X>>, <<X, Y>>, <<I(2), X>>, <<Ell>> >>
AVals == Arrs(SubSeq(Dts, 1, 2), << <<>>, <<1>>, <<2>>, <<4>>, <<2, 2>>, <<1, 2>>, <<0>> >>)
WithDs(ds, at) == Item(<<>>, "l", ds, <<at>>, FALSE)
Attrs(n) == Map(LAMBDA c : Plan(<<Mk(Backend, WithDs(c[1], c[2])), Mk(Backend, Att(c[2]))>> \o (IF c[1] = <<>> THEN <<>> ELSE <<Refine(2, Dims(c[1]))>>)
                                \o <<DefF(<<Param("x", "pk", <<AnnH(1)>>, <<>>)>>, <<AnnH(2)>>)>>
                                \o Cat(Map(LAMBDA v : <<IsInst(H(1), v), IsInst(H(2), v)>>
                                                      \o (IF c[1] = <<>> THEN <<>> ELSE <<IsInst(H(3), v)>>)
                                                      \o <<Call(1, 1, <<v>>, <<>>), Ret(1, v)>>, AVals))),
                Sieve(Cross(AShapes, Dicts(0)), Every, 1))

(* agree *)
GHints == Map(Typ, PartsDt) \o Map(Dims, << <<>>, <<I(2)>>, <<W>>, <<Ell>>, <<X>>, <<X, X>>, <<Ell, X>>, <<X, Ell, X>>, <<I(0)>>, <<XplusN(1), X>>, <<Unit>>, <<NoneDim>>,
                                      <<XtimesY, X>>, <<Ell, I(2), Ell>> >>)
          \o Map(LAMBDA c : DtDims(c[1], c[2]), Cross(SubSeq(PartsDt, 1, 3), << <<>>, <<I(2)>>, <<X, X>>, <<Ell, I(3)>> >>))
          \o <<Att(<<AtI("ndim", 2)>>), Att(<<AtX("size", Xsquare)>>), Item(<<PartsDt[1]>>, "l", <<X>>, << <<AtX("size", X)>> >>, FALSE)>>
GVals == Arrs(Dts, << <<>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<0>>, <<4, 3>>, <<2, 2, 3>> >>) \o <<NoneObj, IntObj(2), Obj("float", "1.5"), [t |-> "L", es |-> <<IntObj(1)>>],
           IF Backend = "A" THEN StrObj("x") ELSE Arr(<<2>>)>>
List1(v) == [t |-> "L", es |-> <<v>>]
Agree(n) == Map(LAMBDA it : Plan(<<Mk(Backend, it), DefF(<<Param("x", "pk", <<AnnH(1)>>, <<>>)>>, <<>>), DefF(<<>>, <<AnnH(1)>>),
                                   DefF(<<Param("x", "ko", <<[t |-> "L", a |-> AnnH(1)]>>, <<>>)>>, <<>>)>>
                                 \o Cat(Map(LAMBDA v : <<IsInst(H(1), v), Call(1, 1, <<v>>, <<>>), Ret(1, NoneObj), Call(2, 1, <<>>, <<>>), Ret(1, v),
                                                         Call(3, 1, <<>>, <<[n |-> "x", v |-> List1(v)]>>), Ret(1, NoneObj)>>, GVals))), GHints)

ASSUME Write(CASE Kind = "refine" -> Chains(0) [] Kind = "equal" -> Equal(0) [] Kind = "dtypes" -> Dtypes(0) [] Kind = "malformed" -> Malformed(0) [] Kind = "attrs" -> Attrs(0)
               [] Kind = "agree" -> Agree(0))
=============================================================================
