---------------------------- MODULE GenContainers ---------------------------
(***************************************************************************)
(* Every annotation of a pool with every value of a pool, as an argument   *)
(* and as a result.                                                        *)
(*   flat    containers of hints and other atoms, values of depth 1        *)
(*   deep    containers of containers, values of depth 2                   *)
(*   union   all unions of two or three alternatives in every order        *)
(*   atoms   annotations asta interprets only when asked, alone and in     *)
(*           containers and unions                                         *)
(* Every n-th combination is taken, from the k-th on (n = 1: all).         *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Kind, Every
H1 == AnnH(1)
H2 == AnnH(2)
NoneT == [t |-> "N"]
AnyT == [t |-> "any"]
Cl(c) == [t |-> "c", c |-> c]
Ls(a) == [t |-> "L", a |-> a]
Sq(a) == [t |-> "Q", a |-> a]
Vt(a) == [t |-> "V", a |-> a]
Tu(as) == [t |-> "T", as |-> as]
St(a) == [t |-> "s", a |-> a]
Di(k, a) == [t |-> "D", ka |-> k, va |-> a]
Td(a, b, rq) == [t |-> "td", ks |-> <<"p", "q">>, as |-> <<a, b>>, rq |-> rq]
Nt(a, b) == [t |-> "nt", c |-> "NT1", fs |-> <<"f", "g">>, as |-> <<a, b>>]
Un(as) == [t |-> "U", as |-> as]
Bare(c) == [t |-> "bare", c |-> c]

\* values
A2 == Arr(<<2>>)
A3 == Arr(<<3>>)
Seqs(t, pool, n) == Map(LAMBDA es : [t |-> t, es |-> es], UpTo(pool, n))
Dict(ks, es) == [t |-> "D", ks |-> ks, es |-> es]
Named(c, pool) == Map(LAMBDA es : [t |-> "nt", c |-> c, es |-> es], Exactly(pool, 2))
Dicts(pool) == <<Dict(<<>>, <<>>)>> \o Map(LAMBDA v : Dict(<<StrObj("p")>>, <<v>>), pool)
               \o Map(LAMBDA v : Dict(<<StrObj("q")>>, <<v>>), pool)
               \o Map(LAMBDA c : Dict(<<StrObj("p"), StrObj("q")>>, c), Exactly(pool, 2))
               \o Map(LAMBDA v : Dict(<<StrObj("p"), IntObj(3)>>, <<v, v>>), pool)
Sets == <<[t |-> "s", es |-> <<>>], [t |-> "s", es |-> <<IntObj(1), IntObj(2)>>], [t |-> "s", es |-> <<NoneObj>>],
          [t |-> "fs", es |-> <<IntObj(1)>>], [t |-> "fs", es |-> <<StrObj("z"), NoneObj>>]>>
Atoms == <<A2, A3, NoneObj, IntObj(5)>>
Flat == Atoms \o <<StrObj("ab"), StrObj("")>> \o Seqs("L", Atoms, 2) \o Seqs("T", Atoms, 2) \o Seqs("q", <<A2, A3, NoneObj>>, 2)
        \o Dicts(Atoms) \o Sets \o Named("NT1", Atoms) \o Named("NT1/twin", <<A2>>) \o Named("NT1/sub", <<A2, A3>>)

Ones == <<H1, H2, NoneT, AnyT, Un(<<H1, NoneT>>)>>
Pairs2 == Exactly(<<H1, H2, NoneT>>, 2)
Annots1 == Map(Ls, Ones) \o Map(Sq, Ones) \o Map(Vt, Ones) \o Map(LAMBDA a : Tu(<<a>>), Ones) \o <<Tu(<<>>)>>
           \o Map(LAMBDA c : Tu(c), Pairs2) \o <<St(AnyT), St(Cl("int")), St(NoneT)>>
           \o Map(LAMBDA c : Di(c[1], c[2]), Cross(<<AnyT, Cl("str"), NoneT>>, Ones))
           \o Cat(Map(LAMBDA c : Map(LAMBDA rq : Td(c[1], c[2], rq), <<<<>>, <<"p">>, <<"p", "q">>>>), Pairs2))
           \o Map(LAMBDA c : Nt(c[1], c[2]), Pairs2)
           \o Map(Bare, <<"List", "Sequence", "Dict", "Set", "Tuple", "tuple">>)

Small == <<A2, A3, NoneObj>>
Inner == Seqs("L", Small, 1) \o Seqs("T", <<A2, A3>>, 2) \o <<Dict(<<StrObj("p")>>, <<A2>>), Dict(<<StrObj("p")>>, <<A3>>),
         Dict(<<StrObj("q")>>, <<A2>>)>> \o Named("NT1", <<A2, A3>>) \o <<A2, NoneObj>>
Deep == Seqs("L", Inner, 1) \o Seqs("T", Inner, 1) \o Map(LAMBDA v : Dict(<<StrObj("p")>>, <<v>>), Inner)
        \o Map(LAMBDA c : [t |-> "L", es |-> c], Sieve(Exactly(Inner, 2), 3, 1))
        \o Map(LAMBDA c : [t |-> "T", es |-> c], Sieve(Exactly(Inner, 2), 3, 2))
Parts == <<Ls(H1), Ls(H2), Vt(H2), Tu(<<H1, H2>>), Tu(<<H2, H2>>), Di(AnyT, H1), Td(H1, H2, <<"p">>), Nt(H2, H2), Un(<<H1, Ls(H2)>>),
           Un(<<Tu(<<H2, H2>>), NoneT>>), Sq(H2)>>
Annots2 == Map(Ls, Parts) \o Map(Sq, Parts) \o Map(Vt, Parts) \o Map(LAMBDA a : Di(AnyT, a), Parts) \o Map(LAMBDA a : Tu(<<a>>), Parts)
           \o Map(LAMBDA c : Tu(c), Sieve(Exactly(Parts, 2), 4, 1)) \o Map(LAMBDA a : Td(a, H1, <<"p">>), Parts)
           \o Map(LAMBDA c : Un(c), Sieve(Map(LAMBDA c : <<Ls(c[1]), Tu(<<c[2]>>)>>, Cross(Parts, Parts)), 5, 1))

Alts == <<H1, H2, NoneT, Ls(H1), Ls(H2), Tu(<<H2, H2>>), Tu(<<H1, NoneT>>), Di(AnyT, H2), Sq(AnyT)>>
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Unions == Map(Un, Keep(Exactly(Alts, 2), Distinct)) \o Map(Un, Sieve(Keep(Exactly(Alts, 3), Distinct), 5, 2))
UVals == Atoms \o Seqs("L", Small, 2) \o Seqs("T", Small, 2) \o Dicts(<<A2, A3>>) \o <<StrObj("ab"), StrObj(""), Sets[1]>>

\* what is interpreted with check-non-asta-types=yes only
Fun(lo, hi) == [t |-> "o", c |-> "fun", v |-> "f", lo |-> lo, hi |-> hi]
Thing(c) == Obj(c, "1")
\* an instance of a class derived from a builtin one
Derive(v) == v @@ [sub |-> 1]
Things == <<IntObj(1), IntObj(2), Obj("bool", "True"), Obj("float", "1.5"), Obj("complex", "2j"), StrObj("1"), Obj("bytes", "1"),
            Obj("bytearray", "1"), NoneObj, Thing("Foo"), Thing("Bar"), Thing("obj"), Thing("datetime"), Thing("timedelta"), Thing("date"), Thing("time"), Thing("frac"), Thing("dec"), Thing("Log"), Thing("strio"), Thing("rawio"),
            Obj("isub", "3"), Obj("fsub", "1.5"), Obj("npf", "1.5"), Obj("IE", "3"), Obj("E", ""), Thing("G"), Thing("Quack"), Thing("textio"),
            Thing("bytesio"), Thing("Raw"),
            Fun(0, 0), Fun(1, 1), Fun(1, 2), Fun(0, 99), Fun(2, 2), Obj("cls", "int"), Obj("cls", "Foo"), Obj("cls", "Bar"),
            Obj("cls", "bool"), A2, A3, Arr(<<>>), [t |-> "L", es |-> <<>>], [t |-> "L", es |-> <<IntObj(1)>>],
            [t |-> "L", es |-> <<A2, IntObj(1)>>], [t |-> "T", es |-> <<IntObj(1), StrObj("1")>>], [t |-> "T", es |-> <<A2, StrObj("1")>>],
            Dict(<<StrObj("p")>>, <<IntObj(1)>>), Dict(<<IntObj(1)>>, <<A2>>), Sets[1], Sets[2], Sets[5]>>
          \o Map(Derive, <<[t |-> "L", es |-> <<>>], [t |-> "T", es |-> <<IntObj(1), StrObj("1")>>], Dict(<<StrObj("p")>>, <<IntObj(1)>>), Sets[1]>>)
Lit(vs) == [t |-> "lit", vs |-> vs]
Singles == Map(Cl, <<"int", "float", "complex", "str", "bytes", "bool", "Foo", "Bar", "object", "Scalar", "ndarray", "datetime", "date", "list", "dict", "set", "MyList", "MyTuple", "MyDict", "MySet", "Log", "Raw", "TextIO", "BinaryIO", "IO",
                      "Duck", "Abs", "isub", "fsub", "npf", "E", "IE", "G", "Quack", "timedelta", "frozenset", "deque", "ODict", "DDict">>)
           \o Map(LAMBDA n : [t |-> "cal", n |-> n], <<-1, 0, 1, 2>>)
           \o Map(LAMBDA c : [t |-> "ty", cs |-> c], <<<<"int">>, <<"Foo">>, <<"Bar">>, <<"Foo", "int">>, <<>>>>)
           \o Map(Lit, <<<<IntObj(1)>>, <<StrObj("1")>>, <<IntObj(2), StrObj("1"), NoneObj>>, <<Obj("bool", "True")>>>>)
           \o Map(LAMBDA c : [t |-> "odd", c |-> c], <<"iter", "map", "cnt", "cal", "tv">>) \o <<AnyT, NoneT>>
Wrapped == Map(Ls, Sieve(Singles, 3, 1)) \o Map(LAMBDA a : Tu(<<a, Cl("str")>>), Sieve(Singles, 3, 2)) \o Map(LAMBDA a : Di(a, AnyT), Sieve(Singles, 3, 3))
           \o Map(LAMBDA a : Un(<<a, H1>>), Singles) \o Map(LAMBDA a : Un(<<Ls(H1), a>>), Sieve(Singles, 2, 1))

Pool == CASE Kind = "flat" -> <<Annots1, Flat>> [] Kind = "deep" -> <<Annots2, Deep>> [] Kind = "union" -> <<Unions, UVals>>
          [] Kind = "atoms" -> <<Singles \o Wrapped, Things>>
\* x is given and returned, beside an array of two elements
Work(v) == <<Call(1, 1, <<v, A2>>, <<>>), Ret(1, v), Call(2, 1, <<>>, <<>>), Ret(1, v)>>
Fresh(a) == Plan(<<Mk("A", Dims(<<I(2)>>)), Mk("A", Dims(<<X>>)),
                   DefF(<<Param("x", "pk", <<a[1]>>, <<>>), Param("y", "pk", <<H2>>, <<>>)>>, <<a[1]>>),
                   DefF(<<>>, <<a[1]>>)>> \o Cat(Map(Work, a[2])))
ASSUME Write(Map(LAMBDA j : Fresh(<<Pool[1][j], Sieve(Pool[2], Every, 1 + (j % Every))>>), [j \in 1..Len(Pool[1]) |-> j]))
=============================================================================
