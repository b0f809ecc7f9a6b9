------------------------------ MODULE GenHistory ----------------------------
(***************************************************************************)
(* Histories of checks and calls which share symbols.                      *)
(* (The kinds are operators because TLC evaluates all constants.)          *)
(*   flat     every sequence of up to N operations                         *)
(*   nested   calls whose body performs up to N operations (among them     *)
(*            calls whose body performs an operation)                      *)
(*   memo     every operation after every other one, many shapes and hints *)
(*   two      every interleaving of two threads' calls, at body granularity *)
(*   three    every interleaving of a call in each of three threads        *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Kind, N, Every
A(n) == Arr(<<n>>)
Hints == <<Mk("A", Dims(<<X>>)), Mk("A", Dims(<<XplusN(1)>>)), Mk("A", Dims(<<X, Y>>)), Mk("A", Dims(<<I(2)>>)), Mk("A", Dims(<<DimV(1)>>))>>
Alt == [t |-> "U", as |-> <<AnnH(4), [t |-> "L", a |-> AnnH(1)]>>]
Fns == <<DefF(<<Param("x", "pk", <<AnnH(1)>>, <<>>), Param("y", "pk", <<AnnH(1)>>, <<>>)>>, <<AnnH(1)>>),
         DefF(<<Param("x", "pk", <<AnnH(1)>>, <<>>)>>, <<AnnH(2)>>),
         DefF(<<Param("x", "pk", <<Alt>>, <<>>), Param("y", "pk", <<AnnH(2)>>, <<A(3)>>)>>, <<>>),
         DefF(<<Param("x", "pk", <<AnnH(5)>>, <<>>), Param("y", "pk", <<AnnH(1)>>, <<>>)>>, <<AnnH(5)>>)>>
Pre == Hints \o Fns \o <<SetDim(1, 2)>>
\* calls: what is before the body, what ends it
F1(t, a, b) == Call(1, t, <<A(a), A(b)>>, <<>>)
F2(t, a) == Call(2, t, <<A(a)>>, <<>>)
F3(t, v) == Call(3, t, <<v>>, <<>>)
F4(t, a, b) == Call(4, t, <<A(a), A(b)>>, <<>>)
List(es) == [t |-> "L", es |-> es]
Calls(t) == << <<F1(t, 2, 2), Ret(t, A(2))>>, <<F1(t, 2, 2), Ret(t, A(3))>>, <<F1(t, 3, 3), Raise(t)>>, <<F1(t, 3, 3), Ret(t, A(3))>>,
               <<F2(t, 2), Ret(t, A(3))>>, <<F2(t, 3), Ret(t, A(3))>>, <<F3(t, List(<<A(2), A(2)>>)), Ret(t, NoneObj)>>,
               <<F4(t, 2, 3), Ret(t, A(2))>> >>
Rejected(t) == << <<F1(t, 2, 3), Ret(t, A(2))>>, <<F3(t, List(<<A(3)>>)), Ret(t, NoneObj)>>, <<F4(t, 3, 3), Ret(t, A(3))>> >>
Checks == << <<IsInst(H(1), A(3))>>, <<IsInst(H(3), Arr(<<2, 3>>))>>, <<IsInst(H(2), A(0))>>, <<Key(H(1), H(2))>>, <<Eq(H(1), H(1))>>, <<SetDim(1, 3)>> >>
Ops(t) == Calls(t) \o Rejected(t) \o Checks

Ops1 == Ops(1)
Calls1 == Calls(1)
Flat(n) == Map(LAMBDA s : Plan(Pre \o Cat(s)), Sieve(UpTo(Ops1, N), Every, 1))
Inside(c, s) == <<c[1]>> \o s \o <<c[2]>>
Inner == UpTo(Ops1, N) \o Map(LAMBDA c : <<Inside(c[1], c[2])>>, Cross(Calls1, Sieve(Ops1, 2, 1)))
Nested(n) == Map(LAMBDA c : Plan(Pre \o Inside(c[1], Cat(c[2])) \o Calls(1)[1] \o Calls(1)[6]), Sieve(Cross(Calls1, Inner), Every, 1))

Dims2 == << <<X, X>>, <<X, Y>>, <<Y, X>>, <<X, XplusN(1)>>, <<I(2), X>>, <<X, I(2)>>, <<Ell, X>>, <<W, X>>, <<XtimesY, X>>, <<XplusY, X>>,
            <<XtimesN(2), X>>, <<Xsquare, X>>, <<XtimesN(3), X>>, <<X, XminusY>> >>
Shapes2 == << <<2, 2>>, <<2, 3>>, <<3, 2>>, <<4, 2>>, <<2>>, <<4, 4>> >>
MemoOps == Map(LAMBDA c : <<IsInst(H(c[1]), Arr(c[2]))>>, Cross([j \in 1..Len(Dims2) |-> j], Shapes2))
           \o Map(LAMBDA c : <<Call(c[1], 1, <<Arr(c[2])>>, <<>>), Ret(1, NoneObj)>>, Cross([j \in 1..Len(Dims2) |-> j], Shapes2))
\* as arguments of one function, beside a dimension of its own
Memo(n) == Map(LAMBDA k : Plan(Map(LAMBDA d : Mk("A", Dims(d)), Dims2)
                            \o Map(LAMBDA j : DefF(<<Param("x", "pk", <<AnnH(j)>>, <<>>)>>, <<>>), [j \in 1..Len(Dims2) |-> j])
                            \o Cat(Map(LAMBDA op : MemoOps[k] \o op, Sieve(MemoOps, Every, 1 + (k % Every))))), [k \in 1..Len(MemoOps) |-> k])

Few(t) == LET c == Calls(t) IN <<c[1], c[2], c[3], c[5], Rejected(t)[1], c[8]>>
Scripts(t, n) == Map(Cat, Exactly(Few(t), n))
Two(n) == Cat(Map(LAMBDA c : Map(LAMBDA m : Plan(Pre \o m), Merges(c[1], c[2])), Sieve(Cross(Scripts(1, 1), Scripts(2, N)), Every, 1)))
Three(n) == Cat(Map(LAMBDA c : Cat(Map(LAMBDA m : Map(LAMBDA w : Plan(Pre \o w), Merges(m, c[2])), Merges(c[1][1], c[1][2]))),
                 Sieve(Cross(Cross(Scripts(1, 1), Scripts(2, 1)), Scripts(3, 1)), Every, 1)))
ASSUME Write(CASE Kind = "flat" -> Flat(0) [] Kind = "nested" -> Nested(0) [] Kind = "memo" -> Memo(0) [] Kind = "two" -> Two(0) [] Kind = "three" -> Three(0))
=============================================================================
