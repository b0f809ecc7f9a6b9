------------------------------ MODULE GenSwitch -----------------------------
(***************************************************************************)
(* The switch and decorated classes.                                       *)
(*   switch   every pair of values of ASTA_TYPECHECK, one when a function  *)
(*            and a class are decorated and one when they are used, with   *)
(*            another decoration in between                                *)
(*   during   the variable changes inside the body, between the checks     *)
(*   class    every class of up to N members of a pool, every member used  *)
(*            through the instance, a subclass and the class               *)
(*   inner    a member of a class called from the body of another          *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Kind, N, Every
Envs == <<"unset", "0", "1", "", "yes", "true", "no", "on", " 1", "01", "2">>
Env(v) == [op |-> "env", v |-> v]
A(n) == Arr(<<n>>)
Mks == <<Mk("A", Dims(<<I(2)>>)), Mk("A", Dims(<<X>>))>>
Px == Param("x", "pk", <<AnnH(1)>>, <<>>)
Py2(df) == Param("y", "pk", <<AnnH(2)>>, df)
Fn == DefF(<<Px>>, <<AnnH(2)>>)
Cls(ms) == [op |-> "def", cls |-> TRUE, ms |-> ms]
Three == Cls(<<Member("inst", <<Px>>, <<AnnH(1)>>), Member("cm", <<Px>>, <<AnnH(1)>>), Member("sm", <<Px>>, <<AnnH(1)>>)>>)
On(c, via) == IF via = "" THEN c ELSE c @@ [via |-> via]
\* a call that fits, one whose result does not, one whose argument does not, one that raises, one Python rejects
Work(f, via) == <<On(Call(f, 1, <<A(2)>>, <<>>), via), Ret(1, A(2)), On(Call(f, 1, <<A(2)>>, <<>>), via), Ret(1, IntObj(3)),
                  On(Call(f, 1, <<A(3)>>, <<>>), via), Ret(1, A(2)), On(Call(f, 1, <<A(2)>>, <<>>), via), Raise(1),
                  On(Call(f, 1, <<>>, <<>>), via), Ret(1, NoneObj)>>
Upto(n) == [j \in 1..n |-> j]
Switch(n) == Map(LAMBDA c : Plan(Mks \o <<Env(c[1]), Fn, Three, Env(c[2])>> \o Work(1, "") \o Work(2, "inst") \o Work(3, "cls") \o Work(4, "sub")
                                 \o <<Fn, Three>> \o Work(5, "") \o Work(6, "sub") \o Work(7, "inst") \o Work(8, "cls") \o Work(1, "")
                                 \o <<IsInst(H(1), A(2)), IsInst(H(1), A(3)), Env("unset")>> \o Work(1, "") \o Work(5, "")),
                 Sieve(Cross(Envs, Envs), Every, 1))
\* the variable changes while bodies run; the nested function is decorated inside
During(n) == Map(LAMBDA c : Plan(Mks \o <<Env(c[1]), Fn, Call(1, 1, <<A(2)>>, <<>>), Env(c[2]), Fn, Call(2, 1, <<A(3)>>, <<>>), Env(c[1]), Ret(1, A(2)),
                                   Ret(1, IntObj(1)), Call(2, 1, <<A(2)>>, <<>>), Ret(1, IntObj(1))>>),
                 Cross(Envs, Envs))

\* members: annotated, only the result annotated, half annotated, not annotated, with a default, keyword-only
Named(m, nm) == IF nm = "" THEN m ELSE m @@ [nm |-> nm]
Bare(m) == [m EXCEPT !.dec = FALSE]
Sorts(k) == <<Member(k, <<Px>>, <<AnnH(2)>>), Member(k, <<>>, <<AnnH(1)>>), Member(k, <<Px, Param("y", "pk", <<>>, <<>>)>>, <<>>),
              Bare(Member(k, <<Param("x", "pk", <<>>, <<>>)>>, <<>>)), Member(k, <<Px, Py2(<<A(3)>>)>>, <<AnnH(2)>>),
              Member(k, <<Param("x", "ko", <<AnnH(1)>>, <<>>)>>, <<>>), Member(k, <<Px>>, <<>>)>>
Pool == Cat(Map(LAMBDA k : Sorts(k), <<"inst", "cm", "sm">>))
NmOf(j) == <<"", "_", "__", "__x__">>[1 + (j % 4)]
Vias == <<"inst", "sub", "cls">>
Args == << <<A(2)>>, <<A(3)>>, <<>>, <<A(2), A(3)>>, <<NoneObj>>, <<A(2), IntObj(1)>> >>
Kws == << <<>>, <<[n |-> "x", v |-> A(2)]>>, <<[n |-> "x", v |-> A(3)]>>, <<[n |-> "y", v |-> A(2)]>> >>
Rets == <<Ret(1, A(2)), Ret(1, A(3)), Ret(1, NoneObj), Raise(1)>>
Uses == Map(LAMBDA c : <<c[1][1], c[1][2], c[2]>>, Cross(Cross(Vias, Cross(Args, Kws)), Rets))
Go(f, u) == <<On(Call(f, 1, u[2][1], u[2][2]), u[1]), u[3]>>
Classes(n) == LET all == Sieve(Exactly(Pool, N), Every, 3)
              IN Map(LAMBDA j : Plan(Mks \o <<Cls([k \in 1..N |-> Named(all[j][k], NmOf(j + k))])>>
                                     \o Cat(Map(LAMBDA f : Cat(Map(LAMBDA u : Go(f, u), Sieve(Uses, 5, 1 + ((j + f) % 5)))), Upto(N)))),
                     Upto(Len(all)))
Inner(n) == LET pairs == Sieve(Cross(Cross(Pool, Pool), Cross(Vias, Vias)), Every, 2)
            IN Map(LAMBDA j : LET c == pairs[j] IN
                     Plan(Mks \o <<Cls(<<Named(c[1][1], NmOf(j)), Named(c[1][2], NmOf(j \div 3))>>)>>
                          \o Cat(Map(LAMBDA r : <<On(Call(1, 1, r[1][1], r[1][2]), c[2][1]), On(Call(2, 1, r[1][1], r[1][2]), c[2][2]), r[2], Ret(1, A(2))>>,
                                     Sieve(Cross(Cross(SubSeq(Args, 1, 3), SubSeq(Kws, 1, 2)), SubSeq(Rets, 1, 3)), 3, 1 + (j % 3))))),
                   Upto(Len(pairs)))
ASSUME Write(CASE Kind = "switch" -> Switch(0) [] Kind = "during" -> During(0) [] Kind = "class" -> Classes(0) [] Kind = "inner" -> Inner(0))
=============================================================================
