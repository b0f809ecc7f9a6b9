----------------------------- MODULE GenSystems -----------------------------
(***************************************************************************)
(* Systems of nonlinear polynomial equations: hints and signatures whose   *)
(* dimensions are polynomials of degree up to four in up to three symbols, with  *)
(* the sizes they have at a point (solvable) and sizes one off it (mostly  *)
(* unsolvable).                                                            *)
(*   hint   one hint of N dimensions                                       *)
(*   call   two arguments and a result which share the symbols             *)
(***************************************************************************)
EXTENDS GenLib, FiniteSets
CONSTANTS Kind, Vars, N, Every, Backend
M(x, y, z) == <<0, 0, x, y, z>>
P(ts) == Expr(1, FALSE, ts)
In3 == <<
    P(<< <<1, M(2, 0, 0)>>, <<2, M(0, 1, 0)>>, <<1, M(0, 0, 1)>> >>),
    P(<< <<3, M(1, 1, 0)>>, <<1, M(1, 0, 0)>>, <<1, M(0, 2, 0)>> >>),
    P(<< <<2, M(1, 1, 0)>> >>),
    P(<< <<1, M(2, 0, 0)>>, <<3, M(1, 0, 0)>>, <<1, M(0, 3, 0)>> >>),
    P(<< <<1, M(1, 1, 1)>>, <<1, M(1, 0, 2)>> >>),
    P(<< <<1, M(2, 0, 0)>>, <<1, M(0, 1, 0)>>, <<1, M(0, 0, 2)>> >>),
    P(<< <<1, M(0, 2, 1)>> >>),
    P(<< <<1, M(1, 0, 2)>>, <<1, M(0, 2, 0)>>, <<1, M(0, 1, 1)>> >>),
    P(<< <<2, M(1, 2, 1)>>, <<2, M(0, 0, 2)>> >>),
    P(<< <<1, M(3, 1, 0)>>, <<1, M(1, 1, 2)>>, <<1, M(0, 0, 1)>> >>),
    P(<< <<1, M(1, 1, 0)>>, <<1, M(0, 0, 1)>> >>),
    P(<< <<1, M(2, 0, 0)>>, <<-1, M(0, 1, 0)>> >>),
    P(<< <<1, M(0, 1, 1)>>, <<-1, M(1, 0, 0)>>, <<1, M(0, 0, 0)>> >>),
    P(<< <<1, M(1, 0, 0)>>, <<1, M(0, 1, 0)>>, <<1, M(0, 0, 1)>> >>),
    P(<< <<1, M(3, 0, 0)>> >>),
    P(<< <<1, M(1, 1, 0)>>, <<1, M(0, 1, 1)>>, <<1, M(1, 0, 1)>> >>),
    P(<< <<1, M(2, 0, 0)>>, <<1, M(0, 2, 0)>> >>),
    P(<< <<2, M(1, 0, 0)>>, <<3, M(0, 1, 0)>> >>) >>
\* polynomials in X and Y only: three of them rarely have a common root
In2 == <<
    P(<< <<1, M(2, 0, 0)>>, <<2, M(0, 1, 0)>> >>),
    P(<< <<3, M(1, 1, 0)>>, <<1, M(0, 2, 0)>> >>),
    P(<< <<2, M(1, 1, 0)>> >>),
    P(<< <<1, M(2, 0, 0)>>, <<3, M(1, 0, 0)>>, <<1, M(0, 3, 0)>> >>),
    P(<< <<1, M(2, 0, 0)>>, <<1, M(0, 2, 0)>> >>),
    P(<< <<1, M(3, 0, 0)>>, <<-1, M(0, 1, 0)>> >>),
    P(<< <<1, M(1, 2, 0)>>, <<1, M(0, 0, 0)>> >>),
    P(<< <<2, M(1, 0, 0)>>, <<3, M(0, 1, 0)>> >>),
    P(<< <<1, M(0, 2, 0)>>, <<1, M(1, 0, 0)>> >>),
    P(<< <<1, M(2, 1, 0)>>, <<1, M(1, 1, 0)>> >>) >>
Polys == IF Vars = 2 THEN In2 ELSE In3
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
At(p, a) == FoldSeq(LAMBDA t, acc : acc + t[1] * Pow(a[1], t[2][3]) * Pow(a[2], t[2][4]) * Pow(a[3], t[2][5]), 0, p.ts)
Points == << <<1, 1, 1>>, <<2, 1, 0>>, <<3, 1, 2>>, <<1, 2, 3>>, <<5, 5, 0>>, <<2, 3, 1>>, <<0, 2, 2>>, <<4, 1, 3>>, <<1, 3, 0>>, <<3, 2, 2>> >>
\* systems a general equation solver is known to hang on or to misjudge
Known == IF Vars = 3 /\ N = 2 THEN <<<<1, 2>>, <<3, 4>>, <<5, 6>>, <<7, 8>>, <<9, 10>>>> ELSE <<>>
Tuples == Known \o Sieve(Keep(Exactly([j \in 1..Len(Polys) |-> j], N), LAMBDA t : Cardinality({t[j] : j \in 1..N}) = N), Every, 1)
Ps(t) == [j \in 1..N |-> Polys[t[j]]]
\* the sizes at a point, then with one size more in one position
Sizes(t) ==
    LET base == Map(LAMBDA a : [j \in 1..N |-> At(Polys[t[j]], a)], Points)
        off(s) == [s EXCEPT ![(s[1] % N) + 1] = @ + 1]
    IN Keep(base \o Map(off, base), LAMBDA s : \A j \in 1..N : s[j] \in 0..45)
V(sh) == Val(Backend, sh)
Hint == Map(LAMBDA t : Plan(<<Mk(Backend, Dims(Ps(t)))>> \o Map(LAMBDA s : IsInst(H(1), V(s)), Sizes(t))), Tuples)
CallOf == Map(LAMBDA t : Plan(Map(LAMBDA p : Mk(Backend, Dims(<<p>>)), Ps(t))
                  \o <<DefF(<<Param("x", "pk", <<AnnH(1)>>, <<>>), Param("y", "pk", <<AnnH(2)>>, <<>>)>>, <<AnnH(N)>>)>>
                  \o Cat(Map(LAMBDA s : <<Call(1, 1, <<V(<<s[1]>>), V(<<s[2]>>)>>, <<>>), Ret(1, V(<<s[N]>>))>>, Sizes(t)))),
              Tuples)
ASSUME Write(CASE Kind = "hint" -> Hint [] Kind = "call" -> CallOf)
=============================================================================
