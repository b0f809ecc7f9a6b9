---------------------------- MODULE GenMagnitudes ---------------------------
(***************************************************************************)
(* One thing is large, and just one place in it is wrong.                  *)
(*   long      containers of many elements, functions of many parameters,  *)
(*             unions of many alternatives                                 *)
(*   longer    containers of more than twenty elements                     *)
(*   depth     containers nested deeply                                    *)
(*   rank      shapes of many dimensions, literal, symbolic, with '...'    *)
(*   spots     subscripts of many parts, one of which is malformed         *)
(*   equations systems of many equations, with one more argument or result *)
(*   attrs     many attributes                                             *)
(*   splice    shape variables which hold many sizes                       *)
(* Every n-th plan is taken.                                               *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Kind, N, Every, Backend
H1 == AnnH(1)
AnyT == [t |-> "any"]
Upto(n) == [j \in 1..n |-> j]
V(sh) == Val(Backend, sh)
Good == V(<<2>>)
Wrong == V(<<3>>)
\* n good ones, a wrong one in place p (none if p is 0)
Row(n, p) == [j \in 1..n |-> IF j = p THEN Wrong ELSE Good]
\* places of interest
Spots(n) == IF n <= 9 THEN [j \in 1..(n + 1) |-> j - 1] ELSE <<0, 1, 9, n \div 2, n - 1, n>>
Lengths == Keep(<<2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33, 40, 65, 100, 101, 129>>, LAMBDA n : n <= N)
Work(v) == <<Call(1, 1, <<v>>, <<>>), Ret(1, v), Call(2, 1, <<>>, <<>>), Ret(1, v)>>
Using(hint, a, vs) == Plan(<<Mk(Backend, Dims(hint)), DefF(<<Param("x", "pk", <<a>>, <<>>)>>, <<a>>), DefF(<<>>, <<a>>)>> \o Cat(Map(Work, vs)))
Name(j) == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t">>[j]
Ks(n) == [j \in 1..n |-> IntObj(j)]
Holds(t, es) == IF t = "D" THEN [t |-> "D", ks |-> Ks(Len(es)), es |-> es] ELSE [t |-> t, es |-> es]

(* long *)
Kinds == << <<[t |-> "L", a |-> H1], "L">>, <<[t |-> "V", a |-> H1], "T">>, <<[t |-> "Q", a |-> H1], "T">>, <<[t |-> "Q", a |-> H1], "q">>,
            <<[t |-> "D", ka |-> AnyT, va |-> H1], "D">> >>
Lists(n) == Cat(Map(LAMBDA k : Map(LAMBDA hint : Using(hint, k[1], Map(LAMBDA p : Holds(k[2], Row(n, p)), Spots(n))), << <<I(2)>>, <<X>> >>), Kinds))
\* as many parts in the annotation
Tuples(n) == <<Using(<<X>>, [t |-> "T", as |-> [j \in 1..n |-> H1]], Map(LAMBDA p : [t |-> "T", es |-> Row(n, p)], Spots(n))
                                                       \o <<[t |-> "T", es |-> Row(n - 1, 0)], [t |-> "T", es |-> Row(n + 1, 0)]>>),
               Using(<<X>>, [t |-> "td", ks |-> [j \in 1..n |-> Name(j)], as |-> [j \in 1..n |-> H1], rq |-> [j \in 1..n |-> Name(j)]],
                     Map(LAMBDA p : [t |-> "D", ks |-> [j \in 1..n |-> StrObj(Name(j))], es |-> Row(n, p)], Spots(n))
                     \o Map(LAMBDA p : [t |-> "D", ks |-> [j \in 1..(n - 1) |-> StrObj(Name(IF j >= p THEN j + 1 ELSE j))], es |-> Row(n - 1, 0)], Tail(Spots(n)))),
               Using(<<X>>, [t |-> "nt", c |-> "NT1", fs |-> [j \in 1..n |-> Name(j)], as |-> [j \in 1..n |-> H1]],
                     Map(LAMBDA p : [t |-> "nt", c |-> "NT1", es |-> Row(n, p)], Spots(n)))>>
Params(n) == Map(LAMBDA hint : Plan(<<Mk(Backend, Dims(hint)), DefF([j \in 1..n |-> Param(Name(j), IF j > n - 2 THEN "ko" ELSE "pk", <<H1>>, IF j > n - 1 THEN <<Good>> ELSE <<>>)], <<H1>>)>>
                                    \o Cat(Map(LAMBDA p : LET row == Row(n, p) IN
                                           <<Call(1, 1, SubSeq(row, 1, n - 2), Map(LAMBDA j : [n |-> Name(j), v |-> row[j]], IF p = n \/ p = 0 THEN <<n, n - 1>> ELSE <<n - 1>>)), Ret(1, Good),
                                             Call(1, 1, SubSeq(row, 1, 1), Map(LAMBDA j : [n |-> Name(n + 2 - j), v |-> row[n + 2 - j]], Tail(Upto(n)))), Ret(1, Good)>>, Spots(n)))),
                 << <<I(2)>>, <<X>> >>)
Unions(n) == <<Plan(Map(LAMBDA j : Mk(Backend, Dims(<<I(j)>>)), Upto(n))
                    \o <<DefF(<<Param("x", "pk", <<[t |-> "U", as |-> Map(AnnH, Upto(n))]>>, <<>>)>>, <<>>),
                         DefF(<<Param("x", "pk", <<[t |-> "L", a |-> [t |-> "U", as |-> Map(AnnH, Upto(n))]]>>, <<>>)>>, <<>>)>>
                    \o Cat(Map(LAMBDA j : <<Call(1, 1, <<V(<<j>>)>>, <<>>), Ret(1, NoneObj), Call(2, 1, <<[t |-> "L", es |-> <<V(<<j>>), V(<<1>>)>>]>>, <<>>), Ret(1, NoneObj)>>, Upto(n + 1))))>>
Long(z) == Cat(Map(LAMBDA n : Lists(n) \o (IF n <= 20 THEN Tuples(n) \o (IF n > 2 THEN Params(n) ELSE <<>>) \o Unions(n) ELSE <<>>), Lengths))

Longer(z) == Cat(Map(Lists, Keep(Lengths, LAMBDA n : n > 20)))

(* depth *)
RECURSIVE Nest(_, _)
Nest(ts, leaf) == IF ts = <<>> THEN leaf ELSE
    CASE Head(ts) = "L" -> [t |-> "L", a |-> Nest(Tail(ts), leaf)]
      [] Head(ts) = "V" -> [t |-> "V", a |-> Nest(Tail(ts), leaf)]
      [] Head(ts) = "T" -> [t |-> "T", as |-> <<AnyT, Nest(Tail(ts), leaf)>>]
      [] Head(ts) = "U" -> [t |-> "U", as |-> <<[t |-> "N"], Nest(Tail(ts), leaf)>>]
      [] Head(ts) = "D" -> [t |-> "D", ka |-> AnyT, va |-> Nest(Tail(ts), leaf)]
RECURSIVE Put(_, _, _)
\* the value in the last place of each level, beside conforming ones
Put(ts, leaf, fill) == IF ts = <<>> THEN leaf ELSE
    LET e == Put(Tail(ts), leaf, fill)  f == Put(Tail(ts), fill, fill) IN
    CASE Head(ts) = "L" -> [t |-> "L", es |-> IF Len(ts) > 4 THEN <<e>> ELSE <<f, e>>]
      [] Head(ts) = "V" -> [t |-> "T", es |-> <<e>>]
      [] Head(ts) = "T" -> [t |-> "T", es |-> <<NoneObj, e>>]
      [] Head(ts) = "U" -> e
      [] Head(ts) = "D" -> [t |-> "D", ks |-> <<IntObj(1)>>, es |-> <<e>>]
Cycle(start, n) == [j \in 1..n |-> <<"L", "V", "D", "T", "L", "U", "D">>[((start + j - 2) % 7) + 1]]
Towers(n) == Cat(Map(LAMBDA s : Map(LAMBDA hint : Using(hint, Nest(s, H1), <<Put(s, Good, Good), Put(s, Wrong, Good), Put(s, IntObj(5), Good), Put(s, Put(<<"L">>, Good, Good), Good)>>), << <<I(2)>>, <<X>> >>),
                     Map(LAMBDA t : [j \in 1..n |-> t], <<"L", "V", "D", "T">>) \o Map(LAMBDA k : Cycle(k, n), Upto(7))))
Depth(z) == Cat(Map(Towers, Upto(N)))

(* rank *)
Base(n) == [j \in 1..n |-> 1 + (j % 2)]
Off(sh, p) == IF p = 0 THEN sh ELSE [sh EXCEPT ![p] = @ + 1]
Lits(n) == [j \in 1..n |-> I(Base(n)[j])]
Replace(s, p, d) == [s EXCEPT ![p] = d]
Ranks(n) == Map(LAMBDA ds : Plan(<<Mk(Backend, Dims(ds)), DefF(<<Param("x", "pk", <<H1>>, <<>>)>>, <<>>)>>
                                 \o Cat(Map(LAMBDA sh : <<IsInst(H(1), V(sh)), Call(1, 1, <<V(sh)>>, <<>>), Ret(1, NoneObj)>>,
                                            Map(LAMBDA p : Off(Base(n), p), [j \in 1..(n + 1) |-> j - 1]) \o <<SubSeq(Base(n), 1, n - 1), Append(Base(n), 1), <<1>> \o Base(n), Replace(Base(n), n, 0)>>))),
                Map(LAMBDA p : IF p = 0 THEN Lits(n) ELSE Replace(Lits(n), p, Ell), [j \in 1..(n + 1) |-> j - 1])
                \o Map(LAMBDA p : Replace(Lits(n), p, W), Upto(n))
                \o <<[j \in 1..n |-> IF j % 2 = 1 THEN X ELSE Y], [j \in 1..n |-> IF j = n THEN X ELSE I(Base(n)[j])], Replace([j \in 1..n |-> IF j % 2 = 1 THEN X ELSE Y], n, Ell),
                     [j \in 1..n |-> IF j % 2 = 1 THEN Ell ELSE I(Base(n)[j])]>>)
Rank(z) == Cat(Map(Ranks, Upto(N)))

(* spots *)
Fill(n) == [j \in 1..n |-> <<I(2), X, W, I(3)>>[(j % 4) + 1]]
Marks == << <<Bad("float")>>, <<Bad("str")>>, <<Bad("list")>>, <<Bad("bool")>>, <<Unit>>, <<Tup(<<>>)>>, <<Ell, Ell>>, <<Ell>>, <<NoneDim>> >>
SpotPlan(n) == Plan(Cat(Map(LAMBDA m : Map(LAMBDA p : Mk(Backend, Dims(SubSeq(Fill(n), 1, p - 1) \o m \o SubSeq(Fill(n), p, n))), Upto(n + 1)), Marks)))
SpotsAll(z) == Map(SpotPlan, Upto(N))

(* equations *)
ZZ(c, x, y, w, k) == Expr(1, FALSE, << <<x, X1>>, <<y, Y1>>, <<w, Z1>>, <<k, One>> >>)
\* X = 2, Y = 3, Z = 4: no two of these give the same equation
Pool == << <<X, 2>>, <<Y, 3>>, <<Z, 4>>, <<XtimesN(2), 4>>, <<XplusY, 5>>, <<ZZ(0, 1, 0, 1, 0), 6>>, <<ZZ(0, 0, 1, 1, 0), 7>>, <<ZZ(0, 1, 1, 1, 0), 9>>, <<XtimesY, 6>>,
           <<ZZ(0, 2, 1, 0, 0), 7>>, <<ZZ(0, 0, 2, 1, 0), 10>>, <<Xsquare, 4>> >>
Lasts == << <<X, 2>>, <<Z, 4>>, <<ZZ(0, 3, 0, 0, 0), 6>>, <<ZZ(0, 1, 0, 2, 1), 11>>, <<XtimesY, 6>> >>
Eqs(m, k) == [j \in 1..m |-> Pool[((j + k) % 12) + 1]]
One1(e, off) == V(<<e[2] + off>>)
EqPlan(m, k, l) ==
    LET es == Eqs(m, k)
        as == [j \in 1..m |-> Mk(Backend, Dims(<<es[j][1]>>))]
        last == Mk(Backend, Dims(<<l[1]>>))
        ps == [j \in 1..m |-> Param(Name(j), "pk", <<AnnH(j)>>, <<>>)]
        vs == [j \in 1..m |-> One1(es[j], 0)]
        A == AnnH(m + 1)
    IN Plan(as \o <<last>> \o <<Mk(Backend, Dims(Map(LAMBDA e : e[1], es)))>>
            \o <<DefF(Append(ps, Param("z", "pk", <<A>>, <<>>)), <<>>), DefF(ps, <<A>>),
                 DefF(<<Param("y", "pk", <<AnnH(m + 2)>>, <<>>), Param("z", "pk", <<A>>, <<>>)>>, <<>>),
                 DefF(<<Param("z", "pk", <<A>>, <<>>)>>, <<AnnH(m + 2)>>)>>
            \o Cat(Map(LAMBDA off : <<Call(1, 1, Append(vs, One1(l, off)), <<>>), Ret(1, NoneObj), Call(2, 1, vs, <<>>), Ret(1, One1(l, off)),
                                      Call(3, 1, <<V(Map(LAMBDA e : e[2], es)), One1(l, off)>>, <<>>), Ret(1, NoneObj),
                                      Call(4, 1, <<One1(l, off)>>, <<>>), Ret(1, V(Map(LAMBDA e : e[2], es)))>>, <<0, 1, -1>>)))
Equations(z) == Cat(Map(LAMBDA m : Cat(Map(LAMBDA k : Map(LAMBDA l : EqPlan(m, k, l), Lasts), <<0, 5>>)), Upto(N)))

(* attrs *)
Att(a, n) == [a |-> a, t |-> "i", v |-> n]
All == <<Att("ndim", 2), Att("size", 6), [a |-> "shape", t |-> "s", v |-> <<2, 3>>], Att("itemsize", 8), Att("nbytes", 48)>>
Bump(a) == IF a.t = "i" THEN [a EXCEPT !.v = @ + 1] ELSE [a EXCEPT !.v = <<3, 2>>]
Rot(k) == [j \in 1..5 |-> All[((j + k) % 5) + 1]]
Attrs(z) == Map(LAMBDA c : LET at == SubSeq(Rot(c[1]), 1, c[2]) IN
                   Plan(Map(LAMBDA p : Mk("A", Item(<<>>, "l", <<>>, <<IF p = 0 THEN at ELSE [at EXCEPT ![p] = Bump(@)]>>, FALSE)), [j \in 1..(c[2] + 1) |-> j - 1])
                        \o Map(LAMBDA j : IsInst(H(j), Arr(<<2, 3>>)), Upto(c[2] + 1))
                        \o Map(LAMBDA j : DefF(<<Param("x", "pk", <<AnnH(j)>>, <<>>)>>, <<>>), Upto(c[2] + 1))
                        \o Cat(Map(LAMBDA j : <<Call(j, 1, <<Arr(<<2, 3>>)>>, <<>>), Ret(1, NoneObj)>>, Upto(c[2] + 1)))
                        \o Map(LAMBDA j : Eq(H(1), H(j)), Upto(c[2] + 1))),
                Cross(<<0, 1, 2, 3, 4>>, Upto(5)))

(* splice *)
\* written with a star
St(j) == [t |-> "S", s |-> j, st |-> TRUE]
Splice(z) == Cat(Map(LAMBDA n : Map(LAMBDA ds :
                   Plan(<<Mk(Backend, Dims(ds)), DefF(<<Param("x", "pk", <<H1>>, <<>>)>>, <<>>)>>
                        \o <<SetShape(1, Base(n)), SetShape(2, <<4, 1>>), GetShape(1)>>
                        \o Cat(Map(LAMBDA sh : <<Call(1, 1, <<V(sh)>>, <<>>), Ret(1, NoneObj)>>,
                                   Cat(Map(LAMBDA p : <<Off(Base(n), p), <<2>> \o Off(Base(n), p) \o <<2>>, Append(Off(Base(n), p), 4), Off(Base(n), p) \o <<4, 1>>>>, [j \in 1..(n + 1) |-> j - 1]))
                                   \o <<SubSeq(Base(n), 1, n - 1), Append(Base(n), 1)>>))),
                   << <<Sv(1)>>, <<I(2), Sv(1), X>>, <<Con(<<Sv(1), Tup(<<I(4), I(1)>>)>>)>>, <<Con(<<Tup(<<I(2)>>), Sv(1), Tup(<<X>>)>>)>>, <<Con(<<Sv(1), Sv(2)>>)>>, <<Ell, Sv(1)>>, <<St(1), I(4)>>, <<I(2), St(1), X>>, <<St(1)>> >>), Upto(N)))

Plans == CASE Kind = "long" -> Long(0) [] Kind = "longer" -> Longer(0) [] Kind = "depth" -> Depth(0) [] Kind = "rank" -> Rank(0) [] Kind = "spots" -> SpotsAll(0)
           [] Kind = "equations" -> Equations(0) [] Kind = "attrs" -> Attrs(0) [] Kind = "splice" -> Splice(0)
ASSUME Write(Sieve(Plans, Every, 1))
=============================================================================
