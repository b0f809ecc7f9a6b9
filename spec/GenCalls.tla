------------------------------ MODULE GenCalls ------------------------------
(***************************************************************************)
(* Signatures of hints which share symbols, with every assignment of       *)
(* shapes to the arguments and the result.                                 *)
(*   pairs    two arguments and a result, each of one dimension            *)
(*   default  the second argument passed or left to its default            *)
(*   nested   one argument in a container and another beside it            *)
(*   wide     hints of two dimensions and one of one dimension             *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Kind, Sizes, Backend
Exprs == <<I(2), X, Y, XplusN(1), XtimesN(2), XplusY>>
Few == <<X, XplusN(1), XplusY>>
S == [j \in 1..Sizes |-> j]
V(sh) == Val(Backend, sh)
Ones == Map(LAMBDA s : V(<<s>>), S)
Triple(s, t, u) == Map(LAMBDA c : <<c[1][1], c[1][2], c[2]>>, Cross(Cross(s, t), u))
Use(c) == <<Call(1, 1, <<c[1], c[2]>>, <<>>), Ret(1, c[3])>>
Hints(c) == <<Mk(Backend, Dims(<<c[1]>>)), Mk(Backend, Dims(<<c[2]>>)), Mk(Backend, Dims(<<c[3]>>))>>
P2(df) == <<Param("x", "pk", <<AnnH(1)>>, <<>>), Param("y", "pk", <<AnnH(2)>>, df)>>

Pairs == Map(LAMBDA c : Plan(Hints(c) \o <<DefF(P2(<<>>), <<AnnH(3)>>)>> \o Cat(Map(Use, Triple(Ones, Ones, Ones)))),
             Triple(Exprs, Exprs, Exprs))

\* y left to its default, given by name, given by position, given by name before x
Forms(c) == <<Call(1, 1, <<c[1]>>, <<>>), Ret(1, c[3]),
              Call(1, 1, <<c[1]>>, <<[n |-> "y", v |-> c[2]]>>), Ret(1, c[3]),
              Call(1, 1, <<>>, <<[n |-> "y", v |-> c[2]], [n |-> "x", v |-> c[1]]>>), Ret(1, c[3])>>
Default == Map(LAMBDA c : Plan(Hints(c[1]) \o <<DefF(P2(<<V(<<c[2]>>)>>), <<AnnH(3)>>)>>
                               \o Cat(Map(Forms, Triple(Ones, Ones, Ones)))),
               Cross(Triple(Few, Few, Few), S))

\* x: a container of the first hint (twice), y: the second, returning the third
K(s) == StrObj(s)
Wraps == <<[t |-> "L", a |-> AnnH(1)], [t |-> "V", a |-> AnnH(1)], [t |-> "T", as |-> <<AnnH(1), AnnH(2)>>],
           [t |-> "D", ka |-> [t |-> "any"], va |-> AnnH(1)], [t |-> "Q", a |-> AnnH(1)], [t |-> "s", a |-> [t |-> "any"]],
           [t |-> "U", as |-> <<AnnH(1), [t |-> "L", a |-> AnnH(1)]>>],
           [t |-> "td", ks |-> <<"p", "q">>, as |-> <<AnnH(1), AnnH(2)>>, rq |-> <<"p">>],
           [t |-> "nt", c |-> "NT1", fs |-> <<"f", "g">>, as |-> <<AnnH(2), AnnH(1)>>]>>
Hold(w, p, q) == CASE w.t = "D" \/ w.t = "td" -> [t |-> "D", ks |-> <<K("p"), K("q")>>, es |-> <<p, q>>]
                   [] w.t = "nt" -> [t |-> "nt", c |-> "NT1", es |-> <<p, q>>]
                   [] w.t \in {"T", "V"} -> [t |-> "T", es |-> <<p, q>>]
                   [] w.t = "s" -> [t |-> "s", es |-> <<>>]
                   [] OTHER -> [t |-> "L", es |-> <<p, q>>]
Nested == Map(LAMBDA c : LET w == c[2] IN
                  Plan(Hints(c[1]) \o <<DefF(<<Param("x", "pk", <<w>>, <<>>), Param("y", "pk", <<AnnH(2)>>, <<>>)>>, <<AnnH(3)>>)>>
                       \o Cat(Map(LAMBDA v : <<Call(1, 1, <<Hold(w, v[1][1], v[1][2]), v[1][3]>>, <<>>), Ret(1, v[2])>>,
                                  Cross(Triple(Ones, Ones, Ones), Ones)))),
              Cross(Triple(Few, Few, <<Y, XplusY>>), Wraps))

Two == <<<<X, X>>, <<X, Y>>, <<X, XplusN(1)>>, <<XplusY, X>>, <<X, I(2)>>, <<Ell, X>>, <<X, Ell>>, <<W, X>>, <<XtimesY, Y>>>>
Pool == Cat(Map(LAMBDA s : Map(LAMBDA t : V(<<s, t>>), S), S))
Wide == Map(LAMBDA c : Plan(<<Mk(Backend, Dims(c[1])), Mk(Backend, Dims(<<c[2]>>)), Mk(Backend, Dims(<<c[3]>>)),
                              DefF(P2(<<>>), <<AnnH(3)>>)>>
                            \o Cat(Map(Use, Triple(Pool, Ones, Ones)))),
            Triple(Two, <<X, Y, XplusY>>, <<X, Y>>))

ASSUME Write(CASE Kind = "pairs" -> Pairs [] Kind = "default" -> Default [] Kind = "nested" -> Nested [] Kind = "wide" -> Wide)
=============================================================================
