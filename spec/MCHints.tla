------------------------------- MODULE MCHints ------------------------------
(***************************************************************************)
(* Model check of the hint algebra: two hints are refined step by step, in *)
(* every way within the bounds, with subscripts from a small alphabet      *)
(* (well-formed and malformed, dtype / shape / attributes, alone and       *)
(* together).  Equality, acceptance and refinement must fit together.      *)
(***************************************************************************)
EXTENDS Hints
CONSTANTS MaxSteps
xx(p) == [t |-> "x", den |-> 1, fl |-> FALSE, ts |-> p]
X1 == <<0, 0, 1, 0, 0>>
Y1 == <<0, 0, 0, 1, 0>>
O1 == <<0, 0, 0, 0, 0>>
i(n) == [t |-> "i", v |-> n]
np(n) == [t |-> "np", n |-> n]
py(n) == [t |-> "py", n |-> n]
it(dt, form, ds, at) == [dt |-> dt, form |-> form, ds |-> ds, at |-> at, late |-> FALSE]
Dts == {<<>>, <<np("<f8")>>, <<py("float")>>, <<py("int")>>, <<py("str")>>, <<[t |-> "any"]>>, <<py("list")>>}
Shs == {[form |-> "l", ds |-> <<>>], [form |-> "t", ds |-> <<>>], [form |-> "l", ds |-> <<[t |-> "u"]>>],
        [form |-> "l", ds |-> <<i(2)>>], [form |-> "t", ds |-> <<i(2)>>], [form |-> "l", ds |-> <<xx(<< <<1, X1>> >>)>>],
        [form |-> "l", ds |-> <<xx(<< <<1, X1>>, <<1, Y1>> >>), [t |-> "e"]>>],
        [form |-> "l", ds |-> <<xx(<< <<1, Y1>>, <<1, X1>> >>), [t |-> "e"]>>],
        [form |-> "l", ds |-> <<xx(<< <<2, O1>> >>)>>],
        [form |-> "l", ds |-> <<[t |-> "S", s |-> 1]>>],
        [form |-> "l", ds |-> <<[t |-> "e"], [t |-> "e"]>>], [form |-> "l", ds |-> <<[t |-> "b", k |-> "str"]>>],
        [form |-> "l", ds |-> <<i(2), [t |-> "u"]>>]}
Ats == {<<>>, << <<[a |-> "ndim", t |-> "i", v |-> 1]>> >>, << <<>> >>,
        << <<[a |-> "size", t |-> "x", den |-> 1, ts |-> << <<1, X1>> >>], [a |-> "ndim", t |-> "i", v |-> 1]>> >>,
        << <<[a |-> "ndim", t |-> "i", v |-> 1], [a |-> "size", t |-> "x", den |-> 1, ts |-> << <<1, X1>> >>]>> >>}
Dm == [j \in DimVars |-> Unset]
Sm == << [set |-> FALSE, v |-> <<>>] >>
\* subscripts with one part, and with all three
Items == {it(d, "l", <<>>, <<>>) : d \in Dts} \cup {it(<<>>, s.form, s.ds, <<>>) : s \in Shs}
         \cup {it(<<>>, "l", <<>>, a) : a \in Ats}
         \cup {it(<<py("int")>>, s.form, s.ds, a) : s \in Shs, a \in Ats}
Part(x) == it(x.dt, "l", <<>>, <<>>)
S(h, x) == Sub(h, x, Dm, Sm)

VARIABLES g, h, n, lg, lh
Init == g = Bare("A") /\ h = Bare("A") /\ n = 0 /\ lg = {} /\ lh = {}
Step(a, b, la, x) == /\ S(a, x).ok /\ b = S(a, x).h
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E x \in Items : \/ S(g, x).ok /\ g' = S(g, x).h /\ lg' = {x} /\ UNCHANGED <<h, lh>>
                            \/ S(h, x).ok /\ h' = S(h, x).h /\ lh' = {x} /\ UNCHANGED <<g, lg>>
Spec == Init /\ [][Next]_<<g, h, n, lg, lh>>

arr(nm, k, z, sh) == [t |-> "a", b |-> "A", n |-> nm, k |-> k, z |-> z, sh |-> sh, tag |-> <<>>]
Types == {<<"<f8", "f", 8>>, <<"<i8", "i", 8>>, <<"<U3", "U", 12>>}
Shapes == {<<>>, <<0>>, <<2>>, <<3>>, <<2, 3>>}
Vals == {arr(t[1], t[2], t[3], s) : t \in Types, s \in Shapes}
Known(a) == a.sh.k = "no" \/ ~Late(a.sh.ds)
Accepts(a) == {v \in Vals : TRUE \in IsInstance(a, v)}

\* C19: equality is reflexive and symmetric, and equal hints accept the same values
EqReflexive == EqHint(g, g) # "no" /\ (g.sh.k = "no" => EqHint(g, g) = "yes")
EqSymmetric == EqHint(g, h) = EqHint(h, g)
EqSound == EqHint(g, h) = "yes" /\ Known(g) /\ Known(h) => Accepts(g) = Accepts(h)
\* C18: equal hints refine to equal hints
EqCongruent == EqHint(g, h) = "yes" =>
    \A x \in Items : S(g, x).ok = S(h, x).ok /\ (S(g, x).ok => EqHint(S(g, x).h, S(h, x).h) # "no")
\* C18: a second refinement by the same subscript changes nothing
Idempotent == \A x \in lg : S(g, x).ok /\ S(g, x).h = g
\* C18: the parts of a hint are refined independently, in any order
OneDt == {x \in Items : x.ds = <<>> /\ x.form = "l" /\ x.at = <<>>}
OneSh == {x \in Items : x.dt = <<>> /\ x.at = <<>>}
OneAt == {x \in Items : x.dt = <<>> /\ x.ds = <<>> /\ x.form = "l"}
Then(a, x, y) == IF S(a, x).ok THEN S(S(a, x).h, y) ELSE Refused
Commute ==
    /\ \A x \in OneDt, y \in OneSh : Then(g, x, y) = Then(g, y, x)
    /\ \A x \in OneDt, y \in OneAt : Then(g, x, y) = Then(g, y, x)
    /\ \A x \in OneSh, y \in OneAt : Then(g, x, y) = Then(g, y, x)
\* C18: and together they mean what they mean one after the other
Together == \A d \in OneDt, s \in OneSh :
    Then(g, d, s) = S(g, it(d.dt, s.form, s.ds, <<>>))
\* C18: the last one wins
LastWins == \A x, y \in OneSh : S(g, x).ok /\ S(g, y).ok /\ y.ds # <<>> => Then(g, x, y) = S(g, y)
\* C20: whether a subscript is malformed does not depend on the hint it is applied to
Malformed == \A x \in Items : S(g, x).ok = S(Bare("A"), x).ok
\* C01, C18: refining only narrows what the unrefined class accepts
Narrower == Known(g) => Accepts(g) \subseteq Accepts(Bare("A"))
=============================================================================
