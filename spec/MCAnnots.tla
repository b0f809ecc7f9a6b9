------------------------------ MODULE MCAnnots ------------------------------
(***************************************************************************)
(* Model check of the meaning of annotations: one state per annotation and *)
(* value of a small family.  The direct meaning (Conf) gives the symbol a  *)
(* value first and then looks only for yes or no, without outcomes,        *)
(* equations and candidates.                                               *)
(***************************************************************************)
EXTENDS Annots
CONSTANTS Nested, Full       \* annotations nest one deeper; check every element
X == PVar(3)
H(ds) == [Bare("A") EXCEPT !.sh = [k |-> "sh", ds |-> ds]]
xd(p) == [t |-> "x", den |-> 1, fl |-> FALSE, p |-> p]
Hs == << H(<<xd(X)>>), H(<<[t |-> "i", v |-> 2]>>), H(<<xd(PAdd(X, PConst(1)))>>) >>
arr(n) == [t |-> "a", b |-> "A", n |-> "<f8", k |-> "f", z |-> 8, sh |-> <<n>>, tag |-> <<>>]
int == [t |-> "o", c |-> "int", v |-> "7"]
str == [t |-> "o", c |-> "str", v |-> "k"]
none == [t |-> "o", c |-> "none", v |-> "None"]
Atoms == {[t |-> "h", h |-> j] : j \in 1..3} \cup {[t |-> "N"], [t |-> "c", c |-> "int"], [t |-> "c", c |-> "object"]}
Over(A) == {[t |-> k, a |-> a] : k \in {"L", "Q", "s", "V"}, a \in A}
           \cup {[t |-> "T", as |-> <<a, b>>] : a, b \in A}
           \cup {[t |-> "D", ka |-> [t |-> "c", c |-> "str"], va |-> a] : a \in A}
           \cup {[t |-> "td", ks |-> <<"k", "m">>, as |-> <<a, b>>, rq |-> rq] : a, b \in A, rq \in {<<>>, <<"m">>, <<"k", "m">>}}
           \cup {[t |-> "nt", c |-> "P", fs |-> <<"p">>, as |-> <<a>>] : a \in A}
           \cup {[t |-> "U", as |-> <<a, b>>] : a, b \in A}
Few == {[t |-> "h", h |-> 1], [t |-> "h", h |-> 2], [t |-> "N"]}
Deep == {[t |-> "L", a |-> [t |-> "h", h |-> 1]], [t |-> "V", a |-> [t |-> "h", h |-> 3]],
         [t |-> "U", as |-> <<[t |-> "h", h |-> 2], [t |-> "N"]>>], [t |-> "h", h |-> 1], [t |-> "h", h |-> 3]}
Anns == Atoms \cup Over(Atoms) \cup (IF Nested THEN Over(Deep) ELSE {})
Leaves == {arr(1), arr(2), int, none}
Box1(es) == {[t |-> k, es |-> es] : k \in {"L", "T", "q", "s", "fs"}}
          \cup (IF Len(es) = 1 THEN {[t |-> "nt", c |-> c, es |-> es] : c \in {"P", "P/sub", "P/twin", "Q"}} ELSE {})
Keys(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<str>>, <<int>>} ELSE {<<str, [str EXCEPT !.v = "m"]>>}
Boxes(V) == UNION {Box1(es) : es \in UNION {[1..n -> V] : n \in 0..2}}
            \cup UNION {{[t |-> "D", ks |-> ks, es |-> es] : ks \in Keys(Len(es))} : es \in UNION {[1..n -> V] : n \in 0..2}}
Inner == {[t |-> "L", es |-> <<arr(1)>>], [t |-> "T", es |-> <<arr(2)>>], [t |-> "L", es |-> <<>>], arr(1), arr(2)}
Vals == Leaves \cup {str} \cup Boxes(Leaves) \cup (IF Nested THEN Boxes(Inner) ELSE {})
Cfg == [raise |-> TRUE, print |-> TRUE, non |-> TRUE, all |-> Full]
E == [dm |-> [j \in DimVars |-> Unset], sm |-> <<>>, hs |-> Hs, cfg |-> Cfg]

VARIABLES a, v
Init == a \in Anns /\ v \in Vals
Next == FALSE /\ UNCHANGED <<a, v>>
Spec == Init /\ [][Next]_<<a, v>>

\* Does v conform to annotation t when X = x?  all: look at every element of lists and sequences.
RECURSIVE Conf(_, _, _, _)
Conf(t, u, x, all) ==
    LET es == u.es
        each(s, ann, every) == \A j \in 1..Len(s) : (every \/ j = 1) => Conf(ann, s[j], x, all)
        size == u.sh[1]
        key(j) == u.ks[j].v
    IN CASE t.t = "h" -> u.t = "a" /\ (CASE t.h = 1 -> size = x [] t.h = 2 -> size = 2 [] t.h = 3 -> size = x + 1)
         [] t.t = "N" -> u = none
         [] t.t = "c" -> t.c = "object" \/ (u.t = "o" /\ u.c = t.c)
         [] t.t = "L" -> u.t = "L" /\ each(es, t.a, all)
         [] t.t = "Q" -> \/ u.t \in {"L", "T", "q", "nt"} /\ each(es, t.a, all)
                         \/ u.t = "o" /\ u.c = "str" /\ Conf(t.a, str, x, all)    \* a string is a sequence of strings
         [] t.t = "s" -> u.t \in {"s", "fs"} /\ each(es, t.a, TRUE)
         [] t.t = "V" -> u.t \in {"T", "nt"} /\ each(es, t.a, TRUE)
         [] t.t = "T" -> u.t \in {"T", "nt"} /\ Len(es) = Len(t.as) /\ \A j \in 1..Len(es) : Conf(t.as[j], es[j], x, all)
         [] t.t = "D" -> u.t = "D" /\ each(u.ks, t.ka, TRUE) /\ each(es, t.va, TRUE)
         [] t.t = "td" -> /\ u.t = "D"
                          /\ \A j \in 1..Len(u.ks) : \E k \in 1..Len(t.ks) :
                                key(j) = t.ks[k] /\ Conf(t.as[k], es[j], x, all)
                          /\ \A k \in 1..Len(t.rq) : \E j \in 1..Len(u.ks) : key(j) = t.rq[k]
         [] t.t = "nt" -> u.t = "nt" /\ u.c \in {t.c, t.c \o "/sub"} /\ \A j \in 1..Len(es) : Conf(t.as[j], es[j], x, all)
         [] t.t = "U" -> \E j \in 1..Len(t.as) : Conf(t.as[j], u, x, all)
Some(t, u, all) == \E x \in -1..4 : Conf(t, u, x, all)
Outcomes(t, u) == Check(t, u, "a", "a", E)
Verdict(t, u) == LET ver == Verdicts(Outcomes(t, u), {})
                 IN (IF ver.acc # {} THEN {TRUE} ELSE {}) \cup (IF ver.rej THEN {FALSE} ELSE {})
RECURSIVE HasUnion(_)
HasUnion(t) == CASE t.t = "U" -> TRUE
                 [] t.t \in {"L", "Q", "s", "V"} -> HasUnion(t.a)
                 [] t.t = "D" -> HasUnion(t.va)
                 [] t.t \in {"T", "td", "nt"} -> \E j \in 1..Len(t.as) : HasUnion(t.as[j])
                 [] OTHER -> FALSE
RECURSIVE HasSymbol(_)
HasSymbol(t) == CASE t.t = "h" -> t.h # 2
                  [] t.t \in {"L", "Q", "s", "V"} -> HasSymbol(t.a)
                  [] t.t = "D" -> HasSymbol(t.va)
                  [] t.t \in {"T", "td", "nt", "U"} -> \E j \in 1..Len(t.as) : HasSymbol(t.as[j])
                  [] OTHER -> FALSE

\* C12, C13: what is decided is right; without unions, or without symbols, everything is decided
Right == /\ Verdict(a, v) = {TRUE} => Some(a, v, Full)
         /\ Verdict(a, v) = {FALSE} => (HasUnion(a) /\ HasSymbol(a)) \/ ~Some(a, v, Full)
Decided == ~HasUnion(a) \/ ~HasSymbol(a) => Cardinality(Verdict(a, v)) = 1
\* C13: a union of one value accepts it whatever the position of the alternative, unless symbols are involved
Order == a.t = "U" /\ ~HasSymbol(a) => Verdict(a, v) = Verdict([a EXCEPT !.as = <<a.as[2], a.as[1]>>], v)
\* C13: what an alternative accepts by itself, the union does not refuse for sure
Offers == a.t = "U" /\ (\E j \in 1..2 : Verdict(a.as[j], v) = {TRUE}) => TRUE \in Verdict(a, v)
\* C12: with check-sequence-elements=no everything accepted before is still accepted
Weaker == Full /\ ~HasUnion(a) /\ Verdict(a, v) = {TRUE} =>
             Verdicts(Check(a, v, "a", "a", [E EXCEPT !.cfg.all = FALSE]), {}).acc # {}
\* C16: a passed check reports one line for each array hint it met, nested in the argument
Lines == ~HasUnion(a) => \A o \in Outcomes(a, v) : o.ok => Cardinality({o.ps[j] : j \in 1..Len(o.ps)}) = Len(o.ps) \/ a.t = "s"
\* C16: a failed one names the argument
Names == \A o \in Outcomes(a, v) : ~o.ok => o.nm # {}
=============================================================================
