------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* Model check of Config: every state reachable by writing and removing    *)
(* files (each place has one kind of content of its own), making           *)
(* directories packages and setting ASTARC.                                *)
(***************************************************************************)
EXTENDS Config, FiniteSets
CONSTANT Used          \* how many of the places may hold a file
VARIABLE st
Init == st = Initial
Content(p) == [k |-> "master", s |-> <<[o |-> "on", v |-> FALSE]>>]
Some == {AllPlaces[j] : j \in 1..Used}
Do(ev) == st' = Step(st, ev).st
Next == \/ \E p \in Some, k \in {"none", "unrelated", "empty", "dir", "master"} :
             /\ k = "unrelated" => p \in {"cwd/pyproject.toml", "cwd/setup.cfg"}
             /\ k = "empty" => p \in {"cwd/astarc", "p1/.astarc"}
             /\ k = "dir" => p \in {"cwd/.astarc", "home/.astarc"}
             /\ Do([op |-> "write", p |-> p, c |-> IF k = "master" THEN Content(p) ELSE [k |-> k]])
        \/ \E n \in 0..3 : Do([op |-> "inits", n |-> n])
        \/ \E v \in {"unset", "missing", "file"} : Do([op |-> "astarc", v |-> v])
Spec == Init /\ [][Next]_st

Pos(p) == LET o == Order(st) IN IF \E j \in 1..Len(o) : o[j] = p THEN CHOOSE j \in 1..Len(o) : o[j] = p ELSE 0
\* Every option always has a value.
Total == DOMAIN Settings(st) = {Options[j] : j \in 1..Len(Options)}
\* No file before the winner counts, whatever is behind it.
First == \A p \in Places : Pos(p) > 0 /\ Counts(st.fs[p])
            => Winner(st) # "none" /\ Pos(Winner(st)) <= Pos(p)
DefaultsWithoutFiles == Winner(st) = "none" => Settings(st) = Packaged
\* A step which changes neither the winner's file nor what stands before it changes no setting.
Local1 == [][Winner(st') = Winner(st) /\ (Winner(st) = "none" \/ st'.fs[Winner(st)] = st.fs[Winner(st)])
             => Settings(st') = Settings(st)]_st
=============================================================================
