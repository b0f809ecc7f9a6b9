---------------------------- MODULE ConfigTrace -----------------------------
(* Trace validation for Config, as Trace does it for Asta (no observation *)
(* can make the state of Config another one). *)
EXTENDS Config, Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, st
vars == <<h, i, st>>
Init == h \in 1..Len(Histories) /\ i = 1 /\ st = Initial
Next == /\ i <= Len(Histories[h].evs)
        /\ LET r == Step(st, Histories[h].evs[i])
           IN /\ st' = r.st
              /\ \A c \in r.why : PrintT("VIOLATED " \o ToString(h) \o " " \o ToString(i) \o " " \o c)
        /\ i' = i + 1
        /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================
