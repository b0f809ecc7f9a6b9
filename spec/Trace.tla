------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: are the histories recorded from the real code         *)
(* behaviours of Asta?  The file named by TRACE holds one history per      *)
(* line: [cfg, nsh, evs].  Every history is walked event by event; each     *)
(* event whose observation Asta does not permit is printed with the        *)
(* violated clauses.  The walk goes on when they are about that observation *)
(* alone (an isinstance, a report, ...), and ends when the state of the real *)
(* code may now be another one than Asta's.  The number of distinct states *)
(* TLC reports must be the number of events walked plus the number of      *)
(* histories (checked by the caller), so nothing is skipped.               *)
(***************************************************************************)
EXTENDS Asta, Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, st, lost
vars == <<h, i, st, lost>>
Begins(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Local == {"isinst:", "eq:", "scalar:", "new:", "backend:", "report:", "name:", "raise:", "transparent:",
          "def: the decorated function keeps", "def: members which"}
Init == /\ h \in 1..Len(Histories)
        /\ i = 1 /\ lost = FALSE
        /\ st = InitState(Histories[h].cfg, Histories[h].nsh)
Next == /\ ~lost /\ i <= Len(Histories[h].evs)
        /\ LET r == Step(st, Histories[h].evs[i])
           IN /\ lost' = \E c \in r.why : \A p \in Local : ~Begins(c, p)
              /\ st' = r.st
              /\ \A c \in r.why : PrintT((IF lost' THEN "VIOLATED! " ELSE "VIOLATED ") \o ToString(h) \o " " \o ToString(i) \o " " \o c)
        /\ i' = i + 1
        /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================
