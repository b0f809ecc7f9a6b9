------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Where asta's settings come from.  A state is what the file system and   *)
(* the environment hold; the events write and remove configuration files,  *)
(* make directories packages, set ASTARC, and boot: start a process in the *)
(* working directory and observe the settings in force there.              *)
(*                                                                         *)
(* The working directory cwd lies in p1, p1 in p2, p2 in p3.               *)
(*   content  [k |-> "none"]       no such file                            *)
(*            [k |-> "unrelated"]  nothing of asta in it (toml, cfg)       *)
(*            [k |-> "dir"], [k |-> "dangling"]  a directory or a link to  *)
(*                                 nothing in the place of the file        *)
(*            [k |-> "empty"]      a file without settings                 *)
(*            [k |-> "master", s |-> sequence of [o |-> option, v |-> BOOLEAN], *)
(*             x |-> further settings [o |-> name, v |-> text] (optional)] *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Options == <<"on", "raise-errors", "print-passes", "check-non-asta-types", "check-all-sequence-elements">>
Packaged == [on |-> TRUE] @@ ("raise-errors" :> TRUE) @@ ("print-passes" :> TRUE)
            @@ ("check-non-asta-types" :> FALSE) @@ ("check-all-sequence-elements" :> TRUE)

\* Every place, the documented order.
Local == <<"cwd/astarc", "cwd/.astarc", "cwd/pyproject.toml", "cwd/setup.cfg">>
Parents(inits) ==
    (IF inits >= 1 THEN <<"p1/astarc", "p1/.astarc">> ELSE <<>>)
    \o (IF inits >= 2 THEN <<"p2/astarc", "p2/.astarc">> ELSE <<>>)
    \o (IF inits >= 3 THEN <<"p3/astarc", "p3/.astarc">> ELSE <<>>)
Personal(st) == IF st.astarc = "file" /\ st.fs["env"].k # "none" THEN <<"env">> ELSE <<"home/.astarc", "home/.config/astarc">>
Order(st) == Local \o Parents(st.inits) \o Personal(st) \o <<"etc">>
AllPlaces == Local \o Parents(3) \o <<"env", "home/.astarc", "home/.config/astarc", "etc">>
Places == {AllPlaces[j] : j \in 1..Len(AllPlaces)}

\* inits: how many of cwd, p1, p2 (in this order) are packages.
\* astarc: is ASTARC "unset", naming a "missing" file, or a "file" (if there is one)?
Initial == [fs |-> [p \in Places |-> [k |-> "none"]], inits |-> 0, astarc |-> "unset"]
Counts(c) == c.k \in {"empty", "master"}
Existing(st) == SelectSeq(Order(st), LAMBDA p : Counts(st.fs[p]))
Winner(st) == IF Existing(st) = <<>> THEN "none" ELSE Existing(st)[1]

Given(c) == IF c.k = "master" THEN c.s ELSE <<>>
RECURSIVE Apply(_, _)
Apply(set, s) == IF s = <<>> THEN set ELSE Apply([set EXCEPT ![Head(s).o] = Head(s).v], Tail(s))
\* Further settings are in force too; "yes" and "no" mean TRUE and FALSE there as well.
Further(c) == IF "x" \in DOMAIN c THEN c.x ELSE <<>>
Extra(st) == IF Winner(st) = "none" THEN <<>>
             ELSE LET x == Further(st.fs[Winner(st)])
                  IN [j \in 1..Len(x) |-> [o |-> x[j].o, v |-> IF x[j].v = "yes" THEN "T" ELSE IF x[j].v = "no" THEN "F" ELSE x[j].v]]
Settings(st) == Apply(Packaged, IF Winner(st) = "none" THEN <<>> ELSE Given(st.fs[Winner(st)]))

(***************************** Events **************************************)
R(st, why) == [st |-> st, why |-> why]
Clause(b, name) == IF b THEN {} ELSE {name}
Names(set) == <<set["on"], set["raise-errors"], set["print-passes"], set["check-non-asta-types"],
                set["check-all-sequence-elements"]>>
\* ev.env: ASTA_TYPECHECK, which must be unset or 1 for checking to be on.
\* obs: [warn |-> "F" if importing asta prints nothing, "T" if it prints the warning, x |-> the settings other than the
\* documented ones, sorted by name (xs: "F" if they cannot be read), err |-> "" or the exception, ox |-> settings read, on, raise, print, non, all |-> "T", "F" or "?" (not
\* observable): what decorated calls do]
Boot(st, ev) ==
    LET s == Settings(st)
        is(o, b) == o = "?" \/ (o = "T") = b
        w == ", in force: " \o Winner(st)
        active == s["on"] /\ ev.env \in {"unset", "1"}
    IN R(st, IF ev.obs.err # "" THEN {"config: the settings cannot be read: " \o ev.obs.err}
             ELSE UNION {Clause(ev.obs.ox = <<>> \/ ev.obs.ox = Names(s), "config: the settings differ from those of the first file" \o w),
                         Clause(ev.obs.xs = "F" \/ ev.obs.x = Extra(st), "config: further settings differ from those of the first file" \o w),
                         Clause(is(ev.obs.warn, active /\ ~s["print-passes"]), "warn: importing asta warns iff checking is on and silent" \o w),
                         Clause(is(ev.obs.on, active), "config: on does not decide whether functions are wrapped" \o w),
                         Clause(is(ev.obs.raise, s["raise-errors"]), "config: raise-errors does not decide whether violations raise" \o w),
                         Clause(is(ev.obs.print, s["print-passes"]), "config: print-passes does not decide the output" \o w),
                         Clause(is(ev.obs.non, s["check-non-asta-types"]), "config: check-non-asta-types has no effect" \o w),
                         Clause(is(ev.obs.all, s["check-all-sequence-elements"]), "config: check-all-sequence-elements has no effect" \o w)})
Step(st, ev) ==
    CASE ev.op = "write" -> R([st EXCEPT !.fs[ev.p] = ev.c], {})
      [] ev.op = "inits" -> R([st EXCEPT !.inits = ev.n], {})
      [] ev.op = "astarc" -> R([st EXCEPT !.astarc = ev.v], {})
      [] ev.op = "boot" -> Boot(st, ev)
=============================================================================
