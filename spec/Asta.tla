-------------------------------- MODULE Asta --------------------------------
(***************************************************************************)
(* asta as a transition system.  A state holds the dims and shapes stores, *)
(* the hints and functions made so far, the environment switch and, per    *)
(* thread, the stack of decorated calls in progress; an event is what a    *)
(* client does (with the observation obs it makes).  Step(st, ev) gives    *)
(* the successor state and why, the set of clauses which the observation  *)
(* violates: empty if the specification permits it.                        *)
(*                                                                         *)
(* A frame keeps only the candidate equation systems of its own call: the  *)
(* state has no place in which a binding could survive a call.             *)
(***************************************************************************)
EXTENDS Annots

\* cfg: [on, raise, print, non, all]
InitState(cfg, nsh) ==
    [cfg |-> cfg, dm |-> [i \in DimVars |-> Unset],
     sm |-> [j \in 1..nsh |-> [set |-> FALSE, v |-> <<>>]],
     hs |-> <<>>, fs |-> <<>>, env |-> "unset",
     stk |-> [t \in 1..3 |-> <<>>]]

R(st, why) == [st |-> st, why |-> why]
Clause(b, name) == IF b THEN {} ELSE {name}
\* All violated clauses of a sequence of clauses.
All(cs) == UNION {cs[j] : j \in 1..Len(cs)}

(***************************** Stores **************************************)
SetDim(st, ev) ==
    IF ev.bad THEN R(st, Clause(ev.obs = "TypeError", "store: dims must refuse a value which is no int"))
    ELSE R([st EXCEPT !.dm[ev.i] = ev.v], Clause(ev.obs = "ok", "store: dims must accept an int"))
GetDim(st, ev) ==
    R(st, IF st.dm[ev.i] = Unset
          THEN Clause(ev.obs.k = "sym" /\ ev.obs.same, "store: an unset dim reads as the same symbol each time")
          ELSE Clause(ev.obs.k = "int" /\ ev.obs.v = st.dm[ev.i], "store: a dim reads back the value set"))
SetShape(st, ev) ==
    IF ev.bad THEN R(st, Clause(ev.obs = "TypeError", "store: shapes must refuse what is no tuple of ints"))
    ELSE R([st EXCEPT !.sm[ev.i] = [set |-> TRUE, v |-> ev.v]],
           Clause(ev.obs = "ok", "store: shapes must accept a tuple of ints"))
GetShape(st, ev) ==
    R(st, IF ~st.sm[ev.i].set
          THEN Clause(ev.obs.k = "ph" /\ ev.obs.same, "store: an unset shape reads as the same placeholder each time")
          ELSE Clause(ev.obs.k = "tup" /\ ev.obs.v = st.sm[ev.i].v, "store: a shape reads back the value set"))

\* Whatever dims and shapes hold, asta.symbols yields symbols.
GetSymbol(st, ev) ==
    R(st, Clause(ev.obs.k = "sym" /\ ev.obs.same, "store: symbols are symbols, equal for equal names"))
\* A shape variable + something which is no tuple of ints, no expression and no shape variable.
BadConcat(st, ev) == R(st, Clause(ev.obs = "TypeError", "mk: concatenating a shape with anything else is a TypeError"))

(***************************** Hints ***************************************)
HintOf(st, x) == IF x.b # "" THEN Bare(x.b) ELSE st.hs[x.h]
Mk(st, ev) ==
    LET s == Sub(HintOf(st, ev.from), ev.it, st.dm, st.sm)
    IN IF s.ok THEN R([st EXCEPT !.hs = Append(@, s.h)], Clause(ev.obs = "ok", "mk: a well-formed subscript succeeds"))
       ELSE R([st EXCEPT !.hs = Append(@, HintOf(st, ev.from))],
              Clause(ev.obs = "TypeError", "mk: a malformed subscript raises TypeError"))
IsInst(st, ev) ==
    LET h == HintOf(st, ev.h)
    IN R(st, IF h.sh.k = "sh" /\ Late(h.sh.ds) THEN {}
             ELSE All(<<Clause(ev.obs \in {"T", "F"}, "isinst: isinstance must answer"),
                          Clause((ev.obs = "T") \in IsInstance(h, ev.v),
                                 IF ev.obs = "T" THEN "isinst: isinstance accepts a value the hint does not describe"
                                 ELSE "isinst: isinstance rejects a value the hint describes")>>))
Eq(st, ev) ==
    LET e == EqHint(HintOf(st, ev.x), HintOf(st, ev.y)) IN
    R(st, IF ev.obs.k # "ok" THEN {"eq: comparing and hashing hints must answer"}
          ELSE All(<<Clause(ev.obs.e = ev.obs.r /\ ev.obs.e # ev.obs.ne, "eq: equality is symmetric and != its negation"),
                  Clause(e = "yes" => ev.obs.e, "eq: hints with equal parts are equal"),
                  Clause(e = "no" => ~ev.obs.e, "eq: hints with different parts are unequal"),
                  Clause(ev.obs.e => ev.obs.h, "eq: equal hints have equal hashes")>>))
\* Hints as dictionary keys, set members and inside typing generics.
Key(st, ev) ==
    LET e == EqHint(HintOf(st, ev.x), HintOf(st, ev.y)) IN
    R(st, IF ev.obs.k # "ok" THEN {"eq: hints must work as keys, members and type arguments"}
          ELSE LET b == {ev.obs.d, ev.obs.s, ev.obs.l}
               IN All(<<Clause(e = "yes" => b = {TRUE}, "eq: equal hints are the same key, member and type argument"),
                        Clause(e = "no" => b = {FALSE}, "eq: different hints are different keys, members and type arguments")>>))
IsScalarInst(st, ev) == R(st, Clause(ev.obs = (IF IsScalar(ev.v) THEN "T" ELSE "F"), "scalar: Scalar describes single values and arrays without dimensions"))
EqOther(st, ev) == R(st, Clause(ev.obs = "F", "eq: a hint is unequal to anything else"))
NewInst(st, ev) == R(st, Clause(ev.obs = "TypeError", "new: hints cannot be instantiated"))

\* Using the exported class of a backend; have: the backends which can be
\* imported.  Without its backend a class can be imported and named, all else
\* is an ImportError naming the missing module.
Present(st, b) == \E j \in 1..Len(st.cfg.have) : st.cfg.have[j] = b
\* uses which must answer with a present backend whatever is used
Tame == {"name", "eq", "req", "ne", "same", "repr", "str", "format", "isinst", "in"}
Use(st, ev) ==
    R(st, IF ~Present(st, ev.b)
          THEN IF ev.w = "name" THEN Clause(ev.obs = "ok", "backend: a class without its backend can be imported and named")
               ELSE Clause(ev.obs = "ImportError", "backend: using a class without its backend is an ImportError naming the module")
          ELSE IF ev.w \in Tame THEN Clause(ev.obs = "ok", "backend: a class with its backend can be used")
          ELSE Clause(ev.obs # "ImportError", "backend: a class with its backend can be used"))

(***************************** Functions ***********************************)
Enabled(st) == st.cfg.on /\ st.env \in {"unset", "1"}
\* A class decoration adds its methods one by one.  A member is
\* [ps |-> params, ret |-> 0 or 1 annotations, dec |-> decorated (annotated)].
Def(st, ev) ==
    LET chk(m) == Enabled(st) /\ m.dec
        new == [j \in 1..Len(ev.ms) |-> [chk |-> chk(ev.ms[j]), ps |-> ev.ms[j].ps, ret |-> ev.ms[j].ret]]
    IN R([st EXCEPT !.fs = @ \o new],
         All(<<Clause(ev.obs.k = "ok", "def: decorating succeeds"),
                 Clause(Enabled(st) \/ ev.obs.same, "switch: switched off, typechecked returns its very argument"),
                 Clause(ev.cls => ev.obs.same, "def: decorating a class returns the same class"),
                 Clause(ev.cls \/ ~Enabled(st) \/ ~ev.obs.same, "switch: switched on, the function is wrapped"),
                 Clause(ev.obs.name, "def: the decorated function keeps __name__ and __module__"),
                 Clause(ev.obs.rest, "def: members which need no checking are left alone")>>))
SetEnv(st, ev) == R([st EXCEPT !.env = ev.v], {})

\* Python's rules for binding arguments to parameters
\* [n |-> name, k |-> "po" / "pk" / "ko", an |-> 0 or 1 annotations, df |-> 0 or 1 values].
Bind(ps, pos, kw) ==
    LET P == SelectSeq(ps, LAMBDA p : p.k \in {"po", "pk"})
        isPos(j) == Len(SelectSeq(SubSeq(ps, 1, j), LAMBDA p : p.k \in {"po", "pk"})) <= Len(pos)
                    /\ ps[j].k \in {"po", "pk"}
        byKw(j) == {k \in 1..Len(kw) : kw[k].n = ps[j].n /\ ps[j].k # "po"}
        ok == /\ Len(pos) <= Len(P)
              /\ \A k \in 1..Len(kw) : \E j \in 1..Len(ps) : k \in byKw(j)
              /\ \A k, l \in 1..Len(kw) : kw[k].n = kw[l].n => k = l
              /\ \A j \in 1..Len(ps) : IF isPos(j) THEN byKw(j) = {}
                                       ELSE byKw(j) # {} \/ ps[j].df # <<>>
        val(j) == IF isPos(j) THEN pos[j]     \* positional parameters come first
                  ELSE IF byKw(j) # {} THEN kw[CHOOSE k \in byKw(j) : TRUE].v
                  ELSE ps[j].df[1]
    IN IF ok THEN [ok |-> TRUE, vs |-> [j \in 1..Len(ps) |-> val(j)]] ELSE [ok |-> FALSE]

EnvOf(st) == [dm |-> st.dm, sm |-> st.sm, hs |-> st.hs, cfg |-> st.cfg]

(***************************** Reports *************************************)
\* out: [hdr |-> functions named by headers, first |-> the output starts with
\* one, ps |-> PASSED lines, nf |-> number of FAILED lines, ot |-> other lines]
Silent(o) == o.hdr = <<>> /\ o.ps = <<>> /\ o.nf = 0 /\ o.ot = 0
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SameBag(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Count(s, s[j]) = Count(t, s[j])
\* the output of an accepted stage ("entry" prints the header)
Accepted(st, f, o, ps, entry) ==
    IF st.cfg.print
    THEN All(<<Clause(o.hdr = (IF entry THEN <<f>> ELSE <<>>), "report: one header, naming the function, starts each call"),
                 Clause(~entry \/ o.first, "report: the header comes first"),
                 Clause(o.nf = 0, "report: no FAILED line for a conforming value"),
                 Clause(SameBag(o.ps, ps), "report: one PASSED line per successful array check"),
                 Clause(o.ot = 0, "report: nothing else is printed")>>)
    ELSE Clause(Silent(o), "report: an accepted call prints nothing with print-passes=no")
\* the output of a stage which found a violation
Rejected(st, f, o, entry) ==
    All(<<Clause(st.cfg.raise \/ o.nf > 0, "report: a violation is reported FAILED"),
            Clause(~(st.cfg.print /\ entry) \/ (o.hdr = <<f>> /\ o.first), "report: one header, naming the function, starts each call"),
            Clause(st.cfg.print \/ (o.hdr # <<>> /\ \A j \in 1..Len(o.hdr) : o.hdr[j] = f),
                   "report: a report carries the header of the function whose check failed")>>)

(***************************** Calls ***************************************)
Push(st, th, fr) == [st EXCEPT !.stk[th] = Append(@, fr)]
Pop(st, th) == [st EXCEPT !.stk[th] = SubSeq(@, 1, Len(@) - 1)]
Top(st, th) == st.stk[th][Len(st.stk[th])]

Call(st, ev) ==
    LET f == st.fs[ev.f]
        b == Bind(f.ps, ev.pos, ev.kw)
        o == ev.obs
        E == EnvOf(st)
        unann == \E j \in 1..Len(f.ps) : f.ps[j].an = <<>>
        entered(q) == Push(st, ev.th, [f |-> ev.f, q |-> q, lost |-> q = {}])
        \* entered after a report: which system is left to extend is unspecified
        astray(q) == Push(st, ev.th, [f |-> ev.f, q |-> q, lost |-> TRUE])
        typeError == R(st, Clause(o.k = "TypeError", "bind: a call Python or the signature rejects raises TypeError"))
        transparent == Clause(o.same, "transparent: the body receives exactly the caller's arguments")
    IN IF ~b.ok THEN IF o.k = "enter" THEN R(entered({}), {"bind: a call Python rejects must not run the body"}) ELSE typeError
       ELSE IF ~f.chk
            THEN IF o.k # "enter" THEN R(st, {"switch: an unchecked function is simply called"})
                 ELSE R(entered({}), All(<<transparent, Clause(Silent(o.out), "switch: an unchecked function prints nothing")>>))
       ELSE IF unann THEN IF o.k = "enter" THEN R(entered({}), {"bind: a function with an unannotated parameter is refused"}) ELSE typeError
       ELSE
       LET os == ArgOutcomes([j \in 1..Len(f.ps) |-> [n |-> f.ps[j].n, a |-> f.ps[j].an[1], v |-> b.vs[j]]], E)
           ver == Verdicts(os, {})
           fits == {x \in ver.acc : Accepted(st, ev.f, o.out, x.ps, TRUE) = {}}
       IN IF o.k = "enter" THEN
             IF st.cfg.raise THEN
                R(entered({x.q : x \in ver.acc}),
                  All(<<Clause(ver.acc # {}, "verdict: the body must not run: some argument or the joint system does not conform"),
                          transparent,
                          IF fits # {} \/ ver.acc = {} THEN {} ELSE
                              Accepted(st, ev.f, o.out, (CHOOSE x \in ver.acc : TRUE).ps, TRUE)>>))
             ELSE
                R(IF fits # {} THEN entered({x.q : x \in fits}) ELSE astray({x.q : x \in ver.acc}),
                  All(<<transparent,
                          IF fits # {} THEN {}
                          ELSE IF ver.rej THEN Rejected(st, ev.f, o.out, TRUE)
                          ELSE Accepted(st, ev.f, o.out, (CHOOSE x \in ver.acc : TRUE).ps, TRUE)>>))
          ELSE R(st, All(<<Clause(st.cfg.raise, "soft: soft mode must run the body"),
                             Clause(ver.rej, "verdict: a conforming call must be accepted"),
                             Clause(o.k = "TypeError", "raise: a rejection is a TypeError"),
                             Clause(ver.nm = {} \/ \E j \in 1..Len(o.nm) : o.nm[j] \in ver.nm,
                                    "name: a rejection names the offending argument or variable"),
                             Rejected(st, ev.f, o.out, TRUE)>>))

Ret(st, ev) ==
    LET fr == Top(st, ev.th)
        f == st.fs[fr.f]
        o == ev.obs
        st2 == Pop(st, ev.th)
        transparent == Clause(o.same, "transparent: the caller receives exactly what the body returned")
        \* In soft mode a violated call may have no system left to extend.
        lost == fr.lost
    IN IF ~f.chk
       THEN R(st2, All(<<Clause(o.k = "returned", "switch: an unchecked function simply returns"), transparent,
                           Clause(Silent(o.out), "switch: an unchecked function prints nothing")>>))
       ELSE
       LET os == IF f.ret = <<>> THEN {Pass({}, <<>>)} ELSE Check(f.ret[1], ev.v, "return", "return", EnvOf(st))
           vers == {Verdicts(os, q) : q \in fr.q}
           acc == UNION {v.acc : v \in vers}
           rej == lost \/ \E v \in vers : v.rej
           fits == {x \in acc : Accepted(st, fr.f, o.out, x.ps, FALSE) = {}}
           nm == IF \E v \in vers : v.nm = {} THEN {} ELSE UNION {v.nm : v \in vers}
       IN IF o.k = "returned" THEN
              R(st2, All(<<transparent,
                  IF st.cfg.raise
                  THEN All(<<Clause(lost \/ acc # {}, "verdict: a nonconforming result must not be returned"),
                               IF fits # {} \/ acc = {} THEN {} ELSE
                                   Accepted(st, fr.f, o.out, (CHOOSE x \in acc : TRUE).ps, FALSE)>>)
                  ELSE IF fits # {} THEN {}
                  ELSE IF lost /\ \E x \in os : x.ok THEN {}
                  ELSE IF rej THEN Rejected(st, fr.f, o.out, FALSE)
                  ELSE Accepted(st, fr.f, o.out, (CHOOSE x \in acc : TRUE).ps, FALSE)>>))
          ELSE R(st2, All(<<Clause(st.cfg.raise, "soft: soft mode must return the result"),
                              Clause(rej, "verdict: a conforming result must be returned"),
                              Clause(o.k = "TypeError", "raise: a rejection is a TypeError"),
                              Clause(nm = {} \/ \E j \in 1..Len(o.nm) : o.nm[j] \in nm,
                                     "name: a rejection names the return or the variable"),
                              Rejected(st, fr.f, o.out, FALSE)>>))

Raise(st, ev) ==
    R(Pop(st, ev.th),
      All(<<Clause(ev.obs.k = "raised" /\ ev.obs.same, "transparent: an exception of the body reaches the caller as it is"),
              Clause(Silent(ev.obs.out), "report: no return is checked or reported when the body raises")>>))

(***************************** All events **********************************)
Step(st, ev) ==
    CASE ev.op = "setdim" -> SetDim(st, ev)
      [] ev.op = "getdim" -> GetDim(st, ev)
      [] ev.op = "setshape" -> SetShape(st, ev)
      [] ev.op = "getshape" -> GetShape(st, ev)
      [] ev.op = "mk" -> Mk(st, ev)
      [] ev.op = "isinst" -> IsInst(st, ev)
      [] ev.op = "eq" -> Eq(st, ev)
      [] ev.op = "getsym" -> GetSymbol(st, ev)
      [] ev.op = "cat" -> BadConcat(st, ev)
      [] ev.op = "key" -> Key(st, ev)
      [] ev.op = "use" -> Use(st, ev)
      [] ev.op = "scalar" -> IsScalarInst(st, ev)
      [] ev.op = "eqx" -> EqOther(st, ev)
      [] ev.op = "new" -> NewInst(st, ev)
      [] ev.op = "def" -> Def(st, ev)
      [] ev.op = "env" -> SetEnv(st, ev)
      [] ev.op = "call" -> Call(st, ev)
      [] ev.op = "ret" -> Ret(st, ev)
      [] ev.op = "raise" -> Raise(st, ev)
=============================================================================
