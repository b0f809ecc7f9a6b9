------------------------------- MODULE MCAsta -------------------------------
(***************************************************************************)
(* Model check of Asta as a closed system: clients on two threads set dims *)
(* and shapes, flip the environment switch, decorate functions, call them  *)
(* (also from inside one another) and return, in every order within the    *)
(* bounds; the checker answers with any observation which Asta permits.    *)
(*                                                                         *)
(* The properties are stated without the machinery of Asta: ghosts keep,   *)
(* per call in progress, what its arguments were and what the stores held, *)
(* and Direct says by trying all values of the symbols whether a call and  *)
(* its return conform.                                                     *)
(***************************************************************************)
EXTENDS Asta
CONSTANTS RaiseErrs, PrintPass, MaxDepth, MaxCalls, MaxFuns, Threads, MaxSize, Envs, DimVals, ShapeVals

X == PVar(3)
Y == PVar(4)
xd(p) == [t |-> "x", den |-> 1, fl |-> FALSE, p |-> p]
Hint(ds) == [Bare("A") EXCEPT !.sh = [k |-> "sh", ds |-> ds]]
Hints0 == << Hint(<<xd(X)>>),                      \* 1  [X]
             Hint(<<xd(PVar(1))>>),                \* 2  [d1]
             Hint(<<xd(PAdd(X, PConst(1)))>>),     \* 3  [X + 1]
             Hint(<<xd(PAdd(X, PVar(1)))>>),       \* 4  [X + d1]
             Hint(<<[t |-> "S", s |-> 1]>>),       \* 5  shapes.s1
             Hint(<<xd(PMul(X, Y))>>) >>           \* 6  [X * Y]
h(n) == [t |-> "h", h |-> n]
par(n, hn) == [n |-> n, k |-> "pk", an |-> <<h(hn)>>, df |-> <<>>]
\* the functions which can be defined: parameters, hints, result
Sigs == << [ps |-> <<par("a", 1), par("b", 3)>>, ret |-> <<h(1)>>],     \* (a: [X], b: [X+1]) -> [X]
           [ps |-> <<par("a", 4)>>, ret |-> <<h(2)>>],                  \* (a: [X+d1]) -> [d1]
           [ps |-> <<par("a", 5), par("b", 1)>>, ret |-> <<h(3)>>],     \* (a: shapes.s1, b: [X]) -> [X+1]
           [ps |-> <<par("a", 6), par("b", 1)>>, ret |-> <<>>] >>       \* (a: [X*Y], b: [X])
arr(n) == [t |-> "a", b |-> "A", n |-> "<f8", k |-> "f", z |-> 8, sh |-> <<n>>, tag |-> <<>>]
Sizes == 1..MaxSize

VARIABLES st, gh, ncalls
vars == <<st, gh, ncalls>>
\* gh[th][k]: [sg, vs, dm, sm, env] of the k-th call in progress of th;
\* gh[0][f]: the environment when function f was defined

Init == /\ st = [InitState([on |-> TRUE, raise |-> RaiseErrs, print |-> PrintPass, non |-> FALSE, all |-> TRUE], 1)
                   EXCEPT !.hs = Hints0]
        /\ gh = [t \in 0..3 |-> <<>>]
        /\ ncalls = 0

\* What an observer may see printed: subsets of the passes in order.
Passes == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"return">>}
Outs(f) == {[hdr |-> hd, first |-> hd # <<>>, ps |-> p, nf |-> n, ot |-> 0] :
               hd \in {<<>>, <<f>>}, p \in Passes, n \in {0, 1}}

Nms == <<"a", "b", "return", "d1", "s1">>
\* the canonical observations which decide a verdict
Good(f, ps) == [hdr |-> IF PrintPass /\ st.fs[f].chk THEN <<f>> ELSE <<>>, first |-> PrintPass /\ st.fs[f].chk,
                ps |-> IF PrintPass /\ st.fs[f].chk THEN ps ELSE <<>>, nf |-> 0, ot |-> 0]
Poor(f) == [hdr |-> <<f>>, first |-> TRUE, ps |-> <<>>, nf |-> 1, ot |-> 0]
GoodRet(f) == [hdr |-> <<>>, first |-> FALSE,
               ps |-> IF PrintPass /\ st.fs[f].chk /\ st.fs[f].ret # <<>> THEN <<"return">> ELSE <<>>, nf |-> 0, ot |-> 0]
NamesOf(f) == [j \in 1..Len(st.fs[f].ps) |-> st.fs[f].ps[j].n]
CallObs0(f) == {[k |-> "enter", same |-> TRUE, nm |-> <<>>, out |-> o] : o \in {Good(f, NamesOf(f)), Poor(f)}}
               \cup {[k |-> "TypeError", same |-> TRUE, nm |-> Nms, out |-> Poor(f)]}
RetObs0(f) == {[k |-> "returned", same |-> TRUE, nm |-> <<>>, out |-> o] :
                  o \in {GoodRet(f), [Poor(f) EXCEPT !.hdr = IF PrintPass THEN <<>> ELSE <<f>>]}}
               \cup {[k |-> "TypeError", same |-> TRUE, nm |-> Nms, out |-> [Poor(f) EXCEPT !.hdr = IF PrintPass THEN <<>> ELSE <<f>>]]}
\* event candidates: the event together with every observation
CallObs(f) == {[k |-> "enter", same |-> TRUE, nm |-> <<>>, out |-> o] : o \in Outs(f)}
              \cup {[k |-> "TypeError", same |-> TRUE, nm |-> n, out |-> o] : o \in Outs(f), n \in {<<>>, Nms}}
RetObs(f) == {[k |-> "returned", same |-> TRUE, nm |-> <<>>, out |-> o] : o \in Outs(f)}
              \cup {[k |-> "TypeError", same |-> TRUE, nm |-> n, out |-> o] : o \in Outs(f), n \in {<<>>, Nms}}
CallEv(f, th, vs, o) == [op |-> "call", f |-> f, th |-> th, pos |-> vs, kw |-> <<>>, obs |-> o]
RetEv(th, v, o) == [op |-> "ret", th |-> th, v |-> v, obs |-> o]
Permits(s, ev) == Step(s, ev).why = {}
Kinds(s, mkev(_), obs) == {o.k : o \in {o \in obs : Permits(s, mkev(o))}}

ArgsOf(f) == {[j \in 1..Len(st.fs[f].ps) |-> arr(z[j])] : z \in [1..Len(st.fs[f].ps) -> Sizes]}
SigOf(f) == CHOOSE j \in 1..Len(Sigs) : Sigs[j].ps = st.fs[f].ps
Depth(th) == Len(st.stk[th])

DoDef == /\ Len(st.fs) < MaxFuns
         /\ \E j \in 1..Len(Sigs) :
              /\ \A f \in 1..Len(st.fs) : st.fs[f].ps # Sigs[j].ps
              /\ LET on == st.env \in {"unset", "1"}
                     ev == [op |-> "def", cls |-> FALSE, ms |-> <<[ps |-> Sigs[j].ps, ret |-> Sigs[j].ret, dec |-> TRUE]>>,
                            obs |-> [k |-> "ok", same |-> ~on, name |-> TRUE, rest |-> TRUE]]
                 IN Permits(st, ev) /\ st' = Step(st, ev).st
              /\ gh' = [gh EXCEPT ![0] = Append(@, st.env)]
              /\ UNCHANGED ncalls
DoEnv == \E v \in Envs :
            /\ st.env # v /\ Len(st.fs) < MaxFuns
            /\ st' = Step(st, [op |-> "env", v |-> v]).st /\ UNCHANGED <<gh, ncalls>>
DoDim == \E v \in 1..DimVals : st.dm[1] # v /\ st' = Step(st, [op |-> "setdim", i |-> 1, v |-> v, bad |-> FALSE, obs |-> "ok"]).st
                         /\ UNCHANGED <<gh, ncalls>>
DoShape == \E v \in (IF ShapeVals = 1 THEN {<<2>>} ELSE {<<2>>, <<1, 1>>}) : (~st.sm[1].set \/ st.sm[1].v # v)
               /\ st' = Step(st, [op |-> "setshape", i |-> 1, v |-> v, bad |-> FALSE, obs |-> "ok"]).st
               /\ UNCHANGED <<gh, ncalls>>
DoCall == /\ ncalls < MaxCalls
          /\ \E th \in Threads, f \in 1..Len(st.fs) :
               /\ Depth(th) < MaxDepth
               /\ \E vs \in ArgsOf(f) : \E o \in CallObs0(f) :
                    LET ev == CallEv(f, th, vs, o) IN
                    /\ Permits(st, ev)
                    /\ st' = Step(st, ev).st
                    /\ gh' = IF o.k = "enter" THEN [gh EXCEPT ![th] = Append(@, [f |-> f, vs |-> vs, dm |-> st.dm[1], sm |-> st.sm[1]])]
                             ELSE gh
          /\ ncalls' = ncalls + 1
DoRet == \E th \in Threads :
            /\ Depth(th) > 0
            /\ LET f == Top(st, th).f IN
               \E n \in Sizes : \E o \in RetObs0(f) :
                  LET ev == RetEv(th, arr(n), o) IN
                  /\ Permits(st, ev)
                  /\ st' = Step(st, ev).st
                  /\ gh' = [gh EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)]
                  /\ UNCHANGED ncalls
DoRaise == \E th \in Threads :
            /\ Depth(th) > 0
            /\ \E o \in Outs(1) :
                 LET ev == [op |-> "raise", th |-> th, obs |-> [k |-> "raised", same |-> TRUE, out |-> o]] IN
                 /\ Permits(st, ev) /\ st' = Step(st, ev).st
                 /\ gh' = [gh EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED ncalls
Next == DoDef \/ DoEnv \/ DoDim \/ DoShape \/ DoCall \/ DoRet \/ DoRaise
Spec == Init /\ [][Next]_vars

(***************************** Direct meaning ******************************)
\* Do the sizes fit the signature with X = x, Y = y?  d: the value of dims.d1,
\* s: the value of shapes.s1 ([set, v]).  Nothing here is shared with Asta.
Try == -2..6
FitArgs(g, vs, d, s, x, y) ==
    LET n(j) == vs[j].sh[1]
    IN CASE g = 1 -> n(1) = x /\ n(2) = x + 1
         [] g = 2 -> d # Unset /\ n(1) = x + d
         [] g = 3 -> s.set /\ vs[1].sh = s.v /\ n(2) = x
         [] g = 4 -> n(1) = x * y /\ n(2) = x
FitRet(g, v, d, x) ==
    LET n == v.sh[1]
    IN CASE g = 1 -> n = x
         [] g = 2 -> d # Unset /\ n = d
         [] g = 3 -> n = x + 1
         [] g = 4 -> TRUE
DirectCall(g, vs, d, s) == \E x, y \in Try : FitArgs(g, vs, d, s, x, y)
\* the arguments are judged with the stores of the call, the result with those of the return
DirectRet(fr, v, d) == LET g == SigOf(fr.f) IN
    \E x, y \in Try : FitArgs(g, fr.vs, fr.dm, fr.sm, x, y) /\ FitRet(g, v, d, x)

Checked(f) == st.fs[f].chk
Entered(f, th, vs) == Kinds(st, LAMBDA o : CallEv(f, th, vs, o), CallObs0(f))
Returned(th, v) == Kinds(st, LAMBDA o : RetEv(th, v, o), RetObs0(Top(st, th).f))

\* C04, C06, C09, C10: which calls may enter the body, whatever happened before and runs elsewhere (C05)
\* whether X * Y = 2, X = 3 has a solution is left open
Open(f, vs) == SigOf(f) = 4 /\ ~DirectCall(4, vs, Unset, st.sm[1])
CallsDecided ==
    \A f \in 1..Len(st.fs) : \A th \in Threads : \A vs \in ArgsOf(f) :
        Entered(f, th, vs) =
            IF Checked(f) /\ RaiseErrs /\ Open(f, vs) THEN {"enter", "TypeError"}
            ELSE IF ~Checked(f) \/ ~RaiseErrs THEN {"enter"}
            ELSE IF DirectCall(SigOf(f), vs, st.dm[1], st.sm[1]) THEN {"enter"} ELSE {"TypeError"}
RetsDecided ==
    \A th \in Threads : Depth(th) > 0 /\ SigOf(gh[th][Depth(th)].f) # 4 =>
        LET fr == gh[th][Depth(th)] IN
        \A n \in Sizes : Returned(th, arr(n)) =
            IF ~Checked(fr.f) \/ ~RaiseErrs THEN {"returned"}
            ELSE IF DirectRet(fr, arr(n), st.dm[1]) THEN {"returned"} ELSE {"TypeError"}
\* (states with calls in progress repeat the same reports: see CallsDecided)
Widely == IF ncalls = 0 THEN {CHOOSE th \in Threads : TRUE} ELSE {}
\* C16: an accepted call prints exactly what the settings say
Reports ==
    \A f \in 1..Len(st.fs) : \A th \in Widely : \A vs \in ArgsOf(f) : \A o \in CallObs(f) :
        Permits(st, CallEv(f, th, vs, o)) =>
            LET fine == DirectCall(SigOf(f), vs, st.dm[1], st.sm[1]) IN
            IF Open(f, vs) /\ Checked(f) THEN TRUE
            ELSE IF ~Checked(f) THEN o.out.hdr = <<>> /\ o.out.ps = <<>> /\ o.out.nf = 0
            ELSE IF fine THEN /\ o.out.nf = 0
                              /\ o.out.hdr = (IF PrintPass THEN <<f>> ELSE <<>>)
                              /\ o.out.ps = (IF PrintPass THEN [j \in 1..Len(vs) |-> st.fs[f].ps[j].n] ELSE <<>>)
            ELSE o.out.hdr = <<f>> /\ (~RaiseErrs => o.out.nf > 0)          \* C14
\* C06, C14: with raise-errors a frame of a checked call holds exactly one
\* system, and that system has a solution
FramesSolvable ==
    \A th \in Threads : \A k \in 1..Depth(th) :
        LET fr == st.stk[th][k] IN
        Checked(fr.f) /\ RaiseErrs /\ SigOf(fr.f) # 4 =>
            /\ Cardinality(fr.q) = 1
            /\ \A q \in fr.q : \E x, y \in Try : \A p \in q :
                   PEval(p, [i \in Vars |-> CASE i = 3 -> x [] i = 4 -> y [] OTHER -> 0]) = 0
\* C15: what decides is the environment at decoration
Switch == \A f \in 1..Len(st.fs) : Checked(f) <=> gh[0][f] \in {"unset", "1"}
\* frames and ghosts stay in step: every call which entered is returned once
InStep == \A th \in Threads : Depth(th) = Len(gh[th]) /\ \A k \in 1..Depth(th) : st.stk[th][k].f = gh[th][k].f
\* C05: a call leaves the other threads' and the enclosing calls alone; C18: hints are never changed
Alone == [][/\ st'.hs = st.hs
            /\ \A f \in 1..Len(st.fs) : st'.fs[f] = st.fs[f]
            /\ \A th \in Threads : LET n == Depth(th) m == Len(st'.stk[th]) IN
                  /\ m \in (n - 1)..(n + 1)
                  /\ \A k \in 1..(IF m < n THEN m ELSE n) : st'.stk[th][k] = st.stk[th][k]
            /\ Cardinality({th \in Threads : st'.stk[th] # st.stk[th]}) <= 1]_vars
=============================================================================
