------------------------------- MODULE Annots -------------------------------
(***************************************************************************)
(* Annotations: which values conform to containers, unions and other       *)
(* typing constructs around array hints, and what a check of one           *)
(* annotation contributes to its call.                                     *)
(*                                                                         *)
(*   annotation  [t |-> "h", h |-> hint index]                             *)
(*     [t |-> "L"/"Q"/"s"/"V", a |-> ann]     List, Sequence, Set, Tuple[a, ...] *)
(*     [t |-> "T", as |-> anns]               Tuple[a1, ..., an]           *)
(*     [t |-> "D", ka |-> ann, va |-> ann]    Dict                         *)
(*     [t |-> "td", ks |-> keys, as |-> anns, rq |-> required keys]  TypedDict *)
(*     [t |-> "nt", c |-> class, fs |-> fields, as |-> anns]  NamedTuple   *)
(*     [t |-> "U", as |-> anns]               Union / Optional             *)
(*     [t |-> "N"]  None    [t |-> "any"]     [t |-> "bare", c |-> kind]   *)
(*     [t |-> "c", c |-> class name]          any other class              *)
(*     [t |-> "cal", n |-> arity or -1]  [t |-> "lit", vs |-> values]      *)
(*     [t |-> "ty", cs |-> classes]  Type: of any class if there is none   *)
(*     [t |-> "odd", c]  generics without a checker: only their class counts *)
(*   value  arrays (see Hints)                                             *)
(*     [t |-> "L"/"T"/"q"/"s"/"fs", es |-> values]  (q: a deque)           *)
(*     [t |-> "D", ks |-> values, es |-> values]  (es[j] under ks[j])      *)
(*     [t |-> "nt", c |-> class, es |-> values]  (class: its own, one      *)
(*        derived from it, "/sub", or one which looks the same, "/twin")   *)
(*     [t |-> "o", c |-> class name, v |-> text]  any other object         *)
(*   (functions: lo and hi bound the number of positional arguments;       *)
(*   classes: v is the name)                                               *)
(***************************************************************************)
EXTENDS Hints

(* cfg: the settings [raise, print, non, all]; E: [dm, sm, hs, cfg] *)

\* class conformance with check-non-asta-types=yes
Super == [int |-> {"int", "object"}, bool |-> {"bool", "int", "object"},
          float |-> {"float", "object"}, complex |-> {"complex", "object"},
          str |-> {"str", "object"}, bytes |-> {"bytes", "object"},
          bytearray |-> {"bytes", "bytearray", "object"},
          datetime |-> {"datetime", "date", "object"}, date |-> {"date", "object"}, time |-> {"object"}, frac |-> {"object"}, dec |-> {"object"}, timedelta |-> {"timedelta", "object"},
          none |-> {"object"}, Foo |-> {"Foo", "Abs", "object"}, Bar |-> {"Bar", "Foo", "Abs", "object"},
          obj |-> {"object"}, fun |-> {"object"}, cls |-> {"object"},
          \* subclasses of the numbers: a user's, numpy's and enumerations
          isub |-> {"isub", "int", "object"}, fsub |-> {"fsub", "float", "object"},
          npf |-> {"npf", "float", "object"}, IE |-> {"IE", "int", "object"}, E |-> {"E", "object"},
          \* streams, generic classes, classes with a method which a protocol asks for
          strio |-> {"TextIO", "IO", "object"}, textio |-> {"TextIO", "IO", "object"},
          Log |-> {"Log", "TextIO", "IO", "object"}, Raw |-> {"Raw", "BinaryIO", "IO", "object"},
          bytesio |-> {"BinaryIO", "IO", "object"}, rawio |-> {"BinaryIO", "IO", "object"},
          G |-> {"G", "object"}, Quack |-> {"Quack", "Duck", "object"}]
\* asta.Scalar: what is a single value, be it an array without dimensions.
ScalarTypes == {"bool", "int", "float", "complex", "bytes", "str", "datetime", "timedelta"}
IsScalar(v) == IF v.t = "a" THEN v.sh = <<>> ELSE v.t = "o" /\ Super[v.c] \cap ScalarTypes # {} /\ v.c # "bytearray"
ClassOf(v) == IF v.t = "o" THEN v.c ELSE v.t
\* builtin containers, and classes derived from them
KindsOf(v) ==
    LET sub == IF "sub" \in DOMAIN v THEN v.sub ELSE 0
    IN {"object"} \cup
       CASE v.t = "L" -> {"list"} \cup (IF sub = 1 THEN {"MyList"} ELSE {})
         [] v.t = "T" -> IF sub = 1 THEN {"MyTuple"} ELSE {}
         [] v.t = "D" -> {"dict"} \cup (CASE sub = 1 -> {"MyDict"} [] sub = 2 -> {"ODict"} [] sub = 3 -> {"DDict"} [] OTHER -> {})
         [] v.t = "s" -> IF sub = 2 THEN {} ELSE {"set"} \cup (IF sub = 1 THEN {"MySet"} ELSE {})
         [] v.t = "fs" -> {"frozenset"}
         [] v.t = "q" -> {"deque"}
         [] OTHER -> {}
Conforms(v, c) ==
    CASE c = "Scalar" -> IsScalar(v)
      [] v.t = "a" -> c \in {"object"} \cup (IF v.b = "A" THEN {"ndarray"} ELSE IF v.b = "T" THEN {"tensor"} ELSE {})
      [] v.t = "o" -> c \in Super[v.c]
      [] OTHER -> c \in KindsOf(v)
\* int for float and int or float for complex, where PEP 484 and asta differ, and numpy's own scalars
Tower(v, c) ==
    /\ v.t = "o"
    /\ \/ c = "float" /\ "int" \in Super[v.c]
       \/ c = "complex" /\ Super[v.c] \cap {"int", "float"} # {}
       \/ c = "Scalar" /\ v.c = "npf"

Both(a, b) ==
    IF a.ok /\ b.ok THEN [ok |-> TRUE, q |-> a.q \cup b.q, ps |-> a.ps \o b.ps, nm |-> {}]
    ELSE Fail(a.nm \cup b.nm)
\* Every combination of outcomes of consecutive checks.
RECURSIVE AllOf(_)
AllOf(os) == IF os = <<>> THEN {Pass({}, <<>>)}
             ELSE LET rest == AllOf(Tail(os))
                  IN {Both(a, b) : a \in Head(os), b \in rest}

Strings(v) == IF v.t = "o" /\ v.c \in {"str", "bytes"} THEN TRUE ELSE FALSE
IsSequence(v) == v.t \in {"L", "T", "nt", "q"} \/ Strings(v)
Elements(v) ==
    IF v.t \in {"L", "T", "nt", "q", "s", "fs"} THEN v.es
    ELSE IF v.t = "o" /\ v.c = "str" /\ v.v # "" THEN <<v>>
    ELSE IF v.t = "o" /\ v.c = "bytes" /\ v.v # "" THEN <<[t |-> "o", c |-> "int", v |-> "7"]>>
    ELSE <<>>
Firsts(s, all) == IF all \/ s = <<>> THEN s ELSE <<s[1]>>
KeyText(k) == IF k.t = "o" THEN k.v ELSE "?"
KindOk(c, v) ==
    CASE c = "List" -> v.t = "L"
      [] c = "Sequence" -> IsSequence(v)
      [] c \in {"Tuple", "tuple"} -> v.t \in {"T", "nt"}
      [] c = "Dict" -> v.t = "D"
      [] c = "Set" -> v.t \in {"s", "fs"}

RECURSIVE Check(_, _, _, _, _)
Check(a, v, path, root, E) ==
    LET ok == {Pass({}, <<>>)}
        bad == {Fail({root})}
        If(b) == IF b THEN ok ELSE bad
        elems(s, ann) == AllOf([j \in 1..Len(s) |->
                            Check(ann, s[j], path \o "[" \o ToString(j - 1) \o "]", root, E)])
    IN
    CASE a.t = "h" -> HintOutcomes(E.hs[a.h], v, path, root, E.dm, E.sm)
      [] a.t = "L" -> IF v.t = "L" THEN elems(Firsts(v.es, E.cfg.all), a.a) ELSE bad
      [] a.t = "Q" -> IF IsSequence(v) THEN elems(Firsts(Elements(v), E.cfg.all), a.a) ELSE bad
      [] a.t = "V" -> IF v.t \in {"T", "nt"} THEN elems(v.es, a.a) ELSE bad
      [] a.t = "T" -> IF v.t \in {"T", "nt"} /\ Len(v.es) = Len(a.as)
                      THEN AllOf([j \in 1..Len(v.es) |->
                              Check(a.as[j], v.es[j], path \o "[" \o ToString(j - 1) \o "]", root, E)])
                      ELSE bad
      [] a.t = "s" -> IF v.t \in {"s", "fs"}
                      THEN AllOf([j \in 1..Len(v.es) |-> Check(a.a, v.es[j], path \o ".<set_element>", root, E)])
                      ELSE bad
      [] a.t = "D" -> IF v.t = "D"
                      THEN AllOf([j \in 1..(2 * Len(v.es)) |->
                              IF j <= Len(v.es) THEN Check(a.ka, v.ks[j], path \o ".<key>", root, E)
                              ELSE Check(a.va, v.es[j - Len(v.es)],
                                         path \o "[" \o KeyText(v.ks[j - Len(v.es)]) \o "]", root, E)])
                      ELSE bad
      [] a.t = "td" ->
             IF v.t # "D" THEN bad
             ELSE LET keys == {a.ks[j] : j \in 1..Len(a.ks)}
                      has == {KeyText(v.ks[j]) : j \in 1..Len(v.ks)}
                      ann(k) == a.as[CHOOSE j \in 1..Len(a.ks) : a.ks[j] = k]
                  IN IF ~(has \subseteq keys) \/ \E j \in 1..Len(a.rq) : a.rq[j] \notin has THEN bad
                     ELSE AllOf([j \in 1..Len(v.es) |->
                             Check(ann(KeyText(v.ks[j])), v.es[j],
                                   path \o "[" \o KeyText(v.ks[j]) \o "]", root, E)])
      [] a.t = "nt" -> IF v.t = "nt" /\ v.c \in {a.c, a.c \o "/sub"}
                       THEN AllOf([j \in 1..Len(v.es) |->
                               Check(a.as[j], v.es[j], path \o "." \o a.fs[j], root, E)])
                       ELSE bad
      [] a.t = "U" ->
             \* The first alternative which accepts the value by itself.
             LET alone(j) == Check(a.as[j], v, path, root, E)
                 certain(o) == o.ok /\ Solve(o.q) = "yes"
                 RECURSIVE from(_)
                 from(j) ==
                    IF j > Len(a.as) THEN {Fail({root} \cup UNION {o.nm : o \in UNION {alone(k) : k \in 1..Len(a.as)}})}
                    ELSE LET os == alone(j)
                             take == {o \in os : o.ok}
                             \* locally fine but jointly unsolvable: unspecified
                             sure == take # {} /\ take = os /\ \A o \in take : certain(o)
                         IN IF sure THEN take ELSE take \cup from(j + 1)
             IN from(1)
      [] a.t = "N" -> If(v.t = "o" /\ v.c = "none")
      [] a.t = "bare" -> If(KindOk(a.c, v))
      [] a.t = "any" \/ (a.t = "odd" /\ a.c = "tv") -> ok
      [] ~E.cfg.non -> ok
      [] a.t = "odd" -> If(CASE a.c = "iter" -> v.t # "o" \/ v.c \in {"str", "bytes", "bytearray", "strio", "textio", "bytesio", "rawio"}
                             [] a.c = "map" -> v.t = "D"
                             [] a.c = "cnt" -> FALSE
                             [] a.c = "cal" -> v.t = "o" /\ v.c \in {"fun", "cls"})
      [] a.t = "c" -> IF Tower(v, a.c) THEN ok \cup bad ELSE If(Conforms(v, a.c))
      [] a.t = "cal" -> IF v.t = "o" /\ v.c = "cls" THEN ok \cup bad
                        ELSE If(v.t = "o" /\ v.c = "fun" /\ (a.n = -1 \/ (v.lo <= a.n /\ a.n <= v.hi)))
      [] a.t = "ty" -> If(v.t = "o" /\ v.c = "cls" /\ (a.cs = <<>> \/ \E j \in 1..Len(a.cs) : a.cs[j] \in Super[v.v]))
      [] a.t = "lit" -> IF v.t = "o" /\ v.c \in {"isub", "IE"} THEN ok \cup bad ELSE If(v.t = "o" /\ \E j \in 1..Len(a.vs) : a.vs[j].c = v.c /\ a.vs[j].v = v.v)

(***************************** Verdicts ************************************)
\* Parameter by parameter: ps[j] = [n |-> name, a |-> annotation, v |-> value].
ArgOutcomes(ps, E) ==
    AllOf([j \in 1..Len(ps) |-> Check(ps[j].a, ps[j].v, ps[j].n, ps[j].n, E)])

\* Acceptance of a set of outcomes on top of earlier equations q0:
\* permitted verdicts with, for accepted ones, the system and the passes.
Verdicts(os, q0) ==
    LET good(o) == o.ok /\ Solve(o.q \cup q0) # "no"
        poor(o) == ~o.ok \/ Solve(o.q \cup q0) # "yes"
    IN [acc |-> {[q |-> o.q \cup q0, ps |-> o.ps] : o \in {o \in os : good(o)}},
        rej |-> \E o \in os : poor(o),
        nm |-> IF \E o \in os : o.ok \/ o.nm = {} \/ "*" \in o.nm THEN {}
               ELSE UNION {o.nm : o \in os}]
=============================================================================
