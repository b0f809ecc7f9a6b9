-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Integer polynomials over NV variables and the decision "does a system   *)
(* of polynomial equations have a solution?", the meaning of symbolic      *)
(* dimensions in asta hints.                                               *)
(*                                                                         *)
(* A monomial is a tuple of NV exponents; a polynomial is a function from  *)
(* a finite set of monomials to nonzero integers (so equal polynomials are *)
(* equal TLA+ values); the zero polynomial has the empty domain.           *)
(*                                                                         *)
(* The variables in DimVars stand for asta.dims names, the others for      *)
(* asta.symbols names.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

NV == 7
Vars == 1..NV
DimVars == {1, 2, 6}

One == [i \in Vars |-> 0]                       \* the monomial 1
ZeroP == [m \in {} |-> 0]                       \* the polynomial 0

Coef(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
\* (TLCEval(e) = e; it makes TLC compute a function once, not at every use.)
Norm(f0) == LET f == TLCEval(f0) IN TLCEval([m \in {m \in DOMAIN f : f[m] # 0} |-> f[m]])
PConst(c) == IF c = 0 THEN ZeroP ELSE TLCEval([m \in {One} |-> c])
PVar(i) == TLCEval([m \in {[j \in Vars |-> IF j = i THEN 1 ELSE 0]} |-> 1])
PAdd(p, q) == Norm([m \in DOMAIN p \cup DOMAIN q |-> Coef(p, m) + Coef(q, m)])
PScale(c, p) == IF c = 0 THEN ZeroP ELSE TLCEval([m \in DOMAIN p |-> c * p[m]])
PSub(p, q) == PAdd(p, PScale(-1, q))
MMul(m, n) == TLCEval([i \in Vars |-> m[i] + n[i]])
PMul(p, q) ==
    LET pairs == (DOMAIN p) \X (DOMAIN q)
        prods == {MMul(x[1], x[2]) : x \in pairs}
    IN Norm([d \in prods |->
          MapThenSumSet(LAMBDA x : p[x[1]] * q[x[2]],
                        {x \in pairs : MMul(x[1], x[2]) = d})])
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN PConst(1) ELSE PMul(p, PPow(p, k - 1))

IsConst(p) == DOMAIN p \subseteq {One}
ConstOf(p) == Coef(p, One)
PVars(p) == {i \in Vars : \E m \in DOMAIN p : m[i] > 0}

\* A polynomial from a sequence of <<coefficient, <<exponents>>>>.
FromTerms(ts) ==
    FoldSeq(LAMBDA t, acc :
               PAdd(acc, PScale(t[1], [m \in {[i \in Vars |-> IF i <= Len(t[2]) THEN t[2][i] ELSE 0]} |-> 1])),
            ZeroP, ts)

\* Substitute polynomial q for variable i in p.
PSubst(p, i, q) ==
    IF i \notin PVars(p) THEN p
    ELSE FoldSet(LAMBDA m, acc :
                    PAdd(acc, PScale(p[m],
                         PMul([n \in {[m EXCEPT ![i] = 0]} |-> 1], PPow(q, m[i])))),
                 ZeroP, DOMAIN p)

RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
PEval(p, asg) ==
    MapThenSumSet(LAMBDA m : p[m] *
        FoldSet(LAMBDA i, acc : acc * IPow(asg[i], m[i]), 1, {i \in Vars : m[i] > 0}),
        DOMAIN p)

(***************************************************************************)
(* Solvability.  Solve(E) is                                               *)
(*   "yes"   if the system E = 0 has an integer solution,                  *)
(*   "no"    if it has no solution at all, not even a complex one,         *)
(*   "maybe" otherwise (or if the bounded search below does not decide).   *)
(* Both definite answers are sound: see MCPoly.                            *)
(***************************************************************************)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Content(p) == FoldSet(LAMBDA m, g : Gcd(p[m], g), 0, DOMAIN p)
Prim(p) == LET g == Content(p)
           IN IF g <= 1 THEN p ELSE TLCEval([m \in DOMAIN p |-> p[m] \div g])

(***************************************************************************)
(* TLC's integers have 32 bits: a substitution whose result might not fit  *)
(* is not made.  If it is the value v of x_i, the equations in x_i alone   *)
(* are evaluated modulo a prime instead: not zero there, not zero at all.  *)
(***************************************************************************)
Lim == 1000000000
SAbs(x) == IF x > Lim \/ x < -Lim THEN Lim ELSE Abs(x)
SAdd(a, b) == IF a > Lim - b THEN Lim ELSE a + b                    \* (of numbers in 0..Lim)
SMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Lim \div b THEN Lim ELSE a * b
RECURSIVE SPow(_, _)
SPow(b, k) == IF k = 0 THEN 1 ELSE SMul(b, SPow(b, k - 1))
Weight(q) == FoldSet(LAMBDA m, acc : SAdd(acc, SAbs(q[m])), 0, DOMAIN q)
MayPut(r, i, q) == i \notin PVars(r) \/
                 LET w == Weight(q)
                 IN FoldSet(LAMBDA m, acc : SAdd(acc, SMul(SAbs(r[m]), SPow(w, m[i]))), 0, DOMAIN r) < Lim
Prime == 46337
RECURSIVE ModPow(_, _)
ModPow(b, k) == IF k = 0 THEN 1 ELSE ((b % Prime) * ModPow(b, k - 1)) % Prime
ModNonzero(r, i, v) == PVars(r) = {i} /\ FoldSet(LAMBDA m, acc : (acc + (r[m] % Prime) * ModPow(v, m[i])) % Prime, 0, DOMAIN r) # 0

\* Gaussian elimination with the monomials taken for independent unknowns:
\* if it derives 0 = c # 0, no assignment of any kind solves E.
RECURSIVE LinInconsistent(_)
LinInconsistent(E0) ==
    LET E == {Prim(p) : p \in E0} \ {ZeroP} IN
    IF \E p \in E : IsConst(p) THEN TRUE
    ELSE IF Cardinality(E) <= 1 THEN FALSE
    ELSE LET p == CHOOSE p \in E : TRUE
             m == CHOOSE m \in DOMAIN p : m # One
         IN IF \E r \in E : SMul(Weight(p), Weight(r)) >= Lim THEN FALSE      \* (TLC's integers might not do)
            ELSE LinInconsistent({PSub(PScale(p[m], r), PScale(Coef(r, m), p)) : r \in E \ {p}})

\* Variable i occurs in p only as the linear term c * x_i.
LinOnly(p, i) == LET e == [j \in Vars |-> IF j = i THEN 1 ELSE 0]
                 IN e \in DOMAIN p /\ \A m \in DOMAIN p \ {e} : m[i] = 0
LinCoef(p, i) == p[[j \in Vars |-> IF j = i THEN 1 ELSE 0]]

\* A search for a solution among small numbers (smaller ones for polynomials
\* of higher degree, whose values must fit TLC's integers).
Deg(m) == MapThenSumSet(LAMBDA i : m[i], Vars)
Small(p) == \A m \in DOMAIN p : Abs(p[m]) <= 30000
BoxSolvable(E) ==
    LET vs == UNION {PVars(p) : p \in E}
        d == Max({Deg(m) : m \in UNION {DOMAIN p : p \in E}})
        n == Cardinality(vs)
        box == IF d <= 3 /\ n <= 2 THEN -12..12 ELSE IF d <= 5 THEN -1..6 ELSE 0..3
        full(a) == [i \in Vars |-> IF i \in vs THEN a[i] ELSE 0]
    IN /\ n <= 3 /\ d <= 8
       /\ \A p \in E : Small(p)
       /\ \E a \in [vs -> box] : \A p \in E : PEval(p, full(a)) = 0

(***************************************************************************)
(* Buchberger's algorithm, with pseudo-division in place of fractions.     *)
(* Every polynomial it derives lies in the ideal of E, so a nonzero        *)
(* constant among them shows that E has no solution.  It gives up (FALSE)  *)
(* when the fuel is used up; a polynomial with coefficients too large for  *)
(* TLC's integers is dropped, which can only hide a constant.              *)
(***************************************************************************)
Lower(m, n) == \/ Deg(m) < Deg(n)
               \/ /\ Deg(m) = Deg(n)
                  /\ \E i \in Vars : m[i] < n[i] /\ \A j \in 1..(i - 1) : m[j] = n[j]
Lead(p) == CHOOSE m \in DOMAIN p : \A n \in DOMAIN p \ {m} : Lower(n, m)
Divides(m, n) == \A i \in Vars : m[i] <= n[i]
MQuo(n, m) == TLCEval([i \in Vars |-> n[i] - m[i]])
MLcm(m, n) == TLCEval([i \in Vars |-> IF m[i] > n[i] THEN m[i] ELSE n[i]])
Shift(p, m) == TLCEval([n \in {MMul(d, m) : d \in DOMAIN p} |-> p[MQuo(n, m)]])
\* a polynomial with its leading monomial
WithLead(p) == [p |-> p, l |-> IF p = ZeroP THEN One ELSE Lead(p)]
\* the leading terms of p and q cancelled against each other
Cancel(a, b) == LET l == MLcm(a.l, b.l)
                    g == Gcd(a.p[a.l], b.p[b.l])
                IN WithLead(Prim(PSub(PScale(b.p[b.l] \div g, Shift(a.p, MQuo(l, a.l))),
                                      PScale(a.p[a.l] \div g, Shift(b.p, MQuo(l, b.l))))))
RECURSIVE Reduce(_, _, _)
Reduce(a, G, fuel) ==
    IF a.p = ZeroP THEN a
    ELSE IF ~Small(a.p) \/ fuel = 0 THEN WithLead(ZeroP)
    ELSE LET by == {g \in G : Divides(g.l, a.l)}
         IN IF by = {} THEN a ELSE Reduce(Cancel(a, CHOOSE g \in by : TRUE), G, fuel - 1)
\* Pairs whose leading monomials have no variable in common reduce to zero.
PairsOf(r, G) == {{r, g} : g \in {g \in G : \E i \in Vars : g.l[i] > 0 /\ r.l[i] > 0}}
PairDeg(pr) == Deg([i \in Vars |-> Max({g.l[i] : g \in pr})])
RECURSIVE Buchberger(_, _, _)
Buchberger(G, pairs, fuel) ==
    IF \E g \in G : IsConst(g.p) THEN TRUE
    ELSE IF pairs = {} \/ fuel = 0 THEN FALSE
    ELSE LET pr == CHOOSE pr \in pairs : \A other \in pairs : PairDeg(pr) <= PairDeg(other)
             a == CHOOSE a \in pr : TRUE
             b == CHOOSE b \in pr \ {a} : TRUE
             r == Reduce(Cancel(a, b), G, 40)
         IN IF r.p = ZeroP THEN Buchberger(G, pairs \ {pr}, fuel - 1)
            ELSE Buchberger(G \cup {r}, (pairs \ {pr}) \cup PairsOf(r, G), fuel - 1)
Inconsistent(E0) ==
    LET E == {WithLead(Prim(p)) : p \in {p \in E0 : Small(Prim(p))}}
    IN Buchberger(E, UNION {PairsOf(g, E \ {g}) : g \in E}, 60)

RECURSIVE Solve(_)
Solve(E0) ==
    LET E == E0 \ {ZeroP} IN
    IF E = {} THEN "yes"
    ELSE IF \E p \in E : IsConst(p) THEN "no"
    ELSE LET unit == {x \in E \X Vars : LinOnly(x[1], x[2]) /\ Abs(LinCoef(x[1], x[2])) = 1}
             divs == {x \in E \X Vars : /\ LinOnly(x[1], x[2]) /\ PVars(x[1]) = {x[2]}
                                        /\ ConstOf(x[1]) % Abs(LinCoef(x[1], x[2])) = 0}
             \* what x[1] = 0 says x[2] is
             is(x) == LET c == LinCoef(x[1], x[2])
                      IN IF x \in unit THEN PScale(-c, PSub(x[1], PScale(c, PVar(x[2]))))
                         ELSE PConst((-ConstOf(x[1]) * (IF c < 0 THEN -1 ELSE 1)) \div Abs(c))
             all == IF unit # {} THEN unit ELSE divs
             fit == {x \in all : \A r \in E : r = x[1] \/ MayPut(r, x[2], is(x))}
         IN IF fit # {} THEN LET x == CHOOSE x \in fit : TRUE
                                 q == is(x)
                             IN Solve({PSubst(r, x[2], q) : r \in E \ {x[1]}})
            ELSE IF \E x \in unit \cup divs : /\ PVars(x[1]) = {x[2]}
                                             /\ \E r \in E : ModNonzero(r, x[2], ConstOf(is(x))) THEN "no"
            ELSE IF LinInconsistent(E) THEN "no"
            ELSE IF BoxSolvable(E) THEN "yes"
            ELSE IF Inconsistent(E) THEN "no"
            ELSE "maybe"
=============================================================================
