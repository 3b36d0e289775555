------------------------------- MODULE MC_Poly -------------------------------
(* Regression- and spline-based replacement (C05, C06) on records that are       *)
(* polynomials in time with small coefficients: a degree-d fit restores a        *)
(* polynomial of degree <= d, the 12+12 spline restores a cubic.  Samples are     *)
(* flagged one after the other.                                                   *)
EXTENDS MCBase
CONSTANTS Coefs, Long, Short, LongSpots, ShortSpots, MaxF
VARIABLES c, F, kind     \* coefficients (degree 0..3), flagged positions, which replacement
vars == <<c, F, kind>>
Poly(t) == RAdd(RInt(c[1]), RMul(RFrac(t, 8), RAdd(RInt(c[2]), RMul(RFrac(t, 8), RAdd(RInt(c[3]),
             RMul(RFrac(t, 8), RInt(IF kind = "poly" THEN 0 ELSE c[4])))))))
Clean(m) == Tab(m, LAMBDA t : Poly(t))
N == IF kind = "cubic" THEN Long ELSE Short
Spiked(G) == LET y == Clean(N) IN Tab(N, LAMBDA t : IF t \in G THEN RAdd(y[t], "50") ELSE y[t])
Init == c \in Coefs /\ kind \in {"cubic", "poly"} /\ F = {}
Spots == IF kind = "cubic" THEN LongSpots ELSE ShortSpots
Next == /\ Cardinality(F) < MaxF
        /\ \E p \in Spots :
             /\ \A q \in F : p > q
             /\ F' = F \cup {p} /\ UNCHANGED <<c, kind>>
             /\ LET y == Spiked(F') IN
                EmitCase([op |-> "rep", kind |-> kind, x |-> Tab(N, LAMBDA t : RStr(y[t])),
                          idx |-> Sorted({q - 1 : q \in F'}), dec |-> 6])
Spec == Init /\ [][Next]_vars
\* facts about the weights alone
ASSUME RSum(SplineWeights) = "1"
ASSUME LET w == SplineWeights IN \A j \in 1..24 : w[j] = w[25 - j]
ASSUME LET w == SplineWeights IN \A d \in 0..3 :      \* reproduces every cubic at the missing knot
         REq(RSum(Tab(24, LAMBDA j : RMul(w[j], RPow(RInt(Knot(j) - 13), d)))), IF d = 0 THEN "1" ELSE "0")
ASSUME \A m \in {4, 6, 12} : \A d \in 1..3 :
         LET w == PolyWeights(m, d) IN
         /\ RSum(w) = "1"
         /\ \A k \in 1..d : REq(RSum(Tab(m, LAMBDA j : RMul(w[j], RPow(RInt(j - m - 1), k)))), "0")
Inner == {p \in F : p - 1 > 30 /\ p - 1 < Long - 30}
S == Spiked(F)
Ev(x, out) == [op |-> "rep", m |-> kind, x |-> x, idx |-> Sorted({q - 1 : q \in F}), dec |-> 6, win |-> 12, deg |-> 2, per |-> 20, nan |-> <<>>,
               alias |-> FALSE, form |-> "arr", out |-> out, sm |-> [k |-> "none"]]
Repl(x) == IF kind = "cubic" THEN Cubic12(x, F) ELSE PolyRepl(x, F, 12, 2, 6)[1]
Restores ==
  F # {} =>
  LET x == S  y == Repl(x)  ref == Round(y, 6) IN
  /\ \A t \in (1..N) \ F : y[t] = x[t]
  /\ (kind = "cubic" /\ Inner = F /\ Cardinality(F) = 1) => EqV(y, Clean(N))
  /\ (kind = "poly" /\ F \cap (1..11) = {}) => EqV(y, Clean(N))
  \* the judge accepts the restored record and rejects one that is off at a flagged or another sample
  /\ Clauses(Start, Ev(x, Arr(ref))) = {}
  /\ LET p == CHOOSE q \in F : TRUE IN (RepProp(kind) \o ".value") \in Clauses(Start, Ev(x, Arr(Bump(ref, p, "1/100"))))
  /\ (N - 1) \notin F => "C01.unflagged" \in Clauses(Start, Ev(x, Arr(Bump(ref, N - 1, "1/100"))))
\* constants for the configurations
CoefsQ == {<<1, -1, 1, 1>>, <<0, 1, 0, -1>>}
CoefsD == [1..4 -> {-1, 0, 1}]
LongQ == {1, 31, 32, 33, 34, 64}
LongD == {1, 2, 12, 30, 31, 32, 33, 34, 35, 64}
ShortQ == {1, 2, 11, 12, 13, 16}
ShortD == {1, 2, 5, 10, 11, 12, 13, 14, 16}
=============================================================================
