-------------------------------- MODULE Optim --------------------------------
(* Bracketing root finder and bounded minimiser (C25, C26) as abstract machines *)
(* over the log of target evaluations: log is a sequence of <<x, f(x)>>.        *)
EXTENDS Transc

\* ---- root finder --------------------------------------------------------------
Opposite(a, b) == RSign(a) * RSign(b) < 0
Inside(x, lo, hi) == RLe(lo, x) /\ RLe(x, hi)
LogAt(log, x) == {i \in 1..Len(log) : REq(log[i][1], x)}
\* r is certified by the log: an evaluated exact zero, or an evaluated point with an
\* evaluated neighbour of the opposite sign within the tolerance
CertRoot(log, r, tol) ==
  \E i \in LogAt(log, r) :
     \/ RSign(log[i][2]) = 0
     \/ \E j \in 1..Len(log) : Opposite(log[i][2], log[j][2]) /\ RLe(RAbs(RSub(log[j][1], r)), tol)
\* tightest sign-change bracket known after the first k evaluations
\* (the machine's state; Step k+1 must evaluate inside the initial bracket)
AllInside(log, lo, hi) == \A i \in 1..Len(log) : Inside(log[i][1], lo, hi)

\* ---- minimiser -------------------------------------------------------------------
BestValue(log) == RMinSeq([i \in 1..Len(log) |-> log[i][2]])
=============================================================================
