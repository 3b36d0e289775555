------------------------------ MODULE MC_Detect ------------------------------
(* Spike detectors on every small record, sample by sample (C08-C11, C13, C24,   *)
(* C30): symmetries the tests must have, monotonicity in their thresholds, and    *)
(* what the judge accepts and rejects.  Mode "one" records one series, "two"      *)
(* a second one alongside (the third component is derived).                        *)
EXTENDS MCBase
CONSTANTS Samples, Others, MaxOne, MaxTwo
VARIABLES mode, x, y
vars == <<mode, x, y>>
Init == mode \in {"one", "two"} /\ x = <<>> /\ y = <<>>
\* <<frequency, gravity, k_gravity, k_sigma>>
AccPar == <<<<"1", "1", "1", "1">>, <<"2", "1/2", "0", "1/2">>, <<"1/2", "1", "1/2", "0">>, <<"1", "1", "-1", "-1">>>>
Third(a, b) == [i \in 1..Len(a) |-> a[i] - 2 * b[i] + (IF i % 3 = 0 THEN 1 ELSE 0)]
PollK == <<"0", "1/2", "1", "2">>
One(v) == /\ x' = Append(x, v) /\ UNCHANGED <<mode, y>>
          /\ EmitCase([op |-> "ser", x |-> x'])
          /\ LET p == AccPar[((Len(x') + v + 8) % 4) + 1] IN
             EmitCase([op |-> "acc", x |-> x', fq |-> RStr(p[1]), g |-> RStr(p[2]), kg |-> RStr(p[3]), ks |-> RStr(p[4])])
Two(v, w) == /\ x' = Append(x, v) /\ y' = Append(y, w) /\ UNCHANGED mode
             /\ EmitCase([op |-> "tri", u |-> x', v |-> y', w |-> Third(x', y')])
             /\ EmitCase([op |-> "poll", x |-> x', f |-> y', kk |-> RStr(PollK[((Len(x') + v + w + 16) % 4) + 1])])
Next == \/ mode = "one" /\ Len(x) < MaxOne /\ \E v \in Samples : One(v)
        \/ mode = "two" /\ Len(x) < MaxTwo /\ \E v \in Samples : \E w \in Others : Two(v, w)
Spec == Init /\ [][Next]_vars
n == Len(x)
V == X(x)
W == X(y)
Neg(v) == RScale("-1", v)
Sub3(a, b) == \A i \in 1..Len(a) : a[i] = "T" => b[i] # "F"      \* what a flags, b flags too
\* ---- C08 -----------------------------------------------------------------
AccelLaws == (mode = "one" /\ n > 0) => \A k \in 1..Len(AccPar) :
  LET p == AccPar[k]
      A(v, t) == Accel(v, p[1], t, p[2], p[3], p[4]) IN
  /\ A(V, -1) = A(Neg(V), 1)                                     \* tag 2 is tag 1 on the mirrored record
  /\ Agree(A(V, 1), A(RShift(V, "8"), 1))                        \* an offset changes nothing
  /\ (RSign(p[3]) >= 0 => A(V, 1)[1] = "F")                      \* the first sample has no acceleration
  /\ Sub3(Accel(V, p[1], 1, p[2], RAdd(p[3], "1"), p[4]), A(V, 1))
  /\ Sub3(Accel(V, p[1], 1, p[2], p[3], RAdd(p[4], "1")), A(V, 1))
  /\ (RSign(p[4]) > 0 => \E i \in 1..n : A(V, 1)[i] # "T")
\* ---- C09 / C11 -------------------------------------------------------------
PhaseLaws == (mode = "one" /\ n >= 2) =>
  LET P == PhaseSpace(V) IN
  /\ P = PhaseSpace(Neg(V))
  /\ Agree(Rev(P), PhaseSpace(Rev(V)))
  /\ Agree(P, PhaseSpace(RScale("2", V)))                        \* even multiples stay on the 4-decimal grid
  /\ (IsConst(V) => P \in {AllF(n), AllU(n)})
  /\ LET sp == SphericalDegenerate(RScale("100", V)) IN
     ~sp => LET Q == Spherical(RScale("100", V)) IN
            /\ Agree(Q, Spherical(RShift(RScale("100", V), "7")))
            /\ Agree(Q, Spherical(RScale("-100", V)))
            /\ Agree(Rev(Q), Spherical(RScale("100", Rev(V))))
\* a sample no further from the centre than the semi-axis of every ellipse cannot be flagged by the first two
\* ---- C10 ---------------------------------------------------------------------
Z3 == X(Third(x, y))
CorrLaws == (mode = "two" /\ n >= 2) =>
  LET C == VelCorr(V, W, Z3) IN
  /\ Agree(C, VelCorr(RShift(V, "3"), RShift(W, "-5"), RShift(Z3, "1/2")))
  /\ Agree(Rev(C), VelCorr(Rev(V), Rev(W), Rev(Z3)))              \* the order in time is irrelevant
  /\ Agree(C, VelCorr(Neg(V), Neg(W), Neg(Z3)))
  /\ Agree(C, VelCorr(RScale("3", V), RScale("3", W), RScale("3", Z3)))
  /\ VelCorr(Const(n, "2"), Const(n, "1"), Const(n, "7")) = AllF(n)
\* ---- C24 -----------------------------------------------------------------------
Cnt(P, s) == Cardinality({i \in 1..Len(P) : P[i] \in s})
PollLaws == (mode = "two" /\ n >= 1) => \A k \in 1..Len(PollK) :
  LET P == Pollution(V, W, PollK[k]) IN
  /\ Cnt(Pollution(V, V, PollK[k]), {"T"}) = 0
  /\ (k < Len(PollK) => Sub3(Pollution(V, W, PollK[k + 1]), P))
  /\ Agree(P, Pollution(RShift(V, "4"), RShift(W, "4"), PollK[k]))
  /\ Agree(P, Pollution(Neg(V), Neg(W), PollK[k]))
  /\ LET ev(o) == [op |-> "poll", x |-> V, f |-> W, kk |-> PollK[k], out |-> o]
         r(c) == RFrac(100 * c, n)  t == Cnt(P, {"T"})  h == Cnt(P, {"T", "U"}) IN
     /\ \A c \in t..h : Clauses(Start, ev(NumO(r(c)))) = {}
     /\ \A c \in (0..n) \ (t..h) : Clauses(Start, ev(NumO(r(c)))) = {"C24.value"}
     /\ Clauses(Start, ev(NumO(RAdd(r(t), "1/1000")))) # {}
\* ---- C30 ------------------------------------------------------------------------
PreLaws == (mode = "one" /\ n >= 1) => \A k1 \in {"1/2", "2"} : \A k2 \in {"1/4", "1"} :
  LET R == PreRemovable(V, k2)  K == PreKeep(V, k1)
      S == {i \in 1..n : R[i] = "T"}  y1 == PreApply(V, S)
      ev(a, s) == [op |-> "pre", x |-> V, k1 |-> k1, k2 |-> k2, out |-> TupO(<<Arr(a), IArr(s)>>)]
      keep == Sorted({i - 1 : i \in TrueAt(K)}) IN
  /\ \A i \in 1..n : (i \notin S \/ i = 1) => y1[i] = V[i]
  /\ \A i \in 2..n : i \in S => y1[i] = y1[i - 1]
  /\ Sub3(PreRemovable(V, RAdd(k2, "1")), R)
  /\ PreApply(y1, S) = y1
  /\ (Decided(R) /\ Decided(K)) =>
       /\ Clauses(Start, ev(y1, keep)) = {}
       /\ \A i \in 1..n : "C30.series" \in Clauses(Start, ev(Bump(y1, i, E(9)), keep))
       /\ \A i \in 1..n : "C30.unremovable" \in
            Clauses(Start, ev(y1, Sorted({j - 1 : j \in IF i \in TrueAt(K) THEN TrueAt(K) \ {i} ELSE TrueAt(K) \cup {i}})))
\* ---- the judge: exactly the verdicts, in exactly the right form -------------------
Flags(P) == Sorted({i - 1 : i \in TrueAt(P)})
Toggle(P, i) == Sorted({j - 1 : j \in IF i \in TrueAt(P) THEN TrueAt(P) \ {i} ELSE TrueAt(P) \cup {i}})
Accepts(ev(_), P, prop) ==
  /\ NoSkip(Clauses(Start, ev(IArr(Flags(P))))) = {}
  /\ \A i \in 1..Len(P) : P[i] # "U" =>
       (IF P[i] = "T" THEN prop \o ".missed" ELSE prop \o ".spurious") \in Clauses(Start, ev(IArr(Toggle(P, i))))
  /\ "C13.range" \in Clauses(Start, ev(IArr(Append(Flags(P), Len(P)))))
  /\ (Len(Flags(P)) > 0 => "C13.increasing" \in Clauses(Start, ev(IArr(Append(Flags(P), Flags(P)[1])))))
  /\ "C13.integer" \in Clauses(Start, ev([IArr(Flags(P)) EXCEPT !.kind = "f"]))
Judged ==
  /\ (mode = "one" /\ n >= 1) =>
       LET p == AccPar[1] IN
       Accepts(LAMBDA o : [op |-> "acc", tag |-> 1, x |-> V, fq |-> p[1], g |-> p[2], kg |-> p[3], ks |-> p[4], out |-> o],
               Accel(V, p[1], 1, p[2], p[3], p[4]), "C08")
  /\ (mode = "one" /\ n >= 2 /\ ~IsConst(V)) => Accepts(LAMBDA o : [op |-> "pst", x |-> V, out |-> o], PhaseSpace(V), "C09")
  /\ (mode = "one" /\ n >= 5 /\ ~SphericalDegenerate(RScale("100", V))) =>
       Accepts(LAMBDA o : [op |-> "sph", x |-> RScale("100", V), out |-> o], Spherical(RScale("100", V)), "C11")
  /\ (mode = "two" /\ n >= 2) => Accepts(LAMBDA o : [op |-> "vc", u |-> V, v |-> W, w |-> Z3, out |-> o], VelCorr(V, W, Z3), "C10")
=============================================================================
