------------------------------- MODULE MC_Rat -------------------------------
(* The override Rat.java against TLA+ integer arithmetic and algebraic laws.   *)
EXTENDS Rat, TLC, FiniteSets
VARIABLES p, q
N == -4..4
D == 1..4
Fr == N \X D
V(x) == RFrac(x[1], x[2])
Abs(i) == IF i < 0 THEN -i ELSE i
EqF(r, n, d) == REq(r, RDiv(RInt(n), RInt(d))) /\ r = RFrac(n, d)
Init == p \in Fr /\ q \in Fr
Next == UNCHANGED <<p, q>>
FloorOf(n, d) == CHOOSE k \in -20..20 : k * d <= n /\ n < (k + 1) * d
Arith ==
  /\ EqF(RAdd(V(p), V(q)), p[1]*q[2] + q[1]*p[2], p[2]*q[2])
  /\ EqF(RSub(V(p), V(q)), p[1]*q[2] - q[1]*p[2], p[2]*q[2])
  /\ EqF(RMul(V(p), V(q)), p[1]*q[1], p[2]*q[2])
  /\ q[1] # 0 => EqF(RDiv(V(p), V(q)), p[1]*q[2], p[2]*q[1])
  /\ EqF(RNeg(V(p)), -p[1], p[2])
  /\ EqF(RAbs(V(p)), Abs(p[1]), p[2])
  /\ RSign(V(p)) = (IF p[1] > 0 THEN 1 ELSE IF p[1] < 0 THEN -1 ELSE 0)
Order ==
  /\ RLt(V(p), V(q)) = (p[1]*q[2] < q[1]*p[2])
  /\ RLe(V(p), V(q)) = (p[1]*q[2] <= q[1]*p[2])
  /\ RGt(V(p), V(q)) = (p[1]*q[2] > q[1]*p[2])
  /\ RGe(V(p), V(q)) = (p[1]*q[2] >= q[1]*p[2])
  /\ REq(V(p), V(q)) = (p[1]*q[2] = q[1]*p[2])
  /\ RMax2(V(p), V(q)) = (IF p[1]*q[2] >= q[1]*p[2] THEN V(p) ELSE V(q))
  /\ RMin2(V(p), V(q)) = (IF p[1]*q[2] <= q[1]*p[2] THEN V(p) ELSE V(q))
Rounding ==
  /\ RFloor(V(p)) = RInt(FloorOf(p[1], p[2])) /\ RToInt(V(p)) = FloorOf(p[1], p[2])
  /\ RFix(V(p), 3) = RFrac(FloorOf(8*p[1], p[2]), 8)   \* may exceed -20..20 only for |8p| > 20
  /\ LET r == RRound(V(p), 0) IN
       /\ RFloor(r) = r
       /\ RLe(RAbs(RSub(r, V(p))), "1/2")
       /\ REq(RAbs(RSub(r, V(p))), "1/2") => RMul("2", RFloor(RDiv(r, "2"))) = r
  /\ RLe(RAbs(RSub(RRound(V(p), 2), V(p))), "1/200")
  /\ RFloor(RMul(RRound(V(p), 2), "100")) = RMul(RRound(V(p), 2), "100")
  /\ p[1] >= 0 => LET s == RSqrt(V(p), 20) IN
       RLe(RMul(s, s), V(p)) /\ RLt(V(p), RPow(RAdd(s, RPow("2", -20)), 2))
  /\ p[1] > 0 => RLe(RPow("2", RLog2(V(p))), V(p)) /\ RLt(V(p), RPow("2", RLog2(V(p)) + 1))
  /\ RPow(V(p), 3) = RMul(V(p), RMul(V(p), V(p)))
  /\ p[1] # 0 => RMul(RPow(V(p), -2), RMul(V(p), V(p))) = "1"
  /\ LET f == RFl(V(p)) IN
       /\ RFl(f) = f
       /\ RLe(RAbs(RSub(f, V(p))), RMul(RAbs(V(p)), RPow("2", -53)))
       /\ p[2] \in {1, 2, 4} => f = V(p)
SmallFix == Abs(8*p[1]) <= 20*p[2]
Vec ==
  LET s == <<V(p), V(q), V(p)>>  t == <<V(q), "2", "1/3">> IN
  /\ RSum(s) = RAdd(RAdd(V(p), V(q)), V(p))
  /\ RDot(s, t) = RAdd(RAdd(RMul(V(p), V(q)), RMul(V(q), "2")), RMul(V(p), "1/3"))
  /\ RMaxSeq(s) = RMax2(V(p), V(q)) /\ RMinSeq(s) = RMin2(V(p), V(q))
  /\ RMaxAbs(s) = RMax2(RAbs(V(p)), RAbs(V(q)))
  /\ LET u == RSort(<<V(q), V(p), "0">>) IN
       RLe(u[1], u[2]) /\ RLe(u[2], u[3]) /\ RSum(u) = RAdd(V(p), V(q))
       /\ {u[1], u[2], u[3]} = {V(p), V(q), "0"}
  /\ \A i \in 1..3 :
       /\ RLin("2", s, "-1/5", t)[i] = RAdd(RMul("2", s[i]), RMul("-1/5", t[i]))
       /\ RShift(s, "7/3")[i] = RAdd(s[i], "7/3")
       /\ RScale("7/3", s)[i] = RMul("7/3", s[i])
       /\ RHad(s, t)[i] = RMul(s[i], t[i])
  /\ RFar(s, t, "1/2") = SelectSeq(<<1, 2, 3>>, LAMBDA i : RGt(RAbs(RSub(s[i], t[i])), "1/2"))
  /\ RIsFin(V(p)) /\ ~RIsFin("nan") /\ ~RIsFin("-inf") /\ ~RAllFin(<<V(p), "inf">>) /\ RAllFin(s)
RoundingC == SmallFix => Rounding
=============================================================================
