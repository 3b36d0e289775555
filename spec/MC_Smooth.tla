------------------------------ MODULE MC_Smooth ------------------------------
(* Smoothers as filters fed sample by sample (C16, C17, C07).  The scalar        *)
(* Kalman filter is a genuine transition system: est/cov evolve with each        *)
(* measurement; the record so far is kept to compare with the batch operators.   *)
EXTENDS MCBase
CONSTANTS Samples, MaxN
VARIABLES x, kf          \* kf: for each parameter set, <<estimate, covariance, estimates so far>>
vars == <<x, kf>>
\* <<x0, p0, Q, R>>
Params == <<<<"0", "1", "1/4", "1/2">>, <<"5", "1/2", "0", "2">>, <<"-1", "0", "1/3", "1">>, <<"2", "3", "1", "0">>>>
Init == x = <<>> /\ kf = Tab(Len(Params), LAMBDA p : <<Params[p][1], Params[p][2], <<>>>>)
Measure(v) ==
  /\ x' = Append(x, v)
  /\ kf' = Tab(Len(Params), LAMBDA p : LET s == KalmanStep(<<kf[p][1], kf[p][2]>>, RInt(v), Params[p][3], Params[p][4])
                                       IN  <<s[1], s[2], Append(kf[p][3], s[1])>>)
Next == /\ Len(x) < MaxN
        /\ \E v \in Samples :
             /\ Measure(v)
             /\ EmitCase([op |-> "ser", x |-> x'])
             /\ LET p == Params[((Len(x') + v + 8) % 4) + 1] IN
                EmitCase([op |-> "kal", x |-> x', x0 |-> RStr(p[1]), p0 |-> RStr(p[2]), Q |-> RStr(p[3]), R |-> RStr(p[4])])
Spec == Init /\ [][Next]_vars
V == X(x)
n == Len(x)
Lo == RMinSeq(V)
Hi == RMaxSeq(V)
In(v) == \A i \in 1..Len(v) : RLe(Lo, v[i]) /\ RLe(v[i], Hi)
\* averages stay within the range of the data, reproduce constants, commute with affine maps
Bounded == n > 0 => /\ \A w \in 1..n : In(SMA(V, w)) /\ In(WMA(V, w))
                    /\ \A a \in {"1/4", "1/2", "1"} : In(EMA(V, a))
Laws == n > 0 =>
  /\ EqV(SMA(V, 1), V) /\ EqV(EMA(V, "1"), V)
  /\ SMA(V, n)[n] = Mean(V) /\ SMA(V, n)[1] = V[1]
  /\ EqV(WMA(V, 1), SubSeq(V, 1, n - 1)) /\ Len(WMA(V, n)) = 0
  /\ \A w \in 1..n :
       /\ EqV(SMA(Affine("3", "-2", V), w), Affine("3", "-2", SMA(V, w)))
       /\ EqV(WMA(Affine("3", "-2", V), w), Affine("3", "-2", WMA(V, w)))
       \* the update the code documents
       /\ \A i \in (w + 1)..n : REq(SMA(V, w)[i], RAdd(SMA(V, w)[i - 1], RDiv(RSub(V[i], V[i - w]), RInt(w))))
  /\ \A i \in 2..n : REq(EMA(V, "1/4")[i], RAdd(RMul("1/4", V[i]), RMul("3/4", EMA(V, "1/4")[i - 1])))
  /\ WeightSum(n) = RSum(Ramp(n))
KalmanLaws == \A p \in 1..Len(Params) :
  LET s == kf[p]  P == Params[p]  K == Kalman(V, P[1], P[2], P[3], P[4]) IN
  /\ EqV(K, s[3]) /\ RSign(s[2]) >= 0
  /\ (n > 0 => RLe(s[2], RAdd(P[4], E(30))))                   \* the posterior variance is at most R
  /\ (RSign(P[4]) = 0 => RFar(K, V, E(30)) = <<>>)             \* a perfect sensor is believed
  /\ \A i \in 1..n : Between(K[i], IF i = 1 THEN P[1] ELSE K[i - 1], V[i], E(30))
\* the judge accepts the reference and rejects a changed sample, a shifted or truncated series
Ev(op, out) ==
  CASE op = "sma" -> [op |-> op, x |-> V, win |-> 2, out |-> out]
    [] op = "ema" -> [op |-> op, x |-> V, al |-> "1/4", out |-> out]
    [] op = "wma" -> [op |-> op, x |-> V, per |-> 1, out |-> out]
    [] op = "kal" -> [op |-> op, x |-> V, x0 |-> "0", p0 |-> "1", Q |-> "1/4", R |-> "1/2", out |-> out]
Ref(op) == CASE op = "sma" -> SMA(V, 2) [] op = "ema" -> EMA(V, "1/4") [] op = "wma" -> WMA(V, 1) [] op = "kal" -> kf[1][3]
Judged == n > 2 =>
  /\ \A op \in {"sma", "ema", "wma", "kal"} :
       /\ Clauses(Start, Ev(op, Arr(Ref(op)))) = {}
       /\ \A i \in 1..Len(Ref(op)) : Clauses(Start, Ev(op, Arr(Bump(Ref(op), i, E(5))))) # {}
       /\ Clauses(Start, Ev(op, Arr(SubSeq(Ref(op), 1, Len(Ref(op)) - 1)))) # {}
       /\ Clauses(Start, Ev(op, Exc("ValueError"))) # {}
  /\ Clauses(Start, [Ev("sma", Arr(V)) EXCEPT !.win = 0]) = {"C16.rejects"}
  /\ Clauses(Start, [Ev("wma", Arr(V)) EXCEPT !.per = n + 1]) = {"C16.rejects"}
  /\ Clauses(Start, [Ev("ema", Arr(V)) EXCEPT !.al = "1001/1000"]) = {"C16.rejects"}
=============================================================================
