------------------------------- MODULE Stats -------------------------------
(* Statistics, smoothers and turbulence quantities (C14-C19).                  *)
EXTENDS Transc

N1(x)    == RInt(Len(x))
Mean(x)  == RDiv(RSum(x), N1(x))
\* population covariance:  E[(x-Ex)(y-Ey)]  =  (n*Sum xy - Sum x * Sum y) / n^2
Cov(x, y) == RDiv(RSub(RMul(N1(x), RDot(x, y)), RMul(RSum(x), RSum(y))), Sq(N1(x)))
Var(x)   == Cov(x, x)
Std(x)   == Sqrt(Var(x))
Centred(x) == RShift(x, RNeg(Mean(x)))
MaxDev(x) == RMaxAbs(Centred(x))
Moment(x, k) == LET d == Centred(x) IN Mean(Tab(Len(x), LAMBDA i : RPow(d[i], k)))
Skew(x)  == LET v == Var(x) IN RDiv(Moment(x, 3), RMul(v, Sqrt(v)))
Kurt(x)  == RDiv(Moment(x, 4), Sq(Var(x)))
Median(x) == LET s == RSort(x)  n == Len(x)  h == n \div 2 IN
             IF n % 2 = 1 THEN s[h + 1] ELSE RDiv(RAdd(s[h], s[h + 1]), "2")
CountOf(x, v) == Cardinality({i \in 1..Len(x) : REq(x[i], v)})
\* smallest value among the most frequent ones (x sorted scan)
ModeOf(x) ==
  LET s == RSort(x)  n == Len(x) IN
  FoldLeft(LAMBDA a, i :        \* a = <<run value, run length, best value, best count>>
     LET v == s[i]
         run == IF a[2] > 0 /\ REq(a[1], v) THEN a[2] + 1 ELSE 1
     IN  IF run > a[4] THEN <<v, run, v, run>> ELSE <<v, run, a[3], a[4]>>,
     <<"0", 0, "0", 0>>, Upto(n))

\* ---- smoothers -----------------------------------------------------------
SMA(x, w) == Tab(Len(x), LAMBDA i : Mean(Slice(x, MaxI(1, i - w + 1), i)))
EMA(x, al) ==
  LET be == RSub("1", al) IN
  FoldLeft(LAMBDA e, i : Append(e, IF i = 1 THEN x[1]
                                   ELSE Fx(RAdd(RMul(al, x[i]), RMul(be, e[i - 1])))),
           <<>>, Upto(Len(x)))
WeightSum(p) == RInt((p * (p + 1)) \div 2)
Ramp(p) == Tab(p, LAMBDA k : RInt(k))
WMA(x, p) == Tab(Len(x) - p, LAMBDA j : RDiv(RDot(Ramp(p), Slice(x, j, j + p - 1)), WeightSum(p)))

\* scalar Kalman filter: state <<estimate, covariance>>, one step per measurement
KalmanStep(s, z, Q, R) ==
  LET pp == RAdd(s[2], Q)
      K  == IF RSign(RAdd(pp, R)) = 0 THEN "0" ELSE Fx(RDiv(pp, RAdd(pp, R)))
  IN  <<Fx(RAdd(s[1], RMul(K, RSub(z, s[1])))), Fx(RMul(RSub("1", K), pp))>>
Kalman(x, x0, p0, Q, R) ==
  FoldLeft(LAMBDA a, i : LET s == KalmanStep(<<a[1], a[2]>>, x[i], Q, R)
                         IN  <<s[1], s[2], Append(a[3], s[1])>>,
           <<x0, p0, <<>>>>, Upto(Len(x)))[3]

\* room for rounding: 1 - K cancels when the noises are tiny next to the covariance, and the
\* error of the covariance enters the next gain with the factor R / (R + Q)^2
KalTol(x, x0, p0, Q, R) ==
  LET M == RMax2(RMaxAbs(x), RAbs(x0))  n == RInt(Len(x))
      amp == RDiv(RMul(RAdd(RMax2(p0, R), Q), R), Sq(RAdd(R, Q)))
  IN  IF RSign(RAdd(R, Q)) = 0 THEN "0"
      ELSE RMul(M, RAdd(RPow("10", -9), RMul(RPow("10", -15), RMul(Sq(n), amp))))

\* ---- turbulence ------------------------------------------------------------
TKE(u, v, w) == RMul(Half, RAdd(Var(u), RAdd(Var(v), Var(w))))
Reynolds(u, v, w) == <<Var(u), Var(v), Var(w), Cov(u, v), Cov(u, w), Cov(v, w)>>

\* ---- singular spectrum analysis, given an eigenbasis E (sequence of L vectors)
\* of the lag covariance C[a][b] = Sum_k x[k+a] x[k+b]
LagCov(x, L) == Tab(L, LAMBDA a : Tab(L, LAMBDA b :
                  RDot(Slice(x, a, Len(x) - L + a), Slice(x, b, Len(x) - L + b))))
DiffNorm2(v) == LET d == Tab(Len(v) - 1, LAMBDA i : RSub(v[i + 1], v[i])) IN RDot(d, d)
\* squared mobility, without rounding of the amplitude
Mobility2(v) == LET L == RInt(Len(v)) IN
                RDiv(RMul(DiffNorm2(v), Sq(L)), RMul(RDot(v, v), Sq(RSub(L, "1"))))
SineProbe(L, f, fs) == Tab(L, LAMBDA k : Sin(RDiv(RMul(RMul("2", Pi), RMul(RInt(k - 1), f)), fs)))
\* anti-diagonal average of the projection on the span of the vectors in B
Reconstruct(x, L, B) ==
  LET n == Len(x)  K == n - L + 1
      \* coefficient of vector b on column k
      co == Tab(Len(B), LAMBDA b : Tab(K, LAMBDA k : RDot(B[b], Slice(x, k, k + L - 1))))
      Y(r, k) == RSum(Tab(Len(B), LAMBDA b : RMul(B[b][r], co[b][k])))
  IN  Tab(n, LAMBDA t :
        LET rs == Sorted({r \in 1..L : t - r + 1 >= 1 /\ t - r + 1 <= K}) IN
        RDiv(RSum(Tab(Len(rs), LAMBDA q : Y(rs[q], t - rs[q] + 1))), RInt(Len(rs))))
=============================================================================
