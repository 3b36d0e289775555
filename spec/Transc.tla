------------------------------- MODULE Transc -------------------------------
(* Elementary functions by their power series / continued fractions, evaluated *)
(* in exact rational arithmetic truncated to multiples of 2^-PB.                *)
EXTENDS Num

PB == 200
Fx(a) == RFix(a, PB)

\* sum_{k=0..n} t_k with t_0 = t0 and t_k = t_{k-1} * r(k)
Series(n, t0, r(_)) ==
  FoldLeft(LAMBDA a, k : LET t == Fx(RMul(a[1], r(k))) IN <<t, RAdd(a[2], t)>>,
           <<t0, t0>>, Upto(n))[2]

Sqrt(x) == RSqrt(x, PB)

\* e^x, x >= 0: halve until <= 1/16, Taylor, square back
ExpPos(x) ==
  LET k == IF RLe(x, "1/16") THEN 0 ELSE RLog2(x) + 5
      y == RDiv(x, RPow("2", k))
      s == Series(30, "1", LAMBDA i : RDiv(y, RInt(i)))
  IN  FoldLeft(LAMBDA a, i : Fx(Sq(a)), s, Upto(k))
Exp(x) == IF RSign(x) >= 0 THEN ExpPos(x) ELSE RDiv("1", ExpPos(RNeg(x)))

\* atanh-type series 2*(y + y^3/3 + ...)
AtanhSer(y, n) ==
  LET y2 == Fx(Sq(y)) IN
  RMul("2", FoldLeft(LAMBDA a, k : LET p == Fx(RMul(a[1], y2)) IN
                        <<p, RAdd(a[2], Fx(RDiv(p, RInt(2*k + 1))))>>,
                     <<y, y>>, Upto(n))[2])
Ln2 == AtanhSer("1/3", 70)
Ln(x) ==   \* x > 0
  LET e == RLog2(x)
      m0 == RDiv(x, RPow("2", e))                  \* [1,2)
      big == RGt(m0, "3/2")
      m  == IF big THEN RDiv(m0, "2") ELSE m0      \* [3/4, 3/2]
      k  == IF big THEN e + 1 ELSE e
  IN  RAdd(RMul(RInt(k), Ln2), AtanhSer(Fx(RDiv(RSub(m, "1"), RAdd(m, "1"))), 45))

AtanSer(y, n) ==
  LET y2 == RNeg(Fx(Sq(y))) IN
  FoldLeft(LAMBDA a, k : LET p == Fx(RMul(a[1], y2)) IN
              <<p, RAdd(a[2], Fx(RDiv(p, RInt(2*k + 1))))>>,
           <<y, y>>, Upto(n))[2]
Pi == RSub(RMul("16", AtanSer(Fx("1/5"), 50)), RMul("4", AtanSer(Fx("1/239"), 20)))
AtanHalve(y) == Fx(RDiv(y, RAdd("1", Sqrt(RAdd("1", Sq(y))))))
AtanUnit(y) == RMul("4", AtanSer(AtanHalve(AtanHalve(y)), 45))      \* |y| <= 1
Atan(x) ==
  IF RLe(RAbs(x), "1") THEN AtanUnit(x)
  ELSE LET h == RSub(RDiv(Pi, "2"), AtanUnit(RDiv("1", RAbs(x)))) IN
       IF RSign(x) > 0 THEN h ELSE RNeg(h)
Atan2(y, x) ==
  CASE RSign(x) > 0 -> Atan(RDiv(y, x))
    [] RSign(x) < 0 /\ RSign(y) >= 0 -> RAdd(Atan(RDiv(y, x)), Pi)
    [] RSign(x) < 0 /\ RSign(y) < 0  -> RSub(Atan(RDiv(y, x)), Pi)
    [] RSign(x) = 0 -> RMul(RInt(RSign(y)), RDiv(Pi, "2"))

\* |x| up to about 8
Sin(x) == LET x2 == RNeg(Fx(Sq(x))) IN
          Series(40, Fx(x), LAMBDA k : RDiv(x2, RInt(2*k*(2*k + 1))))
Cos(x) == LET x2 == RNeg(Fx(Sq(x))) IN
          Series(40, "1", LAMBDA k : RDiv(x2, RInt((2*k - 1)*2*k)))
Tan(x) == RDiv(Sin(x), Cos(x))

SqrtPi == Sqrt(Pi)
ErfSmall(x) ==       \* |x| <= 3
  LET x2 == RNeg(Fx(Sq(x))) IN
  RDiv(RMul("2", FoldLeft(LAMBDA a, k : LET p == Fx(RDiv(RMul(a[1], x2), RInt(k))) IN
                              <<p, RAdd(a[2], Fx(RDiv(p, RInt(2*k + 1))))>>,
                          <<Fx(x), Fx(x)>>, Upto(90))[2]), SqrtPi)
ErfcBig(x) ==        \* x >= 2: continued fraction, relative accuracy
  LET t == FoldLeft(LAMBDA a, j : Fx(RDiv(RFrac(161 - j, 2), RAdd(x, a))), "0", Upto(160))
  IN  RDiv("1", RMul(RMul(ExpPos(Sq(x)), SqrtPi), RAdd(x, t)))
\* standard normal distribution function and density
Phi(x) ==
  LET y == Fx(RDiv(RAbs(x), Sqrt("2")))
      tail == IF RLt(y, "5/2") THEN RMul(Half, RSub("1", ErfSmall(y))) ELSE RMul(Half, ErfcBig(y))
  IN  IF RSign(x) <= 0 THEN tail ELSE RSub("1", tail)
Density(x, mu, sd) ==
  LET z2 == RDiv(Sq(RSub(x, mu)), RMul("2", Sq(sd)))
  IN  RDiv(Exp(RNeg(Fx(z2))), RMul(sd, Sqrt(RMul("2", Pi))))
CubeRoot(x) == Exp(RDiv(Ln(x), "3"))                  \* x > 0
Lambda2(n) == RMul("2", Ln(RInt(n)))                  \* squared universal threshold
=============================================================================
