------------------------------- MODULE Detect -------------------------------
(* Spike detectors (C08-C13, C24, C30, C31).  Every detector is specified as a *)
(* sequence over the samples of three-valued verdicts: "T" must be flagged,    *)
(* "F" must not be flagged, "U" within floating-point reach of the boundary.   *)
EXTENDS Stats

\* tolerance used around a decision boundary, relative to the scale s
Eps(s) == RMul(RPow("10", -10), s)
AllF(n) == Const(n, "F")
AllU(n) == Const(n, "U")
\* constant up to rounding, but not constant: floating point says nothing reliable about its spread
Rough(x) == LET d == MaxDev(x) IN RSign(d) > 0 /\ RLe(d, RMul(RPow("10", -6), RMaxAbs(x)))
Or3s(a, b) == Tab(Len(a), LAMBDA i : Or3(a[i], b[i]))

\* ---- exact floating point is possible: small integers, power-of-two size --------
IsPow2(n) == \E k \in 0..12 : n = 2 ^ k
SmallInts(x) == \A i \in 1..Len(x) : RDen(x[i]) = "1" /\ RLe(RAbs(x[i]), "1048576")
ExactStd(x) == LET s == RSqrt(Var(x), 40) IN REq(Sq(s), Var(x))
SmallDyadic(a) == RLe(RDen(a), "1024") /\ RLe(RAbs(a), "1048576") /\ IsPow2(RToInt(RDen(a)))
PowTwo(a) == SmallDyadic(a) /\ RSign(a) = 1 /\ SmallDyadic(RDiv("1", a))

\* ---- C08 acceleration thresholding --------------------------------------------------
\* sg = 1 for tag 1, -1 for tag 2 (the mirrored test)
Accel(x, fq, sg, g, kg, ks) ==
  LET n  == Len(x)
      y  == IF sg = 1 THEN x ELSE RScale("-1", x)
      m  == Mean(y)  sd == Std(y)
      thrA == RMul(kg, g)
      thrV == RAdd(m, RMul(ks, sd))
      ex == IsPow2(n) /\ SmallInts(x) /\ ExactStd(x) /\ SmallDyadic(fq) /\ SmallDyadic(g)
              /\ SmallDyadic(kg) /\ SmallDyadic(ks)
      M  == RMaxAbs(x)
      tA == IF ex THEN "0" ELSE RAdd(Eps(RMul(M, RAbs(fq))), Eps(RAbs(thrA)))
      tV == IF ex THEN "0" ELSE Eps(RMul(M, RAdd("1", RAbs(ks))))
  IN  Tab(n, LAMBDA i :
        And3(Gt3(IF i = 1 THEN "0" ELSE RMul(RSub(y[i], y[i - 1]), fq), thrA, IF i = 1 THEN "0" ELSE tA),
             Gt3(y[i], thrV, tV)))

\* ---- ellipses ----------------------------------------------------------------------------
\* axis-parallel ellipse with semi-axes lambda*std: strict outside test
AxisEllipse(x, y, vx, vy, l2, tol) ==
  LET n == Len(x) IN
  IF RSign(vx) = 0 \/ RSign(vy) = 0 THEN AllF(n)
  ELSE Tab(n, LAMBDA i : Gt3(RAdd(RDiv(Sq(x[i]), RMul(l2, vx)), RDiv(Sq(y[i]), RMul(l2, vy))), "1", tol))
\* ellipse rotated by arctan(t): semi-axes from the 2x2 system; "U" when ill-conditioned
\* (tol: reach of the boundary, to be multiplied by the condition number)
RotEllipse(x, y, vx, vy, t, l2, tol0) ==
  LET n == Len(x)
      c2 == RDiv("1", RAdd("1", Sq(t)))             \* cos^2
      s2 == RSub("1", c2)
      fact == RSub(c2, s2)                          \* cos^4 - sin^4
      r1 == RMul(l2, vx)  r2 == RMul(l2, vy)
      na == RSub(RMul(r1, c2), RMul(r2, s2))
      nb == RSub(RMul(r2, c2), RMul(r1, s2))
      sa == RAdd(RMul(r1, c2), RMul(r2, s2))
      sb == RAdd(RMul(r2, c2), RMul(r1, s2))
      ill == RLt(RAbs(fact), RPow("10", -4))
             \/ RLt(RAbs(na), RMul(sa, RPow("10", -4))) \/ RLt(RAbs(nb), RMul(sb, RPow("10", -4)))
      kappa == RAdd(RDiv("1", RAbs(fact)), RAdd(RDiv(sa, RAbs(na)), RDiv(sb, RAbs(nb))))
      tol == IF RLe(tol0, RPow("10", -7)) THEN tol0 ELSE RMul(tol0, kappa)
  IN  IF ill THEN AllU(n)
      ELSE IF RGt(tol, Half) THEN AllU(n)
      ELSE LET a2 == RDiv(na, fact)  b2 == RDiv(nb, fact) IN
           IF RSign(a2) <= 0 \/ RSign(b2) <= 0 THEN AllF(n)
           ELSE LET qa == RDiv(c2, a2)  qb == RDiv(c2, b2) IN    \* (x cos + y sin)^2 = c2 (x + t y)^2
                Tab(n, LAMBDA i :
                  Gt3(RAdd(RMul(qa, Sq(RAdd(x[i], RMul(t, y[i])))),
                           RMul(qb, Sq(RSub(y[i], RMul(t, x[i]))))), "1", tol))

\* ---- C09 phase-space thresholding ------------------------------------------------------------
\* rounded central difference, zero at both ends
CDiff(c) == Tab(Len(c), LAMBDA i : IF i = 1 \/ i = Len(c) THEN "0"
                                   ELSE RRound(RMul(Half, RSub(c[i + 1], c[i - 1])), 4))
\* is some rounding of a central difference too close to a tie to be decided?
CDiffTie(c) == \E i \in 2..(Len(c) - 1) :
                  LET v == RMul(Half, RSub(c[i + 1], c[i - 1])) IN
                  /\ RLt(TieDist(v, 4), RPow("10", -6))
PhaseSpace(c) ==
  LET n == Len(c)
      d == CDiff(c)  d2 == CDiff(d)
      l2 == Lambda2(n)
      vc == Var(c)  vd == Var(d)  v2 == Var(d2)
      tie == CDiffTie(c) \/ CDiffTie(d)
      zero == RSign(vc) = 0 \/ RSign(vd) = 0 \/ RSign(v2) = 0
      \* a tie may be rounded either way: each derivative is known to 2e-4 only
      eps == IF ~tie THEN "0" ELSE RDiv("8/10000", Std(IF RLe(v2, vd) THEN (IF RLe(v2, vc) THEN d2 ELSE c)
                                                      ELSE IF RLe(vd, vc) THEN d ELSE c))
      t1 == RAdd(RPow("10", -8), RMul("4", eps))
      t2 == RAdd(RPow("10", -7), RMul("20", eps))
      \* a constant series and its zero derivatives flag nothing
  IN  IF RSign(RDot(c, c)) = 0 THEN AllF(n)
      ELSE IF (tie /\ zero) \/ Rough(c) THEN AllU(n)
      ELSE IF RGt(t1, Half) THEN AllU(n)
      ELSE Or3s(AxisEllipse(c, d, vc, vd, l2, t1),
             Or3s(AxisEllipse(d, d2, vd, v2, l2, t1),
                  IF RSign(vc) = 0 \/ RSign(v2) = 0
                    THEN AllF(n)
                    ELSE RotEllipse(c, d2, vc, v2, RDiv(RDot(c, d2), RDot(c, c)), l2, t2)))

\* ---- C10 velocity correlation ------------------------------------------------------------------
VCPair(x, y, l2) ==
  LET n == Len(x)  sxx == RDot(x, x) IN
  IF RSign(sxx) = 0 \/ RSign(Var(y)) = 0 THEN AllF(n)
  ELSE RotEllipse(x, y, Var(x), Var(y), RDiv(RDot(x, y), sxx), l2, RPow("10", -7))
VelCorr(u0, v0, w0) ==
  LET u == Centred(u0)  v == Centred(v0)  w == Centred(w0)  l2 == Lambda2(Len(u0))
      ru == Rough(u0)  rv == Rough(v0)  rw == Rough(w0)
      P(bad, x, y) == IF bad THEN AllU(Len(u0)) ELSE VCPair(x, y, l2) IN
  Or3s(P(ru \/ rv, u, v), Or3s(P(ru \/ rw, u, w), P(rv \/ rw, v, w)))

\* ---- C11 three-dimensional phase-space thresholding ---------------------------------------------
Gradient(c) == LET n == Len(c) IN
  Tab(n, LAMBDA i : CASE i = 1 -> RSub(c[2], c[1])
                      [] i = n -> RSub(c[n], c[n - 1])
                      [] OTHER -> RMul(Half, RSub(c[i + 1], c[i - 1])))
Std4(x) == RSqrt(Var(x), 60)
\* coordinates rotated by (co, si), measured against their own ellipsoid
Spherical1(c, d, d2, co, si, lam, m) ==
  LET X == RLin(co, c, si, d2)
      Z == RLin(co, d2, RNeg(si), c)
      n == Len(c)
      ax == RMul(lam, Std4(X))  by == RMul(lam, Std4(d))  cz == RMul(lam, Std4(Z))
      amin == RMin2(ax, RMin2(by, cz))
      \* rounding coordinates and axes to 4 decimals moves rho by about this much
      tol == RAdd(m, RDiv("1/1000", amin))
  IN  Tab(n, LAMBDA i : Gt3(RAdd(Sq(RDiv(X[i], ax)), RAdd(Sq(RDiv(d[i], by)), Sq(RDiv(Z[i], cz)))),
                            "1", tol))
SphericalDegenerate(x) ==
  LET c == Centred(x)  d == Gradient(c)  d2 == Gradient(d)
      s0 == RDot(c, c)
  IN  \/ RSign(s0) = 0
      \/ LET t == RDiv(RDot(c, d2), s0)
             X == RLin("1", c, t, d2)  Z == RLin("1", d2, RNeg(t), c)
             k == RDiv("1", RAdd("1", Sq(t)))        \* cos^2
         IN  \/ RLt(RMul(k, Var(X)), "1/10") \/ RLt(Var(d), "1/10") \/ RLt(RMul(k, Var(Z)), "1/10")
             \* rounding the rotation to 4 decimals must not dominate the short axis
             \/ RGt(RMul(Var(c), RPow("10", -5)), RMul(k, Var(Z)))
Spherical(x) ==
  LET n == Len(x)
      c == Centred(x)  d == Gradient(c)  d2 == Gradient(d)
      th == Atan2(RDot(c, d2), RDot(c, c))
      th4 == RRound(th, 4)
      lam == Sqrt(Lambda2(n))
      A == Spherical1(c, d, d2, Cos(th), Sin(th), lam, "1/1000")
      B == Spherical1(c, d, d2, RRound(Cos(th4), 4), RRound(Sin(th4), 4), RRound(lam, 4), "1/1000")
  IN  Tab(n, LAMBDA i : IF A[i] = B[i] THEN A[i] ELSE "U")

\* ---- C24 pollution rate: number of samples outside the band, as an interval ------------------------
Pollution(x, f, k) ==
  LET n == Len(x)  sd == Std(x)
      ex == IsPow2(n) /\ SmallInts(x) /\ SmallInts(f) /\ ExactStd(x) /\ SmallDyadic(k)
      tol == IF ex THEN "0" ELSE Eps(RAdd(RMaxAbs(x), RMaxAbs(f)))
      b == RMul(k, sd)
  IN  Tab(n, LAMBDA i : Or3(Gt3(RSub(x[i], f[i]), b, tol), Gt3(RSub(f[i], x[i]), b, tol)))

\* ---- C30 premodification --------------------------------------------------------------------------
MAD(x) == LET m == Median(x) IN Median(Tab(Len(x), LAMBDA i : RAbs(RSub(x[i], m))))
PreThr(x, k2) == RMul(RMul(k2, MAD(x)), Sqrt(Lambda2(Len(x))))
PreRemovable(x, k2) ==
  LET th == PreThr(x, k2)
      tol == IF th = "0" THEN "0" ELSE Eps(RAdd(th, RMaxAbs(x))) IN
  Tab(Len(x), LAMBDA i : Gt3(RAbs(x[i]), th, tol))
PreKeep(x, k1) ==          \* unremovable: |x| <= k1*theta
  LET b == RMul(k1, MAD(x))
      ex == SmallInts(x) /\ SmallDyadic(k1)
      tol == IF ex \/ b = "0" THEN "0" ELSE Eps(RAdd(b, RMaxAbs(x))) IN
  Tab(Len(x), LAMBDA i : Not3(Gt3(RAbs(x[i]), b, tol)))
\* in-order replacement by the predecessor in the processed series
PreApply(x, R) == FoldLeft(LAMBDA y, i : IF i > 1 /\ i \in R THEN [y EXCEPT ![i] = y[i - 1]] ELSE y,
                           x, Upto(Len(x)))

\* ---- C31 building blocks ------------------------------------------------------------------------------
Slope(x, i) == IF i = 1 \/ i = Len(x) THEN "0"
               ELSE LET b == RSub(x[i], x[i - 1])  f == RSub(x[i + 1], x[i]) IN
                    IF RGt(RAbs(b), RAbs(f)) THEN f ELSE b
AngleNum(x, y) == RSub(RMul(N1(x), RDot(x, y)), RMul(RSum(x), RSum(y)))
Angle(x, y) == Atan2(AngleNum(x, y), AngleNum(x, x))
\* does profile point i (1-based) qualify as a cut-off?
CutOK(pk, f, ip, grid, dens, k1, k2, i) ==
  IF RSign(f[ip]) = 0 \/ RSign(dens) = 0 THEN "U" ELSE
  LET \* ratios of small binary fractions to powers of two are exact in floating point
      ex == /\ SmallDyadic(f[i]) /\ SmallDyadic(f[i - 1]) /\ PowTwo(f[ip]) /\ PowTwo(dens) /\ SmallDyadic(k1) /\ SmallDyadic(k2)
      t1 == IF ex THEN "0" ELSE RPow("10", -9)
      t2 == IF ex THEN "0" ELSE RMul(RPow("10", -9), RAdd("1", k2))
      rel == RDiv(f[i], f[ip])
      chg == RAbs(RDiv(RMul(RSub(f[i], f[i - 1]), RInt(grid)), dens))
  IN  And3(Not3(Gt3(rel, k1, t1)), Not3(Gt3(chg, k2, t2)))
\* first decided point of the walk; "U" anywhere before it makes the walk undecided (0)
Walk(steps, ok(_), dflt) ==
  FoldLeft(LAMBDA a, i : IF a[1] # "go" THEN a
                         ELSE LET o == ok(i) IN
                              IF o = "T" THEN <<"at", i>> ELSE IF o = "U" THEN <<"undecided", i>> ELSE a,
           <<"go", dflt>>, steps)
\* the walks go over code indices ip-1 .. 1 and ip+1 .. L-2, i.e. positions ip-1..2 / ip+1..L-1
CutLow(f, ip, grid, dens, k1, k2) ==
  Walk(Tab(MaxI(ip - 2, 0), LAMBDA j : ip - j), LAMBDA i : CutOK("", f, ip, grid, dens, k1, k2, i), 2)
CutHigh(f, ip, grid, dens, k1, k2) ==
  Walk(Tab(MaxI(Len(f) - 1 - ip, 0), LAMBDA j : ip + j), LAMBDA i : CutOK("", f, ip, grid, dens, k1, k2, i), Len(f))

\* ---- C12 kernel detector for one pair (u, w) ------------------------------------------------------------
\* returns a sequence of verdicts, or AllU when the density landscape is ambiguous
CDiffRaw(c) == Tab(Len(c), LAMBDA i : IF i = 1 \/ i = Len(c) THEN "0"
                                      ELSE RMul(Half, RSub(c[i + 1], c[i - 1])))
Fy(a) == RFix(a, 80)
\* e^-a for a >= 0 in moderate precision
ExpNeg(a) == IF RGt(a, "80") THEN "0" ELSE Fy(Exp(RNeg(Fy(a))))
\* the density landscape: rotated points, mesh, Gaussian kernel density on it (C12, C35);
\* pts: a few mesh points <<p, q>> only (large grids), or <<>> for all of them
LandscapeAt(u, w, grid, pts) ==
  LET n == Len(u)
      nx == AngleNum(u, w)  dx == AngleNum(u, u)
      h == Sqrt(RAdd(Sq(nx), Sq(dx)))
      co == Fy(RDiv(dx, h))  si == Fy(RDiv(nx, h))
      ut == Tab(n, LAMBDA i : Fy(RAdd(RMul(co, u[i]), RMul(si, w[i]))))
      wt == Tab(n, LAMBDA i : Fy(RSub(RMul(co, w[i]), RMul(si, u[i]))))
      umin == RMinSeq(ut)  umax == RMaxSeq(ut)  wmin == RMinSeq(wt)  wmax == RMaxSeq(wt)
      gu == Tab(grid, LAMBDA j : RAdd(umin, RDiv(RMul(RInt(j - 1), RSub(umax, umin)), RInt(grid - 1))))
      gw == Tab(grid, LAMBDA j : RAdd(wmin, RDiv(RMul(RInt(j - 1), RSub(wmax, wmin)), RInt(grid - 1))))
      \* unbiased covariance of (ut, wt) scaled by the squared Scott factor n^(-1/6)^2 = n^(-1/3)
      b == RDiv(RInt(n), RInt(n - 1))
      sf == RDiv("1", CubeRoot(RInt(n)))
      suu == Fx(RMul(sf, RMul(b, Var(ut))))  sww == Fx(RMul(sf, RMul(b, Var(wt))))
      suw == Fx(RMul(sf, RMul(b, Cov(ut, wt))))
      det == RSub(RMul(suu, sww), Sq(suw))
      iuu == Fy(RDiv(sww, det))  iww == Fy(RDiv(suu, det))  iuw == Fy(RNeg(RDiv(suw, det)))
      nrm == Fy(RDiv("1", RMul(RInt(n), RMul(RMul("2", Pi), Sqrt(det)))))
      Dens(p, q) == Fy(RMul(nrm, RSum(Tab(n, LAMBDA i :
                      LET a == RSub(gu[p], ut[i])  c == RSub(gw[q], wt[i]) IN
                      ExpNeg(RMul(Half, RAdd(RMul(iuu, Sq(a)), RAdd(RMul(iww, Sq(c)), RMul(RMul("2", iuw), RMul(a, c))))))))))
      D == IF pts = <<>> THEN Tab(grid, LAMBDA p : Tab(grid, LAMBDA q : Dens(p, q)))
           ELSE Tab(Len(pts), LAMBDA i : Dens(pts[i][1], pts[i][2]))
      \* (nearly) collinear points have no density
      flat == n < 2 \/ RSign(h) = 0 \/ RLe(det, RMul(RPow("10", -9), RMul(suu, sww)))
              \/ RLe(RMin2(Var(ut), Var(wt)), RMul(RPow("10", -14), Sq(RMax2(RMaxAbs(u), RMaxAbs(w)))))
  IN  IF flat THEN [flat |-> TRUE] ELSE [flat |-> FALSE, ut |-> ut, wt |-> wt, gu |-> gu, gw |-> gw, D |-> D]
Landscape(u, w, grid) == LandscapeAt(u, w, grid, <<>>)
KernelPair(u, w, grid) ==
  LET n == Len(u)  L == Landscape(u, w, grid)
      D == L.D  ut == L.ut  wt == L.wt  gu == L.gu  gw == L.gw
      rowmax == Tab(grid, LAMBDA p : RMaxSeq(D[p]))
      peak == RMaxSeq(rowmax)
      ip == CHOOSE p \in 1..grid : REq(rowmax[p], peak)
      iq == CHOOSE q \in 1..grid : REq(D[ip][q], peak)
      ambiguous == \E p \in 1..grid : \E q \in 1..grid :
                     <<p, q>> # <<ip, iq>> /\ RGt(D[p][q], RMul(peak, "999999/1000000"))
      fu == Tab(grid, LAMBDA p : D[p][iq])
      fw == D[ip]
      lam == Sqrt(Lambda2(n))
      cu == RDiv(RMul(lam, Std(u)), Sqrt(RInt(n)))
      cw == RDiv(RMul(lam, Std(w)), Sqrt(RInt(n)))
      lu == CutLow(fu, ip, grid, peak, cu, cu)  hu == CutHigh(fu, ip, grid, peak, cu, cu)
      lw == CutLow(fw, iq, grid, peak, cw, cw)  hw == CutHigh(fw, iq, grid, peak, cw, cw)
  IN  IF L.flat THEN AllU(n) ELSE IF ambiguous \/ "undecided" \in {lu[1], hu[1], lw[1], hw[1]} THEN AllU(n)
      ELSE LET au == gu[lu[2]]  bu == gu[hu[2]]  aw == gw[lw[2]]  bw == gw[hw[2]]
               mu == RMul(Half, RAdd(au, bu))  ru == RSub(bu, mu)
               mw == RMul(Half, RAdd(aw, bw))  rw == RSub(bw, mw)
           IN  IF RSign(ru) = 0 \/ RSign(rw) = 0 THEN AllU(n)
               ELSE Tab(n, LAMBDA i : Gt3(RAdd(Sq(RDiv(RSub(ut[i], mu), ru)), Sq(RDiv(RSub(wt[i], mw), rw))),
                                          "1", RPow("10", -7)))
Kernel3D(x, grid) ==
  LET d == CDiffRaw(x)  d2 == CDiffRaw(d) IN
  Or3s(KernelPair(x, d, grid), Or3s(KernelPair(x, d2, grid), KernelPair(d, d2, grid)))
=============================================================================
