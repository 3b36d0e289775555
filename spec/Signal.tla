------------------------------- MODULE Signal -------------------------------
(* Normal distribution tests, spectra, filters, bivariate kernel (C20-C23,     *)
(* C27, C28).                                                                   *)
EXTENDS Replace

\* ---- C21 normality tests -----------------------------------------------------
Asinh(y) == LET a == RAbs(y)
                v == Ln(RAdd(a, Sqrt(RAdd(Sq(a), "1")))) IN
            IF RSign(y) >= 0 THEN v ELSE RNeg(v)
\* D'Agostino (1970): z of the sample skewness g1 for n observations
SkewZ(g1, n) ==
  LET N == RInt(n)  A(k) == RAdd(N, RInt(k))
      y == RMul(g1, Sqrt(RDiv(RMul(A(1), A(3)), RMul("6", A(-2)))))
      b2 == RDiv(RMul(RMul("3", RAdd(Sq(N), RAdd(RMul("27", N), "-70"))), RMul(A(1), A(3))),
                 RMul(RMul(A(-2), A(5)), RMul(A(7), A(9))))
      w2 == RSub(Sqrt(RMul("2", RSub(b2, "1"))), "1")
      dl == RDiv("1", Sqrt(RMul(Half, Ln(w2))))
      al == Sqrt(RDiv("2", RSub(w2, "1")))
  IN  RMul(dl, Asinh(Fx(RDiv(y, al))))
\* Anscombe & Glynn (1983): z of the sample kurtosis b2 (normal = 3);
\* real cube root (flat samples have a negative denominator); <<"undefined", "0">>
\* at the pole of the transformation, where z has no value
KurtDen(b2, n) ==
  LET N == RInt(n)  A(k) == RAdd(N, RInt(k))
      E == RDiv(RMul("3", A(-1)), A(1))
      V == RDiv(RMul(RMul("24", N), RMul(A(-2), A(-3))), RMul(Sq(A(1)), RMul(A(3), A(5))))
      x == Fx(RDiv(RSub(b2, E), Sqrt(V)))
      sb == Fx(RMul(RDiv(RMul("6", RAdd(Sq(N), RAdd(RMul("-5", N), "2"))), RMul(A(7), A(9))),
                    Sqrt(RDiv(RMul("6", RMul(A(3), A(5))), RMul(N, RMul(A(-2), A(-3)))))))
      a == Fx(RAdd("6", RMul(RDiv("8", sb), RAdd(RDiv("2", sb), Sqrt(RAdd("1", RDiv("4", Sq(sb))))))))
  IN  [a |-> a, d |-> RAdd("1", RMul(x, Sqrt(RDiv("2", RSub(a, "4")))))]
KurtZ(b2, n) ==
  LET k == KurtDen(b2, n)  a == k.a
      t1 == RSub("1", RDiv("2", RMul("9", a)))
      t2 == CubeRoot(Fx(RDiv(RSub("1", RDiv("2", a)), RAbs(k.d)))) IN
  IF RLe(RAbs(k.d), "1/10000") THEN <<"undefined", "0">>
  ELSE <<"ok", RDiv(RSub(t1, IF RSign(k.d) > 0 THEN t2 ELSE RNeg(t2)), Sqrt(RDiv("2", RMul("9", a))))>>
PValue(z, alt) ==
  CASE alt = "two-sided" -> RMul("2", Phi(RNeg(RAbs(z))))
    [] alt = "greater"   -> Phi(RNeg(z))
    [] alt = "less"      -> Phi(z)

\* ---- C22 Welch spectrum ----------------------------------------------------------
CosTab(N) == Tab(N, LAMBDA k : Cos(RDiv(RMul(RMul("2", Pi), RInt(k - 1)), RInt(N))))
SinTab(N) == Tab(N, LAMBDA k : Sin(RDiv(RMul(RMul("2", Pi), RInt(k - 1)), RInt(N))))
Hann(N) == IF N = 1 THEN <<"1">>
           ELSE Tab(N, LAMBDA k : RMul(Half, RSub("1", Cos(RDiv(RMul(RMul("2", Pi), RInt(k - 1)), RInt(N - 1))))))
WelchHop(block, ov) == block - RToInt(RDiv(RMul(RInt(block), ov), "100"))
WelchStarts(n, block, hop) == {1 + k * hop : k \in 0..((n - block) \div hop)}
WelchBins(block, onesided) == IF onesided THEN block \div 2 + 1 ELSE block
\* the density at the bins ks
WelchAt(x, fs, ov, block, onesided, ks) ==
  LET n == Len(x)
      hop == WelchHop(block, ov)
      S == Sorted(WelchStarts(n, block, hop))
      w == Hann(block)
      C == CosTab(block)  Z == SinTab(block)
      nf == WelchBins(block, onesided)
      seg == Tab(Len(S), LAMBDA s : RHad(w, Centred(SubSeq(x, S[s], S[s] + block - 1))))
      m == Len(ks)
      ck == Tab(m, LAMBDA i : Tab(block, LAMBDA j : C[(((ks[i] - 1) * (j - 1)) % block) + 1]))
      zk == Tab(m, LAMBDA i : Tab(block, LAMBDA j : Z[(((ks[i] - 1) * (j - 1)) % block) + 1]))
      base == RMul(RMul(fs, RDot(w, w)), RInt(Len(S)))
      dbl(k) == IF onesided /\ k # 1 /\ ~(block % 2 = 0 /\ k = nf) THEN "2" ELSE "1"
  IN  Tab(m, LAMBDA i : RDiv(RMul(dbl(ks[i]),
          RSum(Tab(Len(S), LAMBDA s : RAdd(Sq(RDot(ck[i], seg[s])), Sq(RDot(zk[i], seg[s])))))), base))
Welch(x, fs, ov, block, onesided) == WelchAt(x, fs, ov, block, onesided, Upto(WelchBins(block, onesided)))
\* an upper bound of every bin: the power of the windowed blocks
WelchBound(x, fs, ov, block) ==
  LET S == Sorted(WelchStarts(Len(x), block, WelchHop(block, ov)))
      w == Hann(block)
      seg == Tab(Len(S), LAMBDA s : RHad(w, Centred(SubSeq(x, S[s], S[s] + block - 1))))
  IN  RDiv(RMul(RInt(2 * block), RSum(Tab(Len(S), LAMBDA s : RDot(seg[s], seg[s])))), RMul(RMul(fs, RDot(w, w)), RInt(Len(S))))
WelchFreq(fs, block, onesided) ==
  IF onesided THEN Tab(block \div 2 + 1, LAMBDA k : RDiv(RMul(RInt(k - 1), fs), RInt(block)))
  ELSE Tab(block, LAMBDA k : LET j == k - 1 IN
             RDiv(RMul(RInt(IF j < (block + 1) \div 2 THEN j ELSE j - block), fs), RInt(block)))

\* ---- C27 Butterworth ------------------------------------------------------------------
\* complex numbers as pairs
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CAbs2(a)  == RAdd(Sq(a[1]), Sq(a[2]))
ProdAbs2(s, r) == FoldLeft(LAMBDA p, i : RMul(p, CAbs2(CSub(s, r[i]))), "1", Upto(Len(r)))
\* |H|^2 at the complex point s from zeros, poles, gain
GainZPK(z, p, k, s) == RDiv(RMul(Sq(k), ProdAbs2(s, z)), ProdAbs2(s, p))
\* polynomial with real coefficients c[1] s^m + ... at the complex point s (Horner)
CPoly(c, s) == FoldLeft(LAMBDA a, i : CAdd(CMul(a, s), <<c[i], "0">>), <<"0", "0">>, Upto(Len(c)))
\* sum |c_i| |s|^i, the condition scale of that evaluation
PolyScale(c, r) == FoldLeft(LAMBDA a, i : RAdd(RMul(a, r), RAbs(c[i])), "0", Upto(Len(c)))
\* the analog frequency ratio X(w): squared gain is 1/(1+X^(2N)); 'cut' holds the one or
\* two (pre-warped) critical frequencies, w >= 0.  <<"inf", _>> where the gain is zero.
XRatio(bt, cut, w) ==
  CASE bt = "lp" -> <<"ok", RDiv(w, cut[1])>>
    [] bt = "hp" -> IF RSign(w) = 0 THEN <<"inf", "0">> ELSE <<"ok", RDiv(cut[1], w)>>
    [] bt = "bp" -> IF RSign(w) = 0 THEN <<"inf", "0">>
                    ELSE <<"ok", RDiv(RSub(Sq(w), RMul(cut[1], cut[2])), RMul(w, RSub(cut[2], cut[1])))>>
    [] bt = "bs" -> LET d == RSub(RMul(cut[1], cut[2]), Sq(w)) IN
                    IF RSign(d) = 0 THEN <<"inf", "0">>
                    ELSE <<"ok", RDiv(RMul(w, RSub(cut[2], cut[1])), d)>>
ButterGain(bt, N, cut, w) ==
  LET X == XRatio(bt, cut, w) IN
  IF X[1] = "inf" THEN "0" ELSE RDiv("1", RAdd("1", RPow(X[2], 2 * N)))

\* ---- C28 bivariate kernel ------------------------------------------------------------------
\* cell (0..G-1) of the value v of a variable with range [lo, hi]
Cell(v, lo, hi, G) == LET c == RToInt(RDiv(RMul(RSub(v, lo), RInt(G)), RSub(hi, lo))) IN MinI(c, G - 1)
\* distance (in cells) of v to the nearest inner cell edge
EdgeDist(v, lo, hi, G) == LET y == RDiv(RMul(RSub(v, lo), RInt(G)), RSub(hi, lo))
                              f == RSub(y, RFloor(y)) IN
                          IF RSign(y) = 0 \/ REq(y, RInt(G)) THEN "1" ELSE RMin2(f, RSub("1", f))
Hist2(x, y, G) ==
  LET xl == RMinSeq(x)  xh == RMaxSeq(x)  yl == RMinSeq(y)  yh == RMaxSeq(y)
      cx == Tab(Len(x), LAMBDA i : Cell(x[i], xl, xh, G))
      cy == Tab(Len(x), LAMBDA i : Cell(y[i], yl, yh, G))
  IN  Tab(G, LAMBDA a : Tab(G, LAMBDA b :
        RFrac(Cardinality({i \in 1..Len(x) : cx[i] = a - 1 /\ cy[i] = b - 1}), Len(x))))
\* cosine-basis smoothing operator on one axis: S[a][c] = (1/G) Sum_k e_k decay_k cos cos
CosBasis(G) == Tab(G, LAMBDA k : Tab(G, LAMBDA j :
                 Cos(RDiv(RMul(Pi, RInt(((k - 1) * (2 * j - 1)) % (4 * G))), RInt(2 * G)))))
SmoothOp(G, h, CB) ==
  LET dec == Tab(G, LAMBDA k : Fx(RMul(IF k = 1 THEN "1" ELSE "2",
               Exp(RNeg(Fx(RDiv(RMul(Sq(RInt(k - 1)), RMul(Sq(Pi), Sq(h))), "2"))))))) IN
  Tab(G, LAMBDA a : Tab(G, LAMBDA c :
     RDiv(RSum(Tab(G, LAMBDA k : Fx(RMul(dec[k], RMul(CB[k][a], CB[k][c]))))), RInt(G))))
\* density before clipping: DD[a][b], a = cell of the first variable
Bivariate(x, y, hx, hy, G) ==
  LET H == Hist2(x, y, G)  CB == CosBasis(G)
      Sx == SmoothOp(G, hx, CB)  Sy == SmoothOp(G, hy, CB)
      T1 == Tab(G, LAMBDA a : Tab(G, LAMBDA b : RDot(Sx[a], Tab(G, LAMBDA c : H[c][b]))))
      area == RMul(RSub(RMaxSeq(x), RMinSeq(x)), RSub(RMaxSeq(y), RMinSeq(y)))
      k == RDiv(RInt(G * G), area)
  IN  Tab(G, LAMBDA a : Tab(G, LAMBDA b : RMul(k, RDot(Sy[b], T1[a]))))
=============================================================================
