------------------------------ MODULE Replace ------------------------------
(* Spike replacement (C01, C03-C07).  x: the series, F: set of flagged         *)
(* positions (1-based).  Every operator returns the expected value at position *)
(* i (before rounding), or a sequence of them.                                  *)
EXTENDS Stats

\* maximal flagged run around the flagged position i
RunLo(F, i) == CHOOSE a \in 1..i : (a..i) \subseteq F /\ (a - 1) \notin F
RunHi(F, i, n) == CHOOSE b \in i..n : (i..b) \subseteq F /\ (b + 1) \notin F
\* nearest unflagged position before / after the flagged position i (0: none)
RECURSIVE PrevGood(_, _)
PrevGood(F, i) == IF i <= 1 THEN 0 ELSE IF i - 1 \notin F THEN i - 1 ELSE PrevGood(F, i - 1)
RECURSIVE NextGood(_, _, _)
NextGood(F, i, n) == IF i > n THEN 0 ELSE IF i \notin F THEN i ELSE NextGood(F, i + 1, n)

\* ---- C03 linear interpolation ----------------------------------------------
LinAt(x, F, i) ==
  LET n == Len(x)  a == PrevGood(F, i)  b == NextGood(F, i, n) IN
  IF a = 0 \/ b = 0 THEN Mean(x)
  ELSE RAdd(x[a], RDiv(RMul(RInt(i - a), RSub(x[b], x[a])), RInt(b - a)))
\* the same as tables over all positions
PrevTab(F, n) == FoldLeft(LAMBDA t, i : Append(t, IF i = 1 THEN 0 ELSE IF i - 1 \notin F THEN i - 1 ELSE t[i - 1]), <<>>, Upto(n))
NextTab(F, n) ==       \* entry n + 1 - i belongs to position i
  FoldLeft(LAMBDA t, j : Append(t, IF j = 1 THEN 0 ELSE IF (n + 2 - j) \notin F THEN n + 2 - j ELSE t[j - 1]), <<>>, Upto(n))
LinearWith(x, F, m) ==
  LET n == Len(x)  P == TLCEval(PrevTab(F, n))  Q == TLCEval(NextTab(F, n)) IN
  Tab(n, LAMBDA i : IF i \notin F THEN x[i]
                    ELSE LET a == P[i]  b == Q[n + 1 - i] IN
                         IF a = 0 \/ b = 0 THEN m
                         ELSE RAdd(x[a], RDiv(RMul(RInt(i - a), RSub(x[b], x[a])), RInt(b - a))))
Linear(x, F) == LET m == TLCEval(Mean(x)) IN LinearWith(x, F, m)
\* samples at the positions in B are missing (NaN); only flagged samples may be
KnownMean(x, B) == LET k == Sorted((1..Len(x)) \ B) IN
                   IF B = {} THEN Mean(x) ELSE IF k = <<>> THEN "0" ELSE Mean(Tab(Len(k), LAMBDA i : x[k[i]]))

\* ---- C04 --------------------------------------------------------------------
LastValid(x, F) ==
  LET n == Len(x)  P == TLCEval(PrevTab(F, n))  Q == TLCEval(NextTab(F, n)) IN
  Tab(n, LAMBDA i : IF i \notin F THEN x[i] ELSE IF P[i] > 0 THEN x[P[i]] ELSE x[Q[n + 1 - i]])
FillWith(x, F, c) == Tab(Len(x), LAMBDA i : IF i \in F THEN c ELSE x[i])
Scatter(x, F, s)  == Tab(Len(x), LAMBDA i : IF i \in F THEN s[i] ELSE x[i])

\* ---- exact linear algebra -----------------------------------------------------
\* solve A z = b by Gauss-Jordan elimination with non-zero pivots
Solve(A, b) ==
  LET n == Len(A)
      M0 == Tab(n, LAMBDA r : Append(A[r], b[r]))
      Step(M, k) ==
        LET p == CHOOSE r \in k..n : M[r][k] # "0" /\ \A r2 \in k..(r - 1) : M[r2][k] = "0"
            pr == RScale(RDiv("1", M[p][k]), M[p])
            Sw == [M EXCEPT ![p] = M[k], ![k] = pr]
        IN  Tab(n, LAMBDA r : IF r = k \/ Sw[r][k] = "0" THEN Sw[r]
                              ELSE RLin("1", Sw[r], RNeg(Sw[r][k]), pr))
      R == FoldLeft(LAMBDA M, k : Step(M, k), M0, Upto(n))
  IN  Tab(n, LAMBDA r : R[r][n + 1])

\* ---- C05 cubic through 12 + 12 points -------------------------------------------
Knot(k) == IF k <= 12 THEN k ELSE k + 1                   \* 1..12, 14..25
SplineWeights ==
  LET m == 24
      H(i) == RInt(Knot(i + 1) - Knot(i))
      Row(i) == Tab(m, LAMBDA j :
        CASE i = 1 -> (CASE j = 1 -> H(2) [] j = 2 -> RNeg(RAdd(H(1), H(2))) [] j = 3 -> H(1) [] OTHER -> "0")
          [] i = m -> (CASE j = m - 2 -> H(m-1) [] j = m - 1 -> RNeg(RAdd(H(m-2), H(m-1))) [] j = m -> H(m-2) [] OTHER -> "0")
          [] OTHER -> (CASE j = i - 1 -> H(i-1) [] j = i -> RMul("2", RAdd(H(i-1), H(i))) [] j = i + 1 -> H(i) [] OTHER -> "0"))
      Rhs(i) == Tab(m, LAMBDA j :        \* coefficient of y_j in equation i
        IF i = 1 \/ i = m THEN "0" ELSE
        CASE j = i - 1 -> RDiv("6", H(i-1))
          [] j = i     -> RNeg(RAdd(RDiv("6", H(i-1)), RDiv("6", H(i))))
          [] j = i + 1 -> RDiv("6", H(i))
          [] OTHER -> "0")
      A == Tab(m, Row)
      B == Tab(m, Rhs)
      At == Tab(m, LAMBDA i : Tab(m, LAMBDA j : A[j][i]))
      e == Tab(m, LAMBDA i : IF i = 12 \/ i = 13 THEN "1" ELSE "0")
      z == Solve(At, e)                                   \* M12 + M13 = z . (B y)
      zb == Tab(m, LAMBDA j : RDot(z, Tab(m, LAMBDA i : B[i][j])))
  IN  Tab(m, LAMBDA j : RSub(IF j = 12 \/ j = 13 THEN Half ELSE "0", RDiv(zb[j], "4")))

\* long fractions are cut at 2^-600, far below every tolerance: values that depend on
\* hundreds of predicted ones would otherwise grow without bound
TrimFrac(a) == RFix(a, 600)
\* cubic replacement: positions processed in order; p is 1-based, the code's index is p-1
Cubic12(x, F) ==
  LET n == Len(x)  W == SplineWeights
      G == TLCEval(Sorted((1..n) \ F))                      \* clean positions
      B == TLCEval(FoldLeft(LAMBDA t, q : Append(t, (IF q = 1 THEN 0 ELSE t[q - 1]) + (IF q \in F THEN 0 ELSE 1)), <<>>, Upto(n)))
      Step(c, p) ==
        LET good == SubSeq(G, B[p] + 1, IF Len(G) < B[p] + 12 THEN Len(G) ELSE B[p] + 12)     \* the next 12 of them
            i == p - 1
        IN  IF i <= 30 \/ i >= n - 30 \/ Len(good) < 12
            THEN IF p = 1 THEN (IF good = <<>> THEN c ELSE [c EXCEPT ![p] = x[good[1]]])
                 ELSE [c EXCEPT ![p] = IF good = <<>> THEN c[p - 1]
                                       ELSE TrimFrac(RMul(Half, RAdd(c[p - 1], x[good[1]])))]
            ELSE [c EXCEPT ![p] = TrimFrac(RDot(W, SubSeq(c, p - 12, p - 1)
                                                \o Tab(12, LAMBDA k : x[good[k]])))]
  IN  FoldLeft(Step, x, Sorted(F))

\* ---- C06 polynomial regression ----------------------------------------------------
\* prediction at 0 from points at -m..-1: weights of a degree-d least-squares fit
PolyWeights(m, d) ==
  LET t == Tab(m, LAMBDA j : RInt(j - m - 1))
      P == Tab(d + 1, LAMBDA k : Tab(m, LAMBDA j : RPow(t[j], k - 1)))
      G == Tab(d + 1, LAMBDA a : Tab(d + 1, LAMBDA b : RDot(P[a], P[b])))
      c == Solve(G, Tab(d + 1, LAMBDA k : IF k = 1 THEN "1" ELSE "0"))
  IN  Tab(m, LAMBDA j : RSum(Tab(d + 1, LAMBDA k : RMul(c[k], P[k][j]))))
\* returns <<values, error radii>>: the radii bound what intermediate rounding to
\* dec decimals may do to later predictions
PolyRepl(x, F, win, deg, dec) ==
  LET n == Len(x)
      u == RMul(Half, Pow10(-dec))
      low == {p \in F : p \in 2..11}
      Step(s, p) ==
        LET c == s[1]  e == s[2] IN
        CASE p = 1 -> <<[c EXCEPT ![1] = Mean(c)], e>>
          [] p \in 2..11 ->
               IF s[3] THEN s
               ELSE LET y == Linear(c, low) IN <<y, Tab(n, LAMBDA i : u), TRUE>>
          [] OTHER ->
               LET m == IF p - 1 <= win - 1 THEN p - 1 ELSE win
                   w == PolyWeights(m, deg)
                   v == TrimFrac(RDot(w, SubSeq(c, p - m, p - 1)))
                   r == RDot(Tab(m, LAMBDA j : RAbs(w[j])), SubSeq(e, p - m, p - 1))
               IN  <<[c EXCEPT ![p] = v], [e EXCEPT ![p] = r], s[3]>>
      s0 == <<x, Const(n, "0"), FALSE>>
  IN  FoldLeft(LAMBDA s, p : LET t == Step(s, p) IN IF Len(t) = 2 THEN Append(t, s[3]) ELSE t,
               s0, Sorted(F))
=============================================================================
