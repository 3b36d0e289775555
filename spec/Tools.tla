------------------------------- MODULE Tools -------------------------------
(* The remaining public building blocks: filter transformations and form       *)
(* conversions (C32), the bandwidth root solver of the kernel (C33) and the      *)
(* ellipse helpers of the Poincare-map detectors (C34).                           *)
EXTENDS Api

\* ---- C32 -----------------------------------------------------------------------
CRe(a) == <<a, "0">>
CZero(a) == RSign(a[1]) = 0 /\ RSign(a[2]) = 0
CMag(a) == RSqrt(CAbs2(a), 60)
\* the rational function with zeros z, poles p, gain k
Rational(z, p, k, s) == CMul(CRe(k), CDiv(CProd(s, z), CProd(s, p)))
\* what the transformation substitutes for the variable
Subst(fn, a, b, s) ==
  CASE fn = "lp2lp" -> CDiv(s, CRe(a))
    [] fn = "lp2hp" -> CDiv(CRe(a), s)
    [] fn = "lp2bp" -> CDiv(CAdd(CMul(s, s), CRe(Sq(a))), CMul(CRe(b), s))
    [] fn = "lp2bs" -> CDiv(CMul(CRe(b), s), CAdd(CMul(s, s), CRe(Sq(a))))
    [] fn = "bilin" -> CMul(CRe(RMul("2", a)), CDiv(CSub(s, CRe("1")), CAdd(s, CRe("1"))))
SubstDen(fn, a, s) ==          \* is the substitution finite at s?
  CASE fn = "lp2lp" -> CRe("1")
    [] fn \in {"lp2hp", "lp2bp"} -> s
    [] fn = "lp2bs" -> CAdd(CMul(s, s), CRe(Sq(a)))
    [] fn = "bilin" -> CAdd(s, CRe("1"))
Grows(fn) == fn \in {"lp2bp", "lp2bs"}
\* number of zeros of the transformed function at finite places
ZeroCount(fn, nz, np) ==
  CASE fn = "lp2lp" -> nz
    [] fn = "lp2hp" -> np
    [] fn = "lp2bp" -> nz + np
    [] fn = "lp2bs" -> 2 * np
    [] fn = "bilin" -> np
CMaxMag(r) == FoldLeft(LAMBDA m, i : RMax2(m, CMag(r[i])), "0", Upto(Len(r)))
\* relative uncertainty of the function at s when its roots carry rounding errors
RootTol(r, s, S) == FoldLeft(LAMBDA t, i : LET d == CMag(CSub(s, r[i])) IN
                                           RAdd(t, IF RSign(d) = 0 THEN "1" ELSE RDiv(RMul(E(13), S), d)), "0", Upto(Len(r)))
CNear(a, b, rt) == RLe(CAbs2(CSub(a, b)), RAdd(E(60), RMul(Sq(rt), CAbs2(b))))
JXform(e) ==
  LET P == {"C32"}  o == e.out  nz == Len(e.z)  np == Len(e.p) IN
  IF e.bad # "" THEN MustRaise(P, o, e.bad)
  ELSE IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF o.k # "zpk" THEN Cl(P, {"shape"})
  ELSE IF ~o.fin THEN Cl(P, {"finite"})
  ELSE
  LET S == RAdd("1", RMax2(CMaxMag(o.z), CMaxMag(o.p)))
      bad(s) ==
        LET den == SubstDen(e.fn, e.a, s) IN
        ~CZero(den) /\
        LET q == Subst(e.fn, e.a, e.b, s)
            dp == CProd(q, e.p)
            rt == RAdd(E(9), RAdd(RootTol(o.z, s, S), RootTol(o.p, s, S)))
        IN  ~CZero(dp) /\ RLt(rt, E(3)) /\ ~CNear(Rational(o.z, o.p, o.gain, s), Rational(e.z, e.p, e.k, q), rt)
  IN  If(Len(o.p) # (IF Grows(e.fn) THEN 2 * np ELSE np), Cl(P, {"poles"}))
      \cup If(Len(o.z) # ZeroCount(e.fn, nz, np), Cl(P, {"zeros"}))
      \cup If(\E i \in 1..Len(e.pts) : bad(e.pts[i]), Cl(P, {"substitution"}))
\* coefficients, highest power first, of the monic polynomial with the given roots
PolyOf(r) == FoldLeft(LAMBDA c, i :
               Tab(Len(c) + 1, LAMBDA j : CSub(IF j <= Len(c) THEN c[j] ELSE CRe("0"),
                                               IF j > 1 THEN CMul(r[i], c[j - 1]) ELSE CRe("0"))),
               <<CRe("1")>>, Upto(Len(r)))
PolySize(r) == FoldLeft(LAMBDA m, i : RMul(m, RAdd("1", CMag(r[i]))), "1", Upto(Len(r)))
JPtf(e) ==
  LET P == {"C32"}  o == e.out IN
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF o.k # "ptf" \/ Len(o.b) # Len(e.z) + 1 \/ Len(o.a) # Len(e.p) + 1 THEN Cl(P, {"shape"})
  ELSE IF ~RAllFin(o.b) \/ ~RAllFin(o.a) THEN Cl(P, {"finite"})
  ELSE LET B == PolyOf(e.z)  A == PolyOf(e.p)
           tb == RMul(E(12), RMul(RAbs(e.k), PolySize(e.z)))  ta == RMul(E(12), PolySize(e.p)) IN
       If(\E i \in 1..Len(B) : ~Near(o.b[i], RMul(e.k, B[i][1]), tb), Cl(P, {"numerator"}))
       \cup If(\E i \in 1..Len(A) : ~Near(o.a[i], A[i][1], ta), Cl(P, {"denominator"}))
CPowI(s, k) == FoldLeft(LAMBDA a, i : CMul(a, s), CRe("1"), Upto(k))
OddReal(r) == Cardinality({i \in 1..Len(r) : RSign(r[i][2]) = 0}) % 2 = 1
JSop(e) ==
  LET P == {"C32"}  o == e.out  nz == Len(e.z)  np == Len(e.p) IN
  IF e.bad # "" THEN MustRaise(P, o, e.bad)
  \* listed finding: the greedy analog pairing runs out of real zeros
  ELSE IF Raised(o) /\ e.pg \in {"ml", "kd"} /\ nz > 0 /\ (OddReal(e.z) \/ OddReal(e.p)) /\ "IndexError" \in SeqSet(o.isa) THEN {"KF.sop_pairing"}
  ELSE IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF o.k # "sos" THEN Cl(P, {"shape"})
  ELSE IF ~o.fin THEN Cl(P, {"finite"})
  ELSE
  LET cnt == MaxI(1, ((IF e.ag THEN np ELSE MaxI(nz, np)) + 1) \div 2)
      S == RAdd("1", RMax2(CMaxMag(e.z), CMaxMag(e.p)))
      \* as a filter in powers of the delay the numerator is left-aligned with the denominator
      want(s) == LET h == Rational(e.z, e.p, e.k, s) IN
                 IF e.ag THEN h
                 ELSE IF np >= nz THEN CMul(h, CPowI(s, np - nz)) ELSE CDiv(h, CPowI(s, nz - np))
      got(s) == FoldLeft(LAMBDA h, i : CMul(h, CDiv(CPoly(o.sos[i][1], s), CPoly(o.sos[i][2], s))), CRe("1"), Upto(Len(o.sos)))
      \* distance of s to the nearest root (the padding roots at the origin included)
      dist(s) == FoldLeft(LAMBDA m, i : RMin2(m, CMag(CSub(s, e.p[i]))),
                   FoldLeft(LAMBDA m, i : RMin2(m, CMag(CSub(s, e.z[i]))), RMin2("1", CMag(s)), Upto(nz)), Upto(np))
      rtol(s) == RAdd(E(9), RMul(RInt(2 * Len(o.sos)), RDiv(RMul(E(13), RMul(Sq(S), Sq(RAdd("1", CMag(s))))), Sq(dist(s)))))
      bad(s) == ~CZero(s) /\ RSign(dist(s)) > 0 /\ RLt(rtol(s), E(3)) /\
                ((\E i \in 1..Len(o.sos) : CZero(CPoly(o.sos[i][2], s))) \/ ~CNear(got(s), want(s), rtol(s)))
  IN  If(Len(o.sos) # cnt, Cl(P, {"sections"}))
      \cup If(~e.ag /\ \E i \in 1..Len(o.sos) : ~REq(o.sos[i][2][1], "1"), Cl(P, {"normalised"}))
      \cup If(\E i \in 1..Len(e.pts) : bad(e.pts[i]), Cl(P, {"same_filter"}))
JProto(e) ==
  LET P == {"C32"}  o == e.out IN
  IF e.bad # "" THEN MustRaise(P, o, e.bad)
  ELSE IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF o.k # "zpk" \/ ~o.fin THEN Cl(P, {"shape"})
  ELSE LET ang(k) == RDiv(RMul(Pi, RInt(2 * k - 1 - e.N)), RInt(2 * e.N))
           want(k) == <<RNeg(Cos(RAbs(ang(k)))), IF RSign(ang(k)) >= 0 THEN RNeg(Sin(ang(k))) ELSE Sin(RNeg(ang(k)))>>
       IN  If(Len(o.z) # 0 \/ ~REq(o.gain, "1"), Cl(P, {"prototype"}))
           \cup If(Len(o.p) # e.N, Cl(P, {"poles"}))
           \cup If(\E k \in 1..e.N : ~\E i \in 1..Len(o.p) : RLe(CAbs2(CSub(o.p[i], want(k))), E(24)), Cl(P, {"prototype"}))

\* ---- C33 -----------------------------------------------------------------------
\* the piecewise linear function with nodes e.xs, e.ys, constant outside
PL(xs, ys, t) ==
  IF RLe(t, xs[1]) THEN ys[1]
  ELSE IF RGe(t, xs[Len(xs)]) THEN ys[Len(ys)]
  ELSE LET i == CHOOSE j \in 1..(Len(xs) - 1) : RLe(xs[j], t) /\ RLt(t, xs[j + 1])
       IN  RAdd(ys[i], RDiv(RMul(RSub(ys[i + 1], ys[i]), RSub(t, xs[i])), RSub(xs[i + 1], xs[i])))
Clamp(n) == IF n <= 50 THEN 50 ELSE IF n >= 1050 THEN 1050 ELSE n
FirstTol(n) == RAdd(E(12), RFrac(Clamp(n) - 50, 100000))
\* right ends of the brackets tried in turn
Brackets(n) == LET t0 == FirstTol(n) IN
  FoldLeft(LAMBDA a, i : LET t == RMul("2", a[Len(a)]) IN IF RLt(t, "1/10") THEN Append(a, t) ELSE a, <<t0>>, Upto(40))
JKroot(e) ==
  LET P == {"C33"}  o == e.out
      f(t) == PL(e.xs, e.ys, t)
      B == Brackets(e.n)
      f0 == f("0")
      \* a sign too small for floating point is not decided
      tiny == RMul(E(12), RMaxAbs(e.ys))
      sgn(v) == IF RLe(RAbs(v), tiny) THEN 9 ELSE RSign(v)
      S == {i \in 1..Len(B) : sgn(f0) * sgn(f(B[i])) = -1}
      unclear == sgn(f0) = 9 \/ \E i \in 1..Len(B) : sgn(f(B[i])) = 9
      d == E(8)
      L == RMax2("0", RSub(o.v, d))
  IN  IF Raised(o) THEN Cl(P, {"raises"})
      ELSE IF ~IsNum(o) THEN Cl(P, {"kind"})
      ELSE If(RLt(o.v, "0") \/ RGt(o.v, "1/10"), Cl(P, {"interval"}))
           \cup (IF unclear THEN {"skip:undecided"}
                 ELSE IF S # {} THEN
                   LET b == B[CHOOSE i \in S : \A j \in S : i <= j] IN
                   If(RGt(o.v, RAdd(b, d)) \/ (RSign(f(L)) * RSign(f(RAdd(o.v, d))) > 0 /\ sgn(f(o.v)) # 9), Cl(P, {"zero"}))
                 ELSE IF e.uni THEN If(~Near(o.v, e.xm, "1/10000"), Cl(P, {"minimiser"}))
                 ELSE {})

\* ---- C34 -----------------------------------------------------------------------
\* results of a helper are a tuple of numbers
TupNums(o, n) == o.k = "tuple" /\ Len(o.v) = n /\ \A i \in 1..n : o.v[i].k = "num"
CosA(t) == Cos(RAbs(t))
SinA(t) == IF RSign(t) >= 0 THEN Sin(t) ELSE RNeg(Sin(RNeg(t)))
\* squared semi-axes of the ellipse with half-widths r1, r2 in the frame rotated by t, or "none"/"unclear"
AxesOf(q1, q2, t) ==            \* q = squared half-widths
  LET c2 == Sq(CosA(t))  s2 == Sq(SinA(t))  fact == RSub(c2, s2)
      na == RSub(RMul(q1, c2), RMul(q2, s2))  nb == RSub(RMul(q2, c2), RMul(q1, s2))
      big == RAdd(q1, q2)
  IN  IF RLe(RAbs(fact), E(5)) \/ RLe(RAbs(na), RMul(E(9), big)) \/ RLe(RAbs(nb), RMul(E(9), big)) THEN <<"unclear", "0", "0">>
      ELSE LET a2 == RDiv(na, fact)  b2 == RDiv(nb, fact) IN
           <<IF RSign(a2) > 0 /\ RSign(b2) > 0 THEN "ok" ELSE "none", a2, b2>>
RelNear(a, b, r) == Near(a, b, RMul(r, RAbs(b)))
JAb(e) ==
  LET P == {"C34"}  o == e.out
      A == AxesOf(Sq(RMul(e.lam, e.s1)), Sq(RMul(e.lam, e.s2)), e.theta) IN
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~TupNums(o, 2) THEN Cl(P, {"shape"})
  ELSE IF A[1] = "unclear" THEN {"skip:undecided"}
  ELSE IF A[1] = "none" THEN If(~(o.v[1].v = "inf" /\ o.v[2].v = "inf"), Cl(P, {"no_solution"}))
  ELSE IF ~(RIsFin(o.v[1].v) /\ RIsFin(o.v[2].v)) THEN Cl(P, {"finite"})
  ELSE If(~RelNear(Sq(o.v[1].v), A[2], E(5)) \/ ~RelNear(Sq(o.v[2].v), A[3], E(5)), Cl(P, {"axes"}))
JRho(e) ==
  LET c == CosA(e.theta)  s == SinA(e.theta)
      n == Len(e.x)
      r == Tab(n, LAMBDA i : RAdd(Sq(RDiv(RAdd(RMul(e.x[i], c), RMul(e.y[i], s)), e.a)),
                                  Sq(RDiv(RSub(RMul(e.y[i], c), RMul(e.x[i], s)), e.b))))
      M == RAdd(RMaxAbs(e.x), RMaxAbs(e.y))
  IN  VecIs({"C34"}, e.out, r, RMul(E(11), Sq(RDiv(M, RMin2(e.a, e.b)))))
\* rounded central difference of c observed as d
DiffSeen(c, d) ==
  \E m \in {RMul(E(13), RMaxAbs(c))} :
  \A i \in 1..Len(c) :
     IF i = 1 \/ i = Len(c) THEN REq(d[i], "0")
     ELSE LET v == RMul(Half, RSub(c[i + 1], c[i - 1])) IN
          IF RLt(TieDist(v, 4), RAdd(E(7), RMul(RPow("10", 4), m))) THEN Near(d[i], v, RAdd("51/1000000", m)) /\ IsRounded(d[i], 4)
          ELSE Near(d[i], RRound(v, 4), RAdd(E(12), m))
JDeriv(e) ==
  LET P == {"C34"}  o == e.out  n == Len(e.x) IN
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~(o.k = "tuple" /\ Len(o.v) = 2 /\ IsVec(o.v[1], n) /\ IsVec(o.v[2], n)) THEN Cl(P, {"shape"})
  ELSE IF ~RAllFin(o.v[1].v) \/ ~RAllFin(o.v[2].v) THEN Cl(P, {"finite"})
  ELSE If(~DiffSeen(e.x, o.v[1].v), Cl(P, {"first"}))
       \cup If(~DiffSeen(o.v[1].v, o.v[2].v), Cl(P, {"second"}))
SdTol(x) == RAdd(RMul(E(9), Std(x)), RMul(E(13), RMaxAbs(x)))
LamOf(n) == Sqrt(RMul("2", Ln(RInt(n))))
JPsPars(e) ==
  LET P == {"C34"}  o == e.out  n == Len(e.c)
      lam == LamOf(n)
      sc == Std(e.c)  sd == Std(e.d)  s2 == Std(e.d2)
      want == <<sc, sd, s2, lam, Atan(RDiv(RDot(e.c, e.d2), RDot(e.c, e.c))),
                RMul(lam, sc), RMul(lam, sd), RMul(lam, sd), RMul(lam, s2)>>
      M == RAdd(RMax2(RMaxAbs(e.c), RMax2(RMaxAbs(e.d), RMaxAbs(e.d2))), "1")
  IN  IF RSign(RDot(e.c, e.c)) = 0 THEN {"skip:degenerate"}
      ELSE IF Raised(o) THEN Cl(P, {"raises"})
      ELSE IF ~TupNums(o, 11) THEN Cl(P, {"shape"})
      ELSE IF \E i \in 1..9 : ~RIsFin(o.v[i].v) THEN Cl(P, {"finite"})
      ELSE If(\E i \in 1..9 : ~Near(o.v[i].v, want[i], RMul(E(8), M)), Cl(P, {"parameters"}))
           \cup LET A == AxesOf(Sq(RMul(lam, sc)), Sq(RMul(lam, s2)), want[5]) IN
                IF A[1] # "ok" THEN {}
                ELSE IF ~(RIsFin(o.v[10].v) /\ RIsFin(o.v[11].v)) THEN Cl(P, {"axes"})
                ELSE If(~RelNear(Sq(o.v[10].v), A[2], E(4)) \/ ~RelNear(Sq(o.v[11].v), A[3], E(4)), Cl(P, {"axes"}))
JVcPars(e) ==
  LET P == {"C34"}  o == e.out IN
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~TupNums(o, 4) THEN Cl(P, {"shape"})
  ELSE IF \E i \in 1..4 : ~RIsFin(o.v[i].v) THEN Cl(P, {"finite"})
  ELSE If(~Near(o.v[1].v, LamOf(Len(e.u)), E(11)) \/ ~Near(o.v[2].v, Std(e.u), SdTol(e.u))
          \/ ~Near(o.v[3].v, Std(e.v), SdTol(e.v)) \/ ~Near(o.v[4].v, Std(e.w), SdTol(e.w)), Cl(P, {"parameters"}))

ToolOps == {"xform", "ptf", "sop", "proto", "kroot", "ab", "rho", "deriv", "pspars", "vcpars"}
JudgeTool(e) ==
  CASE e.op = "xform" -> JXform(e) [] e.op = "ptf" -> JPtf(e)   [] e.op = "sop" -> JSop(e)
    [] e.op = "proto" -> JProto(e) [] e.op = "kroot" -> JKroot(e) [] e.op = "ab" -> JAb(e)
    [] e.op = "rho" -> JRho(e)     [] e.op = "deriv" -> JDeriv(e) [] e.op = "pspars" -> JPsPars(e)
    [] e.op = "vcpars" -> JVcPars(e)
=============================================================================
