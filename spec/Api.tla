-------------------------------- MODULE Api --------------------------------
(* One operator per kind of call of the public interface.  J...(e) is the set  *)
(* of violated clauses of the observed call e (arguments and result), named    *)
(* "<property>.<clause>"; "skip:<reason>" marks a call about which the         *)
(* specification says nothing (floating point too close to a boundary, or      *)
(* outside the stated domain), "KF.<name>" a listed known finding.             *)
EXTENDS Detect, Signal

Cl(P, S)   == {p \o "." \o s : p \in P, s \in S}
If(b, S)   == IF b THEN S ELSE {}
Raised(o)  == o.k = "exc"
RaisedT(o, t) == o.k = "exc" /\ t \in SeqSet(o.isa)
\* expected exception of type t
MustRaise(P, o, t) == If(~RaisedT(o, t), Cl(P, {"rejects"}))
IsNum(o)   == o.k = "num" /\ RIsFin(o.v)
IsVec(o, n) == o.k = "arr" /\ o.nd = 1 /\ Len(o.v) = n
FinVec(o, n) == IsVec(o, n) /\ RAllFin(o.v)
E(k)       == RPow("10", -k)

\* a number equal to v within tol
NumIs(P, o, v, tol) ==
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~IsNum(o) THEN Cl(P, {"kind"})
  ELSE If(~Near(o.v, v, tol), Cl(P, {"value"}))
\* a 1-D vector equal to v within tol
VecIs(P, o, v, tol) ==
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~IsVec(o, Len(v)) THEN Cl(P, {"shape"})
  ELSE IF ~RAllFin(o.v) THEN Cl(P, {"finite"})
  ELSE If(RFar(o.v, v, tol) # <<>>, Cl(P, {"value"}))

\* ---- replacement: C01, C03-C07 -------------------------------------------------
RepProp(m) == CASE m = "linear" -> "C03" [] m \in {"last", "mean", "median"} -> "C04"
                [] m = "cubic" -> "C05" [] m = "poly" -> "C06" [] OTHER -> "C07"
Rounds(m) == m \in {"linear", "cubic", "poly"}
HalfUlp(d) == RMul(RMul(Half, Pow10(-d)), "1000000001/1000000000")
KeepOK(m, d, M, a, b) ==
  IF Rounds(m) THEN Near(a, b, RAdd(HalfUlp(d), RMul(E(13), M))) /\ IsRounded(a, d)
  ELSE REq(a, b)
JRep(e) ==
  LET n == Len(e.x)
      P == RepProp(e.m)
      B == {"C01", P}
      o == e.out
      F == {e.idx[i] + 1 : i \in 1..Len(e.idx)}
      M == RMaxAbs(e.x)
      x == e.x
  IN
  IF e.m = "wma" /\ \E i \in 1..Len(e.idx) : e.idx[i] >= n - e.per THEN
    IF Raised(o) THEN (IF "IndexError" \in SeqSet(o.isa) THEN {"KF.wma_index"} ELSE Cl(B, {"raises"}))
    ELSE IF ~IsVec(o, n) THEN {"C01.shape"}
    ELSE IF ~RAllFin(o.v) THEN {"C01.finite"}
    ELSE If(\E i \in (1..n) \ F : ~REq(o.v[i], x[i]), {"C01.unflagged"})
  ELSE IF Raised(o) THEN Cl(B, {"raises"})
  ELSE IF ~IsVec(o, n) THEN {"C01.shape", P \o ".shape"}
  ELSE IF ~RAllFin(o.v) THEN {"C01.finite", P \o ".finite"}
  ELSE
    If(e.alias, {"C01.new_series"})
    \cup If(\E i \in (1..n) \ F : ~KeepOK(e.m, e.dec, M, o.v[i], x[i]), {"C01.unflagged"})
    \cup
    (LET At(v, tol) == If(\E i \in F : ~(Near(o.v[i], v[i], RAdd(HalfUlp(e.dec), tol)) /\ IsRounded(o.v[i], e.dec)),
                          Cl({P}, {"value"}))
         Ex(v, tol) == If(\E i \in F : ~Near(o.v[i], v[i], tol), Cl({P}, {"value"}))
     IN  CASE e.m = "linear" -> LET c == TLCEval(KnownMean(x, {e.nan[i] + 1 : i \in 1..Len(e.nan)})) IN
                               At(LinearWith(x, F, c), RMul(E(11), M))
           [] e.m = "last"   -> Ex(LastValid(x, F), "0")
           [] e.m = "mean"   -> LET c == Mean(x) IN Ex(FillWith(x, F, c), RMul(E(12), M))
           [] e.m = "median" -> LET c == Median(x) IN Ex(FillWith(x, F, c), RMul(E(14), M))
           [] e.m = "cubic"  -> LET c == Cubic12(x, F) IN At(c, RMul(E(9), RMaxAbs(c)))
           [] e.m = "poly"   ->
                LET r == PolyRepl(x, F, e.win, e.deg, e.dec)
                    S == RMaxAbs(r[1])
                    \* the fit uses powers of the sample number: conditioning grows with the record
                    cnd == IF e.deg <= 2 THEN E(7) ELSE RAdd(E(7), RMul(E(14), RPow(RInt(n), 2 * e.deg - 2))) IN
                If(\E i \in F : ~(/\ Near(o.v[i], r[1][i], RAdd(RAdd(HalfUlp(e.dec), r[2][i]), RMul(cnd, S)))
                                  /\ IsRounded(o.v[i], e.dec)), {"C06.value"})
           [] OTHER ->       \* smoother-based: the recorded smoother output at the same index
                IF Raised(e.sm) THEN {"C07.raises_not"}
                ELSE IF ~(e.sm.k = "arr" /\ RAllFin(e.sm.v)) THEN {"skip:smoother"}
                ELSE If(\E i \in F : i > Len(e.sm.v) \/ ~Near(o.v[i], e.sm.v[i], RMul(E(12), M)), {"C07.value"}))
\* rejected replacement arguments: t is the required exception type
JRepBad(e) == MustRaise({RepProp(e.m)}, e.out, e.t)
\* the smoother rejects the parameters: the replacement must as well
JRepSmBad(e) == IF ~Raised(e.sm) THEN {"skip:smoother"}
                ELSE If(~(Raised(e.out) /\ e.out.t = e.sm.t), {"C07.rejects"})

\* ---- detectors: C08-C13 -------------------------------------------------------------
\* index-set form (C13), then agreement with the verdicts V (property P)
IdxForm(o, n) ==
  IF Raised(o) THEN {"C13.raises"}
  ELSE IF o.k # "arr" \/ o.nd # 1 THEN {"C13.one_dimensional"}
  ELSE IF o.kind # "i" THEN {"C13.integer"}
  ELSE If(\E i \in 1..Len(o.v) : o.v[i] < 0 \/ o.v[i] >= n, {"C13.range"})
       \cup If(~StrictInc(o.v), {"C13.increasing"})
Verdicts(P, o, V) ==
  IF Raised(o) THEN Cl({P}, {"raises"})
  ELSE IF o.k # "arr" \/ (o.kind # "i" /\ Len(o.v) > 0) THEN Cl({P}, {"kind"})
  ELSE LET S == {o.v[i] + 1 : i \in 1..Len(o.v)} IN
       If(\E i \in 1..Len(V) : V[i] = "T" /\ i \notin S, Cl({P}, {"missed"}))
       \cup If(\E i \in 1..Len(V) : V[i] = "F" /\ i \in S, Cl({P}, {"spurious"}))
Undecided(V) == If(\A i \in 1..Len(V) : V[i] = "U", {"skip:undecided"})
IsConst(x) == \A i \in 1..Len(x) : REq(x[i], x[1])
NoFlag(o)  == o.k = "arr" /\ Len(o.v) = 0

JAcc(e) ==
  IF e.tag \notin {1, 2} THEN MustRaise({"C08"}, e.out, "ValueError")
  ELSE LET V == Accel(e.x, e.fq, IF e.tag = 1 THEN 1 ELSE -1, e.g, e.kg, e.ks) IN
       IdxForm(e.out, Len(e.x)) \cup Verdicts("C08", e.out, V) \cup Undecided(V)
       \cup If(IsConst(e.x) /\ RGt(e.kg, "0") /\ RGt(e.g, "0") /\ ~NoFlag(e.out), {"C13.constant"})
JPst(e) ==
  IdxForm(e.out, Len(e.x))
  \cup (IF IsConst(e.x) THEN If(~NoFlag(e.out), {"C13.constant", "C09.degenerate"})
        ELSE LET V == PhaseSpace(e.x) IN Verdicts("C09", e.out, V) \cup Undecided(V))
JVc(e) ==
  LET V == VelCorr(e.u, e.v, e.w) IN
  IdxForm(e.out, Len(e.u)) \cup Verdicts("C10", e.out, V) \cup Undecided(V)
  \cup If(IsConst(e.u) /\ IsConst(e.v) /\ IsConst(e.w) /\ ~NoFlag(e.out), {"C13.constant"})
JSph(e) ==
  IdxForm(e.out, Len(e.x))
  \cup (IF IsConst(e.x) THEN If(~NoFlag(e.out), {"C13.constant"})
        ELSE IF SphericalDegenerate(e.x) THEN {"skip:degenerate"}
        ELSE LET V == Spherical(e.x) IN Verdicts("C11", e.out, V) \cup Undecided(V))
\* two runs of a detector that have to agree: mean offset / iteration counter (C11), permutation (C10)
JPair(e) ==
  IF Raised(e.o1) \/ Raised(e.o2) THEN Cl({e.p}, {"raises"})
  ELSE IF e.o1.k # "arr" \/ e.o2.k # "arr" THEN Cl({e.p}, {"kind"})
  ELSE LET S1 == {e.o1.v[i] : i \in 1..Len(e.o1.v)}
           S2 == {e.map[e.o2.v[i] + 1] : i \in 1..Len(e.o2.v)} IN
       If(S1 # S2, Cl({e.p}, {"invariant"}))
JKde3(e) ==
  LET V == Kernel3D(e.x, e.grid) IN
  IdxForm(e.out, Len(e.x)) \cup Verdicts("C12", e.out, V) \cup Undecided(V)
JKdePair(e) ==
  LET V == KernelPair(e.u, e.w, e.grid) IN Verdicts("C12", e.out, V) \cup Undecided(V)
\* C35: the returned estimate is the density on the rotated mesh
JKdens(e) ==
  LET P == {"C35"}  o == e.out  g == e.grid  L == LandscapeAt(e.u, e.w, g, e.pts) IN
  IF L.flat THEN {"skip:degenerate"}
  ELSE IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~(o.k = "grid" /\ o.shape = <<g, g>>) THEN Cl(P, {"shape"})
  ELSE IF ~o.fin THEN Cl(P, {"finite"})
  ELSE IF e.pts # <<>> THEN
       If(\E i \in 1..Len(e.pts) : ~Near(o.v[i], L.D[i], RMul(E(5), RMaxSeq(L.D))), Cl(P, {"density"}))
       \cup If(\E i \in 1..Len(e.pts) : RSign(o.v[i]) < 0, Cl(P, {"negative"}))
  ELSE LET top == RMaxSeq(Tab(g, LAMBDA p : RMaxSeq(L.D[p]))) IN
       If(\E p \in 1..g : \E q \in 1..g : ~Near(o.v[p][q], L.D[p][q], RMul(E(5), top)), Cl(P, {"density"}))
       \cup If(\E p \in 1..g : \E q \in 1..g : RSign(o.v[p][q]) < 0, Cl(P, {"negative"}))
\* detectors called for the form of their result only
JForm(e) == IdxForm(e.out, e.n)

\* ---- descriptive statistics: C14 --------------------------------------------------------
\* items are records [k: "n" number | "nan" | "c" numeric string | "s" other string, v: value]
Kinds(e) == {e.items[i].k : i \in 1..Len(e.items)}
Vals(e, K) == LET S == SelectSeq(e.items, LAMBDA t : t.k \in K) IN Tab(Len(S), LAMBDA i : S[i].v)
JDesc(e) ==
  LET o == e.out  P == {"C14"}  ks == Kinds(e)  n == Len(e.items) IN
  CASE e.fn = "scalar" -> IF Raised(o) THEN Cl(P, {"raises"})
                          ELSE If(~(o.k = "num" /\ RIsFin(o.v) /\ REq(o.v, e.items[1].v)), Cl(P, {"scalar"}))
    [] e.fn = "mean" ->
         LET v == Vals(e, {"n", "c"}) IN
         IF "nan" \in ks THEN {"skip:nan"}
         ELSE IF v = <<>> THEN If(~(o.k = "str" /\ o.v = "Invalid input."), Cl(P, {"invalid"}))
         ELSE NumIs(P, o, Mean(v), RMul(E(12), RMaxAbs(v)))
    [] e.fn \in {"min", "max"} ->
         IF n = 0 THEN MustRaise(P, o, "ValueError")
         ELSE IF ks \cap {"c", "s"} # {} THEN
                (IF "nan" \in ks THEN If(~Raised(o), Cl(P, {"rejects"})) ELSE MustRaise(P, o, "TypeError"))
         ELSE IF "nan" \in ks THEN MustRaise(P, o, "ValueError")
         ELSE LET v == Vals(e, {"n"}) IN
              NumIs(P, o, IF e.fn = "min" THEN RMinSeq(v) ELSE RMaxSeq(v), "0")
    [] e.fn = "median" ->
         IF n = 0 \/ e.nd # 1 THEN MustRaise(P, o, "ValueError")
         ELSE IF ks # {"n"} THEN {"skip:domain"}
         ELSE LET v == Vals(e, {"n"}) IN NumIs(P, o, Median(v), RMul(E(15), RMaxAbs(v)))
    [] e.fn = "mode" ->
         IF n = 0 \/ ks # {"n"} THEN {"skip:domain"}
         ELSE IF Raised(o) THEN Cl(P, {"raises"})
         ELSE LET md == ModeOf(Vals(e, {"n"})) IN
              If(~(/\ o.k = "tuple" /\ Len(o.v) = 2 /\ IsNum(o.v[1]) /\ IsNum(o.v[2])
                   /\ REq(o.v[1].v, md[3]) /\ REq(o.v[2].v, RInt(md[4]))), Cl(P, {"mode"}))

\* ---- spread and moments: C15 --------------------------------------------------------------
JSpread(e) ==
  LET o == e.out  P == {"C15"}  ks == Kinds(e)  n == Len(e.items) IN
  IF e.fn \in {"var", "std"} /\ (n = 0 \/ e.nd # 1) THEN MustRaise(P, o, "ValueError")
  ELSE IF ks \cap {"c", "s"} # {} THEN
       (IF e.fn \in {"var", "std"} THEN MustRaise(P, o, "TypeError") ELSE {"skip:domain"})
  ELSE IF "nan" \in ks THEN
       (IF e.fn = "kurt" THEN If(~(o.k = "num" /\ o.v = "nan"), Cl(P, {"nan"})) ELSE {"skip:domain"})
  ELSE IF n = 0 THEN {"skip:domain"}
  ELSE
  LET x == Vals(e, {"n"})
      M == RMaxAbs(x)  D == MaxDev(x)  v == Var(x)
      tv == RAdd(RMul(E(10), Sq(D)), RAdd(RMul(E(13), RMul(M, D)), Sq(RMul(E(13), M))))
      flat == RLe(D, RMul(E(4), M))
  IN  CASE e.fn = "var" -> NumIs(P, o, v, tv)
        [] e.fn = "std" -> IF RSign(v) = 0 THEN NumIs(P, o, "0", RMul(E(13), M))
                           ELSE LET s == Sqrt(v) IN
                                NumIs(P, o, s, RAdd(RDiv(tv, s), RMul(E(13), M)))
        [] e.fn = "skew" -> IF flat THEN {"skip:degenerate"}
                            ELSE LET s == Skew(x) IN NumIs(P, o, s, RMul(E(8), RAdd("1", RAbs(s))))
        [] e.fn = "kurt" -> IF flat THEN {"skip:degenerate"}
                            ELSE LET s == Kurt(x) IN NumIs(P, o, s, RMul(E(8), RAdd("1", RAbs(s))))

\* ---- smoothers: C16-C18 ----------------------------------------------------------------------
JSma(e) == LET n == Len(e.x) IN
  IF e.win <= 0 THEN MustRaise({"C16"}, e.out, "ValueError")
  ELSE IF n = 0 THEN If(~(e.out.k = "arr" /\ Len(e.out.v) = 0), {"C16.empty"})
  ELSE IF e.win > n THEN MustRaise({"C16"}, e.out, "ValueError")
  ELSE VecIs({"C16"}, e.out, SMA(e.x, e.win), RMul(E(11), RMaxAbs(e.x)))
JEma(e) ==
  IF RLe(e.al, "0") \/ RGt(e.al, "1") THEN MustRaise({"C16"}, e.out, "ValueError")
  ELSE VecIs({"C16"}, e.out, EMA(e.x, e.al), RMul(E(11), RMaxAbs(e.x)))
JWma(e) == LET n == Len(e.x) IN
  IF e.per <= 0 \/ e.per > n THEN MustRaise({"C16"}, e.out, "ValueError")
  ELSE VecIs({"C16"}, e.out, WMA(e.x, e.per), RMul(E(11), RMaxAbs(e.x)))
Between(a, b, c, tol) == RLe(RSub(RMin2(b, c), tol), a) /\ RLe(a, RAdd(RMax2(b, c), tol))
JKal(e) ==
  LET K == Kalman(e.x, e.x0, e.p0, e.Q, e.R)
      M == RMax2(RMaxAbs(e.x), RAbs(e.x0))
      n == Len(e.x)  tol == RMul(E(11), M) IN
  IF RSign(e.R) = 0 /\ RSign(e.Q) = 0 THEN {"skip:undefined"}       \* 0/0 in the gain
  ELSE
  VecIs({"C17"}, e.out, K, KalTol(e.x, e.x0, e.p0, e.Q, e.R))
  \cup (IF FinVec(e.out, n) /\ RGt(e.p0, "0") /\ RGt(e.Q, "0") /\ RGt(e.R, "0")
        THEN If(\E i \in 1..n : ~Between(e.out.v[i], IF i = 1 THEN e.x0 ELSE e.out.v[i - 1], e.x[i], tol),
                {"C17.between"})
        ELSE {})
\* eigenbasis e.E (claimed by the harness, verified here) of the lag covariance
JSsa(e) ==
  LET n == Len(e.x)  L == e.L
      C == LagCov(e.x, L)
      V == e.E
      lam == Tab(L, LAMBDA a : RDot(V[a], Tab(L, LAMBDA r : RDot(C[r], V[a]))))
      lmax == RMax2(RMaxAbs(lam), E(30))
      basis == /\ \A a \in 1..L : \A b \in a..L : Near(RDot(V[a], V[b]), IF a = b THEN "1" ELSE "0", E(10))
               /\ \A a \in 1..L : \A r \in 1..L :
                    Near(RDot(C[r], V[a]), RMul(lam[a], V[a][r]), RMul(E(9), lmax))
      thr == Mobility2(SineProbe(L, e.f, e.fs))
      mob == Tab(L, LAMBDA a : Mobility2(V[a]))
      keep == {a \in 1..L : RLe(mob[a], thr)}
      big(a) == RGt(lam[a], RMul(E(9), lmax))
      firm(a) == RGt(lam[a], RMul(E(12), lmax))
      \* directions below the rounding of the covariance are mixed arbitrarily: their energy is not decided
      loose == RSum(Tab(L, LAMBDA a : IF firm(a) THEN "0" ELSE RAbs(lam[a])))
      probe == SineProbe(L, e.f, e.fs)
      unclear == \/ RLt(RDot(probe, probe), RMul(E(4), RInt(L * L)))      \* a sine that vanishes at the samples
                 \/ \E a \in 1..L : big(a) /\ Near(mob[a], thr, RMul(thr, "1/100"))
                 \/ \E a \in keep : \E b \in (1..L) \ keep :
                       \/ (big(a) \/ big(b)) /\ Near(lam[a], lam[b], RMul(E(6), lmax))
                       \/ (firm(a) \/ firm(b)) /\ Near(lam[a], lam[b], RMul(E(12), lmax))
      B == LET s == Sorted(keep) IN Tab(Len(s), LAMBDA i : V[s[i]])
      M == RMaxAbs(e.x)
  IN  IF ~basis THEN {"skip:witness"}
      ELSE IF unclear THEN {"skip:mobility"}
      ELSE LET R == IF B = <<>> THEN Const(n, "0") ELSE Reconstruct(e.x, L, B) IN
           IF Raised(e.out) THEN {"C18.raises"}
           ELSE IF ~FinVec(e.out, n) THEN {"C18.shape"}
           ELSE If(RFar(e.out.v, R, RAdd(HalfUlp(4), RAdd(RMul(E(8), M), IF loose = "0" THEN "0" ELSE Sqrt(loose)))) # <<>>, {"C18.value"})
                \cup If(\E i \in 1..n : ~IsRounded(e.out.v[i], 4), {"C18.rounding"})
                \cup If(IsConst(e.x) /\ RFar(e.out.v, e.x, RAdd(HalfUlp(4), RMul(E(8), M))) # <<>>, {"C18.constant"})
\* result of the negated series
JSsaNeg(e) == IF Raised(e.o1) \/ Raised(e.o2) THEN {"C18.raises"}
              ELSE IF ~(e.o1.k = "arr" /\ e.o2.k = "arr" /\ Len(e.o1.v) = Len(e.o2.v)) THEN {"C18.shape"}
              ELSE If(RFar(e.o1.v, RScale("-1", e.o2.v), RAdd(E(4), RMul(E(8), RMaxAbs(e.o1.v)))) # <<>>, {"C18.sign"})

\* ---- turbulence: C19 -----------------------------------------------------------------------------
\* tolerance of a covariance of two series
CovTol(a, b) == LET A == RMaxAbs(a)  B == RMaxAbs(b)  DA == MaxDev(a)  DB == MaxDev(b) IN
  RAdd(RMul(E(10), RMul(DA, DB)),
       RAdd(RMul(E(13), RAdd(RMul(A, DB), RMul(B, DA))), RMul(E(26), RMul(A, B))))
JTke(e) == NumIs({"C19"}, e.out, TKE(e.u, e.v, e.w), RAdd(CovTol(e.u, e.u), RAdd(CovTol(e.v, e.v), CovTol(e.w, e.w))))
JRey(e) ==
  LET o == e.out
      R == Reynolds(e.u, e.v, e.w)
      T == <<CovTol(e.u, e.u), CovTol(e.v, e.v), CovTol(e.w, e.w), CovTol(e.u, e.v), CovTol(e.u, e.w), CovTol(e.v, e.w)>> IN
  IF Raised(o) THEN {"C19.raises"}
  ELSE IF ~(o.k = "tuple" /\ Len(o.v) = 6 /\ \A i \in 1..6 : IsNum(o.v[i])) THEN {"C19.shape"}
  ELSE If(\E i \in 1..6 : ~Near(o.v[i].v, R[i], T[i]), {"C19.value"})

\* ---- normal distribution: C20, C21 ---------------------------------------------------------------------
\* each returns <<expected, tolerance>>
DistAt(e, x) ==
  CASE e.fn = "cdf"     -> LET p == Phi(x) IN <<p, RMul(E(10), p)>>
    [] e.fn = "sf"      -> LET p == Phi(RNeg(x)) IN <<p, RAdd(E(15), RMul(E(12), p))>>
    [] e.fn = "pdf"     -> LET p == Density(x, e.mu, e.sd) IN <<p, RMul(E(10), p)>>
    [] e.fn = "log_cdf" -> <<Ln(Phi(x)), RAdd(E(15), RMul(E(10), RAbs(Ln(Phi(x)))))>>
    [] e.fn = "log_sf"  -> <<Ln(Phi(RNeg(x))), E(9)>>
    [] e.fn = "log_pdf" -> LET z == RDiv(RSub(x, e.mu), e.sd) IN
                           <<RNeg(RAdd(RMul(Half, Sq(z)), RAdd(Ln(e.sd), RMul(Half, Ln(RMul("2", Pi)))))),
                             RMul(E(10), RAdd("1", Sq(z)))>>
JDist(e) ==
  LET o == e.out  P == {"C20"} IN
  IF e.bad = "empty" THEN MustRaise(P, o, "ValueError")
  ELSE IF e.bad = "nan" THEN MustRaise(P, o, "TypeError")
  ELSE IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~(o.k = "arr" /\ o.shape = e.shape /\ Len(o.v) = Len(e.x)) THEN Cl(P, {"shape"})
  ELSE IF ~RAllFin(o.v) THEN Cl(P, {"finite"})
  ELSE If(\E i \in 1..Len(e.x) : LET d == DistAt(e, e.x[i]) IN ~Near(o.v[i], d[1], d[2]), Cl(P, {"value"}))
       \cup If(e.fn = "cdf" /\ \E i \in 1..Len(e.x) : \E j \in 1..Len(e.x) :
                 RLt(e.x[i], e.x[j]) /\ RGt(o.v[i], RAdd(o.v[j], E(15))), Cl(P, {"monotone"}))
       \cup If(e.fn = "cdf" /\ \E i \in 1..Len(e.x) : \E j \in i..Len(e.x) :
                 REq(e.x[i], RNeg(e.x[j])) /\ ~Near(RAdd(o.v[i], o.v[j]), "1", E(14)), Cl(P, {"symmetric"}))

Alts == {"two-sided", "greater", "less"}
JTest(e) ==
  LET o == e.out  n == Len(e.x)  P == {"C21"}
      need == IF e.fn = "skewtest" THEN 8 ELSE 5
  IN
  IF n < need \/ e.alt \notin Alts THEN
    (IF n >= 1 /\ RSign(Var(e.x)) = 0 THEN {"skip:degenerate"} ELSE MustRaise(P, o, "ValueError"))
  ELSE IF RLe(MaxDev(e.x), RMul(E(4), RMaxAbs(e.x))) THEN {"skip:degenerate"}
  ELSE
  LET g == IF e.fn = "skewtest" THEN Skew(e.x) ELSE Kurt(e.x)
      zk == IF e.fn = "skewtest" THEN <<"ok", SkewZ(g, n)>> ELSE KurtZ(g, n)
  IN  IF zk[1] # "ok" THEN {"skip:undefined"}
      ELSE IF e.fn = "skewtest" /\ RLt(RAbs(g), E(6)) THEN {"skip:symmetric"}
      ELSE IF Raised(o) THEN Cl(P, {"raises"})
      ELSE IF ~(o.k = "tuple" /\ Len(o.v) = 2 /\ IsNum(o.v[1]) /\ IsNum(o.v[2])) THEN Cl(P, {"shape"})
      ELSE LET z == zk[2]  p == PValue(z, e.alt) IN
           If(~Near(o.v[1].v, z, RMul(E(7), RAdd("1", RAbs(z)))), Cl(P, {"z"}))
           \cup If(~Near(o.v[2].v, p, E(7)), Cl(P, {"p"}))

\* ---- spectra: C22 ------------------------------------------------------------------------------------------
JWelch(e) ==
  LET o == e.out  P == {"C22"} IN
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~(o.k = "tuple" /\ Len(o.v) = 2) THEN Cl(P, {"shape"})
  ELSE IF e.bins # <<>> THEN
       LET f == WelchFreq(e.fs, e.block, e.onesided)
           S == WelchAt(e.x, e.fs, e.ov, e.block, e.onesided, e.bins)
           b == RAdd(RMul(E(12), WelchBound(e.x, e.fs, e.ov, e.block)), RDiv(RMul(RMul(E(20), RInt(e.block)), Sq(RMaxAbs(e.x))), e.fs)) IN
       IF ~FinVec(o.v[1], Len(f)) \/ ~FinVec(o.v[2], Len(f)) THEN Cl(P, {"shape"})
       ELSE If(RFar(o.v[1].v, f, RMul(E(11), e.fs)) # <<>>, Cl(P, {"frequencies"}))
            \cup If(\E i \in 1..Len(e.bins) : ~Near(o.v[2].v[e.bins[i]], S[i], RAdd(b, RMul(E(9), S[i]))), Cl(P, {"density"}))
  ELSE LET f == WelchFreq(e.fs, e.block, e.onesided)
           S == Welch(e.x, e.fs, e.ov, e.block, e.onesided)
           tol == RAdd(RMul(E(9), RMaxAbs(S)), RDiv(RMul(E(20), Sq(RMaxAbs(e.x))), e.fs)) IN
       IF ~FinVec(o.v[1], Len(f)) \/ ~FinVec(o.v[2], Len(S)) THEN Cl(P, {"shape"})
       ELSE If(RFar(o.v[1].v, f, RMul(E(11), RAdd(e.fs, "0"))) # <<>>, Cl(P, {"frequencies"}))
            \cup If(RFar(o.v[2].v, S, tol) # <<>>, Cl(P, {"density"}))

\* ---- synthetic noise: C23 -----------------------------------------------------------------------------------
JNoise(e) ==
  LET n == Len(e.x)  o == e.out  P == {"C23"}  m == Mean(e.x)
      cnt == RToInt(RDiv(RMul(RInt(n), e.pct), "100"))
      M == RMaxAbs(e.x)
  IN
  IF Raised(o) \/ Raised(e.out2) THEN Cl(P, {"raises"})
  ELSE IF ~FinVec(o, n) \/ ~FinVec(e.out2, n) THEN Cl(P, {"shape"})
  ELSE
  LET D == Sorted({i \in 1..n : ~REq(o.v[i], e.x[i])})
      lo == RMul(e.pct, RAbs(m))
      tol == RMul(E(12), RAdd(M, RMul(lo, "2")))
  IN  If(RFar(o.v, e.out2.v, tol) # <<>>, Cl(P, {"seed"}))
      \cup (IF RSign(m) = 0 THEN {}
            ELSE IF RLe(RMul(RMax2(e.pct, "1"), RAbs(m)), RMul(E(6), M)) THEN {"skip:tiny mean"}
            ELSE If(Len(D) # cnt, Cl(P, {"count"}))
                 \cup If(\E k \in 1..Len(D) : RSign(RSub(o.v[D[k]], e.x[D[k]])) # (IF k % 2 = 1 THEN 1 ELSE -1) * RSign(m),
                         Cl(P, {"alternation"}))
                 \cup If(\E k \in 1..Len(D) : RLt(RAbs(RSub(o.v[D[k]], e.x[D[k]])), RSub(lo, tol)), Cl(P, {"magnitude"})))

\* over several runs the polluted positions reach every part of the record
JNoiseCov(e) ==
  IF e.bad THEN Cl({"C23"}, {"raises"})
  ELSE If(\E k \in 0..9 : \A i \in 1..Len(e.pos) : e.pos[i] * 10 < k * e.n \/ e.pos[i] * 10 >= (k + 1) * e.n, Cl({"C23"}, {"whole_record"}))

\* ---- pollution rate: C24 ----------------------------------------------------------------------------------------
JPoll(e) ==
  LET n == Len(e.x)  V == Pollution(e.x, e.f, e.kk)
      lo == Cardinality({i \in 1..n : V[i] = "T"})
      hi == Cardinality({i \in 1..n : V[i] # "F"})
      o == e.out  P == {"C24"}
      pc(c) == RDiv(RInt(100 * c), RInt(n))
  IN
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~IsNum(o) THEN Cl(P, {"kind"})
  ELSE If(RLt(o.v, RSub(pc(lo), E(9))) \/ RGt(o.v, RAdd(pc(hi), E(9))), Cl(P, {"value"}))
       \cup If(~\E c \in lo..hi : Near(o.v, pc(c), E(9)), Cl(P, {"value"}))

\* ---- premodification: C30 -----------------------------------------------------------------------------------------
JPre(e) ==
  LET n == Len(e.x)  o == e.out  P == {"C30"}
      R == PreRemovable(e.x, e.k2)  K == PreKeep(e.x, e.k1) IN
  IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~(o.k = "tuple" /\ Len(o.v) = 2 /\ FinVec(o.v[1], n)) THEN Cl(P, {"shape"})
  ELSE
  LET und == \E i \in 1..n : R[i] = "U"
      w == o.v[2]
      S == IF w.k = "arr" /\ w.kind = "i" THEN {w.v[i] + 1 : i \in 1..Len(w.v)} ELSE {0}
  IN  (IF und THEN {"skip:undecided"}
       ELSE If(RFar(o.v[1].v, PreApply(e.x, {i \in 1..n : R[i] = "T"}), "0") # <<>>, Cl(P, {"series"})))
      \cup If(\E i \in 1..n : (K[i] = "T" /\ i \notin S) \/ (K[i] = "F" /\ i \in S), Cl(P, {"unremovable"}))
      \cup If(~(S \subseteq 1..n), Cl(P, {"unremovable"}))

\* ---- kernel building blocks: C31 --------------------------------------------------------------------------------------
JSlope(e) ==
  LET n == Len(e.x)  o == e.out  P == {"C31"}
      ex == SmallInts(e.x)
      tie == RMul(E(12), RMaxAbs(e.x))
      Ok(i) == IF i = 1 \/ i = n THEN RSign(o.v[i]) = 0
               ELSE LET b == RSub(e.x[i], e.x[i-1])  f == RSub(e.x[i+1], e.x[i]) IN
                    \/ Near(o.v[i], Slope(e.x, i), IF ex THEN "0" ELSE tie)
                    \/ ~ex /\ Near(RAbs(b), RAbs(f), tie) /\ (Near(o.v[i], b, tie) \/ Near(o.v[i], f, tie))
  IN  IF Raised(o) THEN Cl(P, {"raises"})
      ELSE IF ~FinVec(o, n) THEN Cl(P, {"shape"})
      ELSE If(\E i \in 1..n : ~Ok(i), Cl(P, {"slope"}))
JAngle(e) ==
  LET o == e.out  P == {"C31"}
      nx == AngleNum(e.x, e.y)  dx == AngleNum(e.x, e.x)
      n == N1(e.x)
      X == RMaxAbs(e.x)  Y == RMaxAbs(e.y)
      scale == RMul(Sq(n), RMul(X, RMax2(X, Y)))
  IN  IF RSign(nx) = 0 /\ RSign(dx) = 0 /\ SmallInts(e.x) /\ SmallInts(e.y) THEN NumIs(P, o, "0", "0")   \* a constant first variable, exactly
      ELSE IF RLe(RMax2(RAbs(nx), RAbs(dx)), RMul(E(4), scale)) THEN {"skip:degenerate"}
      ELSE NumIs(P, o, Angle(e.x, e.y), E(8))
JCut(e) ==
  LET o == e.out  P == {"C31"}  ip == e.ip + 1
      lo == CutLow(e.fp, ip, e.grid, e.dens, e.k1, e.k2)
      hi == CutHigh(e.fp, ip, e.grid, e.dens, e.k1, e.k2)
  IN  IF Raised(o) THEN Cl(P, {"raises"})
      ELSE IF ~(o.k = "tuple" /\ Len(o.v) = 2 /\ IsNum(o.v[1]) /\ IsNum(o.v[2])) THEN Cl(P, {"shape"})
      ELSE (IF lo[1] = "undecided" THEN {"skip:undecided"} ELSE If(~REq(o.v[1].v, e.vp[lo[2]]), Cl(P, {"lower"})))
           \cup (IF hi[1] = "undecided" THEN {"skip:undecided"} ELSE If(~REq(o.v[2].v, e.vp[hi[2]]), Cl(P, {"upper"})))

\* ---- Butterworth: C27 ------------------------------------------------------------------------------------------------------
\* evaluation points: analog s = i*t; digital z on the unit circle with tan(theta/2) = t, whose
\* image under the bilinear map (normalised rate 2) is the analog frequency 4*t
Pt(e, t) == IF e.ag THEN <<"0", t>>
            ELSE LET q == RAdd("1", Sq(t)) IN <<RDiv(RSub("1", Sq(t)), q), RDiv(RMul("2", t), q)>>
Warp(e, w) == IF e.ag THEN w ELSE RMul("4", Tan(RDiv(RMul(Pi, w), "2")))
FreqOf(e, t) == IF e.ag THEN t ELSE RMul("4", t)
CDivAbs2(a, b) == RDiv(CAbs2(a), CAbs2(b))
CDiv(a, b) == LET q == CAbs2(b) IN <<RDiv(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), q),
                                     RDiv(RSub(RMul(a[2], b[1]), RMul(a[1], b[2])), q)>>
CProd(s, r) == FoldLeft(LAMBDA p, i : CMul(p, CSub(s, r[i])), <<"1", "0">>, Upto(Len(r)))
StablePole(e, p) == IF e.ag THEN RSign(p[1]) < 0 ELSE RLt(CAbs2(p), "1")
StableSec(e, c) ==           \* c = <<a0, a1, a2>> of a second-order section
  IF e.ag THEN (IF RSign(c[1]) # 0 THEN RSign(c[1]) * RSign(c[2]) > 0 /\ RSign(c[1]) * RSign(c[3]) > 0
                ELSE IF RSign(c[2]) # 0 THEN RSign(c[2]) * RSign(c[3]) > 0 ELSE RSign(c[3]) # 0)
  ELSE LET a1 == RDiv(c[2], c[1])  a2 == RDiv(c[3], c[1]) IN
       RLt(RAbs(a2), "1") /\ RLt(RAbs(a1), RAdd("1", a2))
\* relative tolerance of a gain assembled from roots: conditioning by distance to the nearest root
JButter(e) ==
  LET P == {"C27"} IN
  IF e.bad # "" THEN MustRaise(P, e.out, e.bad)
  ELSE IF Raised(e.out) THEN Cl(P, {"raises"})
  ELSE IF e.out.k # "filter" THEN Cl(P, {"shape"})
  ELSE
  LET o == e.out
      cut == Tab(Len(e.w), LAMBDA i : Warp(e, e.w[i]))
      G(t) == ButterGain(e.bt, e.N, cut, FreqOf(e, t))
      tol(g) == RAdd(RMul("1/1000000", g), E(11))
      H1(t) == LET s == Pt(e, t) IN
               CMul(<<o.gain, "0">>, CDiv(CProd(s, o.z), CProd(s, o.p)))
      cond(c, s) == RDiv(PolyScale(c, Sqrt(CAbs2(s))), RAdd(Sqrt(CAbs2(CPoly(c, s))), E(60)))
      okpt(t) == \A i \in 1..Len(o.p) : RGt(CAbs2(CSub(Pt(e, t), o.p[i])), E(12))
      Hba(t) == LET s == Pt(e, t) IN CDiv(CPoly(o.b, s), CPoly(o.a, s))
      Hsos(t) == LET s == Pt(e, t) IN
         FoldLeft(LAMBDA p, i : CMul(p, CDiv(CPoly(o.sos[i][1], s), CPoly(o.sos[i][2], s))), <<"1", "0">>, Upto(Len(o.sos)))
      nearC(a, b, r) == RLe(CAbs2(CSub(a, b)), Sq(RAdd(E(11), RMul(r, Sqrt(CAbs2(b))))))
      \* magnitude part is decided where the numbers are well conditioned
  IN  IF ~o.fin THEN Cl(P, {"finite"})
      ELSE
      If(\E i \in 1..Len(o.p) : ~StablePole(e, o.p[i]), Cl(P, {"stable"}))
      \cup If(Len(o.p) # (IF e.bt \in {"lp", "hp"} THEN e.N ELSE 2 * e.N), Cl(P, {"order"}))
      \cup If(\E i \in 1..Len(o.sos) : ~StableSec(e, o.sos[i][2]), Cl(P, {"stable"}))
      \cup If(\E k \in 1..Len(e.pts) : LET t == e.pts[k] IN
                 okpt(t) /\ ~Near(CAbs2(H1(t)), G(t), tol(G(t))), Cl(P, {"gain"}))
      \cup If(\E k \in 1..Len(e.pts) : LET t == e.pts[k]  s == Pt(e, t) IN
                 LET r == RMul(E(13), RSum(Tab(Len(o.sos), LAMBDA i : RAdd(cond(o.sos[i][1], s), cond(o.sos[i][2], s))))) IN
                 okpt(t) /\ RLt(r, E(3)) /\ ~nearC(Hsos(t), H1(t), RAdd(E(6), r)), Cl(P, {"sop_form"}))
      \cup If(\E k \in 1..Len(e.pts) : LET t == e.pts[k]  s == Pt(e, t)
                                            r == RMul(E(13), RAdd(cond(o.b, s), cond(o.a, s))) IN
                 okpt(t) /\ RLt(r, E(3)) /\ ~nearC(Hba(t), H1(t), RAdd(E(6), RMul("100", r))), Cl(P, {"nd_form"}))

\* ---- bivariate kernel: C28 -----------------------------------------------------------------------------------------------------
JBivar(e) ==
  LET o == e.out  P == {"C28"}  G == e.grid
      xl == RMinSeq(e.x)  xh == RMaxSeq(e.x)  yl == RMinSeq(e.y)  yh == RMaxSeq(e.y)
      M == RAdd(RMaxAbs(e.x), RMaxAbs(e.y))
      edge == \E i \in 1..Len(e.x) : RLt(EdgeDist(e.x[i], xl, xh, G), E(9)) \/ RLt(EdgeDist(e.y[i], yl, yh, G), E(9))
  IN
  IF REq(xl, xh) \/ REq(yl, yh) THEN {"skip:degenerate"}
  ELSE IF Raised(o) THEN Cl(P, {"raises"})
  ELSE IF ~(o.k = "grids" /\ o.shapes = <<<<G, G>>, <<G, G>>, <<G, G>>>>) THEN Cl(P, {"shape"})
  ELSE IF ~o.fin THEN Cl(P, {"finite"})
  ELSE
  LET gx(a) == RAdd(xl, RDiv(RMul(RInt(a - 1), RSub(xh, xl)), RInt(G - 1)))
      gy(a) == RAdd(yl, RDiv(RMul(RInt(a - 1), RSub(yh, yl)), RInt(G - 1)))
      mesh == \A r \in 1..G : \A c \in 1..G :
                 Near(o.mx[r][c], gx(c), RMul(E(10), M)) /\ Near(o.my[r][c], gy(r), RMul(E(10), M))
      D == Bivariate(e.x, e.y, e.hx, e.hy, G)
      dm == RMax2(RMaxSeq(Tab(G, LAMBDA a : RMaxAbs(D[a]))), E(12))
      tol == RMul(E(9), dm)
      \* the first variable runs along the columns of the result
      good(r, c) == LET v == D[c][r]  w == o.den[r][c] IN
                    IF RLt(v, RNeg(tol)) THEN RSign(w) > 0 /\ RLe(w, E(12)) ELSE Near(w, v, tol) /\ RSign(w) >= 0
  IN  If(~mesh, Cl(P, {"mesh"}))
      \cup (IF edge /\ ~e.exact THEN {"skip:cell edge"}
            ELSE If(\E r \in 1..G : \E c \in 1..G : ~good(r, c), Cl(P, {"density"})))

Judge(e) ==
  CASE e.op = "rep" -> JRep(e)      [] e.op = "repbad" -> JRepBad(e)  [] e.op = "repsmbad" -> JRepSmBad(e)
    [] e.op = "acc" -> JAcc(e)      [] e.op = "pst" -> JPst(e)        [] e.op = "vc" -> JVc(e)
    [] e.op = "sph" -> JSph(e)      [] e.op = "pair" -> JPair(e)      [] e.op = "kde3" -> JKde3(e)
    [] e.op = "kdepair" -> JKdePair(e) [] e.op = "kdens" -> JKdens(e) [] e.op = "form" -> JForm(e)
    [] e.op = "desc" -> JDesc(e)    [] e.op = "spread" -> JSpread(e)
    [] e.op = "sma" -> JSma(e)      [] e.op = "ema" -> JEma(e)        [] e.op = "wma" -> JWma(e)
    [] e.op = "kal" -> JKal(e)      [] e.op = "ssa" -> JSsa(e)        [] e.op = "ssaneg" -> JSsaNeg(e)
    [] e.op = "tke" -> JTke(e)      [] e.op = "rey" -> JRey(e)
    [] e.op = "dist" -> JDist(e)    [] e.op = "test" -> JTest(e)
    [] e.op = "welch" -> JWelch(e)  [] e.op = "noise" -> JNoise(e)    [] e.op = "noisecov" -> JNoiseCov(e)
      [] e.op = "poll" -> JPoll(e)
    [] e.op = "pre" -> JPre(e)      [] e.op = "slope" -> JSlope(e)    [] e.op = "angle" -> JAngle(e)
    [] e.op = "cut" -> JCut(e)      [] e.op = "butter" -> JButter(e)  [] e.op = "bivar" -> JBivar(e)
=============================================================================
