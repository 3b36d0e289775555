------------------------------ MODULE MC_Tools ------------------------------
(* Filter algebra (C32), the kernel's root solver (C33) and the ellipse helpers   *)
(* (C34) on every small system: the specification accepts the exact transforms      *)
(* and conversions and rejects slightly wrong ones.                                  *)
EXTENDS MCBase
CONSTANTS Roots, MaxZ, MaxP, Levels, MaxY
VARIABLES z, p, conj, y, mode
vars == <<z, p, conj, y, mode>>
Init == z = <<>> /\ p = <<>> /\ y = <<>> /\ mode \in {"zpk", "pl"} /\ conj \in (IF mode = "zpk" THEN BOOLEAN ELSE {FALSE})
Poles == IF conj /\ Len(p) > 0 THEN <<<<RInt(p[1]), "1">>, <<RInt(p[1]), "-1">>>> \o Tab(Len(p) - 1, LAMBDA i : CRe(RInt(p[i + 1])))
         ELSE Tab(Len(p), LAMBDA i : CRe(RInt(p[i])))
Zeros == Tab(Len(z), LAMBDA i : CRe(RInt(z[i])))
\* roots are added in non-decreasing order: a multiset is enumerated once
Ok(s, r) == IF s = <<>> THEN TRUE ELSE s[Len(s)] <= r
AddP == mode = "zpk" /\ Len(p) < MaxP /\ z = <<>> /\ \E r \in Roots : (IF conj /\ Len(p) = 1 THEN TRUE ELSE Ok(p, r)) /\ p' = Append(p, r) /\ UNCHANGED <<z, conj, y, mode>>
AddZ == /\ mode = "zpk" /\ Len(z) < MaxZ /\ Len(z) < Len(p)
        /\ \E r \in Roots : Ok(z, r) /\ z' = Append(z, r) /\ EmitCase([op |-> "zpk", z |-> z', p |-> p, conj |-> conj])
        /\ UNCHANGED <<p, conj, y, mode>>
AddY == /\ mode = "pl" /\ Len(y) < MaxY
        /\ \E v \in Levels : y' = Append(y, v) /\ (Len(y') >= 3 => EmitCase([op |-> "pl", y |-> y']))
        /\ UNCHANGED <<z, p, conj, mode>>
Next == AddP \/ AddZ \/ AddY
Spec == Init /\ [][Next]_vars
Pts == <<<<"1/3", "7/5">>, <<"0", "5/2">>, <<"-11/4", "1/7">>>>
Tens(k) == RPow("10", -k)
Zpk(zz, pp, k) == [k |-> "zpk", fin |-> TRUE, z |-> zz, p |-> pp, gain |-> k]
Ev(fn, a, b, out) == [op |-> "xform", fn |-> fn, z |-> Zeros, p |-> Poles, k |-> "2", a |-> a, b |-> b, pts |-> Pts, bad |-> "", out |-> out]
Real(c) == c[1]
NegProd(r) == FoldLeft(LAMBDA m, i : CMul(m, CSub(CRe("0"), r[i])), CRe("1"), Upto(Len(r)))
Pad(s, n, c) == s \o Tab(n, LAMBDA i : c)
Deg == Len(Poles) - Len(Zeros)
Ref(fn, a) ==
  CASE fn = "lp2lp" -> Zpk(Tab(Len(Zeros), LAMBDA i : CMul(CRe(a), Zeros[i])), Tab(Len(Poles), LAMBDA i : CMul(CRe(a), Poles[i])),
                           RMul("2", RPow(a, Deg)))
    [] fn = "lp2hp" -> Zpk(Pad(Tab(Len(Zeros), LAMBDA i : CDiv(CRe(a), Zeros[i])), Deg, CRe("0")), Tab(Len(Poles), LAMBDA i : CDiv(CRe(a), Poles[i])),
                           RMul("2", Real(CDiv(NegProd(Zeros), NegProd(Poles)))))
    [] fn = "bilin" ->
         LET w == CRe(RMul("2", a))  m(r) == CDiv(CAdd(w, r), CSub(w, r)) IN
         Zpk(Pad(Tab(Len(Zeros), LAMBDA i : m(Zeros[i])), Deg, CRe("-1")), Tab(Len(Poles), LAMBDA i : m(Poles[i])),
             RMul("2", Real(CDiv(CProd(w, Zeros), CProd(w, Poles)))))
J(e) == JudgeTool(e)
Transforms ==
  (mode = "zpk" /\ Len(p) > 0) => \A fn \in {"lp2lp", "lp2hp", "bilin"} :
    LET a == "3"  r == Ref(fn, a) IN
    /\ J(Ev(fn, a, "1", r)) = {}
    /\ "C32.substitution" \in J(Ev(fn, a, "1", [r EXCEPT !.gain = RMul(@, "10001/10000")]))
    /\ "C32.substitution" \in J(Ev(fn, a, "1", [r EXCEPT !.p[1][1] = RAdd(@, Tens(4))]))
    /\ (Len(r.z) > 0 => "C32.zeros" \in J(Ev(fn, a, "1", [r EXCEPT !.z = Tail(@)])))
    /\ J(Ev(fn, a, "1", Exc("ValueError"))) = {"C32.raises"}
PtfEv(b, a) == [op |-> "ptf", z |-> Zeros, p |-> Poles, k |-> "2", out |-> [k |-> "ptf", b |-> b, a |-> a]]
RealPoly(r) == LET c == PolyOf(r) IN Tab(Len(c), LAMBDA i : c[i][1])
\* numbers and polynomials: values of the expanded form agree with the product form
Forms ==
  mode = "zpk" =>
    LET b == RScale("2", RealPoly(Zeros))  a == RealPoly(Poles) IN
    /\ J(PtfEv(b, a)) = {}
    /\ \A i \in 1..Len(b) : "C32.numerator" \in J(PtfEv([b EXCEPT ![i] = RAdd(@, Tens(6))], a))
    /\ \A i \in 1..Len(a) : "C32.denominator" \in J(PtfEv(b, [a EXCEPT ![i] = RAdd(@, Tens(6))]))
    /\ \A i \in 1..3 : CZero(CSub(CPoly(a, Pts[i]), CProd(Pts[i], Poles))) /\ CZero(CSub(CPoly(RealPoly(Zeros), Pts[i]), CProd(Pts[i], Zeros)))
    /\ (Len(a) <= 3 /\ Len(p) > 0) =>
         LET al(c) == Tab(3, LAMBDA i : IF i <= 3 - Len(c) THEN "0" ELSE c[i - 3 + Len(c)])       \* analog: right-aligned
             di(c) == Tab(3, LAMBDA i : IF i <= Len(c) THEN c[i] ELSE "0")                         \* digital: left-aligned
             SE(ag, s) == [op |-> "sop", z |-> Zeros, p |-> Poles, k |-> "2", ag |-> ag, pg |-> "nr", pts |-> Pts, bad |-> "",
                           out |-> [k |-> "sos", fin |-> TRUE, sos |-> s]] IN
         /\ J(SE(TRUE, <<<<al(b), al(a)>>>>)) = {} /\ J(SE(FALSE, <<<<di(b), di(a)>>>>)) = {}
         /\ "C32.same_filter" \in J(SE(TRUE, <<<<[al(b) EXCEPT ![3] = RAdd(@, Tens(5))], al(a)>>>>))
         /\ "C32.same_filter" \in J(SE(FALSE, <<<<di(b), [di(a) EXCEPT ![2] = RAdd(@, Tens(5))]>>>>))
         /\ "C32.sections" \in J(SE(FALSE, <<<<di(b), di(a)>>, <<<<"1", "0", "0">>, <<"1", "0", "0">>>>>>))
XS == Tab(Len(y), LAMBDA i : RFrac(i - 1, 10 * (Len(y) - 1)))
KEv(n, t) == [op |-> "kroot", xs |-> XS, ys |-> X(y), n |-> n, uni |-> FALSE, xm |-> "0", out |-> NumO(t)]
\* a bracket with a sign change: some point of it is accepted, and no point whose neighbourhood keeps its sign is
RootLaws ==
  (mode = "pl" /\ Len(y) >= 3) => \A n \in {10, 300, 2000} :
    LET B == Brackets(n)  f(t) == PL(XS, X(y), t)
        S == {i \in 1..Len(B) : RSign(f("0")) * RSign(f(B[i])) < 0} IN
    /\ \A i \in 1..Len(B) : RLt(B[i], "1/10") /\ (i > 1 => REq(B[i], RMul("2", B[i - 1])))
    /\ Len(B) > 1 => RGe(RMul("2", B[Len(B)]), "1/10")
    /\ (S # {} /\ \A i \in 1..Len(B) : RSign(f(B[i])) # 0) =>
         LET b == B[CHOOSE i \in S : \A j \in S : i <= j]
             \* the crossing of the first segment that has one
             k == CHOOSE j \in 1..(Len(y) - 1) : RSign(f(XS[j])) * RSign(f(XS[j + 1])) <= 0 /\ RSign(f(XS[j])) # 0 /\ \A l \in 1..(j - 1) : RSign(f(XS[l])) * RSign(f(XS[l + 1])) > 0
             t == RAdd(XS[k], RDiv(RMul(RSub(XS[k + 1], XS[k]), RNeg(f(XS[k]))), RSub(f(XS[k + 1]), f(XS[k]))))
         IN  /\ J(KEv(n, t)) = {}
             /\ J(KEv(n, RMul("1/2", t))) = {"C33.zero"}
             /\ "C33.interval" \in J(KEv(n, "11/100"))
\* the axes solve the two equations they are defined by
AxesLaws ==
  (mode = "pl" /\ Len(y) = 3) =>
    LET q1 == RInt(1 + y[1] * y[1])  q2 == RInt(1 + y[2] * y[2])  t == RFrac(y[3], 4)
        c2 == Sq(CosA(t))  s2 == Sq(SinA(t))  A == AxesOf(q1, q2, t) IN
    A[1] = "unclear" \/ (/\ Near(RAdd(RMul(A[2], c2), RMul(A[3], s2)), q1, Tens(15))
                         /\ Near(RAdd(RMul(A[2], s2), RMul(A[3], c2)), q2, Tens(15)))
R3 == {-3, -1, 2}
R4 == {-4, -2, -1, 3}
=============================================================================
