------------------------------- MODULE MC_Signal -------------------------------
(* Spectra, noise, distributions and filters (C20, C22, C23, C27).  Mode "rec"    *)
(* records a series; "noise" additionally perturbs it spike by spike in place;     *)
(* "filter" and "normal" range over parameters.                                     *)
EXTENDS MCBase
CONSTANTS Samples, MaxN, Orders, Points
VARIABLES mode, x, p       \* p: what else the mode needs
vars == <<mode, x, p>>
Block == 4
Init == /\ x = <<>>
        /\ \/ mode = "rec" /\ p = <<>>
           \/ mode = "noise" /\ p = <<>>
           \/ mode = "normal" /\ \E q \in Points : p = <<q>>
           \/ mode = "filter" /\ \E bt \in {"lp", "hp", "bp", "bs"} : \E ord \in Orders : \E w \in Points : p = <<bt, ord, w>>
Next == \/ /\ mode = "rec" /\ Len(x) < MaxN
           /\ \E v \in Samples : x' = Append(x, v) /\ UNCHANGED <<mode, p>>
                                 /\ (Len(x') >= Block => EmitCase([op |-> "ser", x |-> x']))
        \/ /\ mode = "noise" /\ p = <<>> /\ Len(x) < 4
           /\ \E v \in {2, -5} : x' = Append(x, v) /\ UNCHANGED <<mode, p>> /\ EmitCase([op |-> "noise", x |-> x'])
        \* the k-th spike: a later position, sign alternating with k, magnitude at least pct * |mean|
        \/ /\ mode = "noise" /\ Len(x) = 4 /\ Len(p) < 2
           /\ \E i \in 1..4 : \E m \in {0, 3} :
                /\ \A j \in 1..Len(p) : p[j][1] < i
                /\ p' = Append(p, <<i, m>>) /\ UNCHANGED <<mode, x>>
Spec == Init /\ [][Next]_vars
n == Len(x)
V == X(x)
T == E(25)
\* ---- C22 --------------------------------------------------------------------
WelchLaws == (mode = "rec" /\ n >= Block) => \A ov \in {"0", "50", "75"} :
  LET two == Welch(V, "2", ov, Block, FALSE)  one == Welch(V, "2", ov, Block, TRUE)
      hop == WelchHop(Block, ov)
      S == Sorted(WelchStarts(n, Block, hop))
      w == Hann(Block)
      seg(s) == RHad(w, Centred(SubSeq(V, S[s], S[s] + Block - 1)))
      ev(a, f, os) == [op |-> "welch", x |-> V, fs |-> "2", ov |-> ov, block |-> Block, onesided |-> os, bins |-> <<>>, out |-> TupO(<<Arr(f), Arr(a)>>)]
      f1 == WelchFreq("2", Block, TRUE)  f2 == WelchFreq("2", Block, FALSE) IN
  /\ S[1] = 1 /\ S[Len(S)] + Block - 1 <= n /\ S[Len(S)] + hop + Block - 1 > n      \* as many blocks as fit
  \* Parseval: the two-sided density carries the power of the windowed blocks
  /\ Near(RMul(RSum(two), RMul("2", RMul(RDot(w, w), RInt(Len(S))))),
          RMul(RInt(Block), RSum(Tab(Len(S), LAMBDA s : RDot(seg(s), seg(s))))), T)
  /\ Near(one[1], two[1], T) /\ Near(one[2], RAdd(two[2], two[4]), T) /\ Near(one[3], two[3], T)   \* folding
  /\ \A k \in 1..4 : RSign(RAdd(two[k], T)) >= 0
  /\ RFar(Welch(RShift(V, "9"), "2", ov, Block, TRUE), one, T) = <<>>            \* the mean of a block is removed
  /\ RFar(Welch(RScale("-3", V), "2", ov, Block, TRUE), RScale("9", one), T) = <<>>
  /\ RFar(Welch(V, "4", ov, Block, TRUE), RScale(Half, one), T) = <<>>
  /\ EqV(f1, <<"0", "1/2", "1">>) /\ EqV(f2, <<"0", "1/2", "-1", "-1/2">>)
  /\ Clauses(Start, ev(one, f1, TRUE)) = {} /\ Clauses(Start, ev(two, f2, FALSE)) = {}
  /\ \A k \in 1..3 : "C22.density" \in Clauses(Start, ev(Bump(one, k, E(4)), f1, TRUE))
  /\ "C22.frequencies" \in Clauses(Start, ev(one, Bump(f1, 2, E(6)), TRUE))
  /\ Clauses(Start, ev(two, f2, TRUE)) # {}
\* ---- C23: every behaviour of the noise machine is accepted, a deviation is not -------
Mag(m) == RAdd(RMul("50", RAbs(m)), "0")
Noisy ==
  LET mu == Mean(V) IN
  FoldLeft(LAMBDA y, k : Bump(y, p[k][1], RMul(RInt((IF k % 2 = 1 THEN 1 ELSE -1) * RSign(mu)), RAdd(Mag(mu), RInt(p[k][2])))),
           V, Upto(Len(p)))
NoiseLaws == (mode = "noise" /\ Len(p) = 2) =>
  LET ev(o) == [op |-> "noise", x |-> V, pct |-> "50", seed |-> 1, out |-> Arr(o), out2 |-> Arr(o)]
      y == Noisy IN
  /\ Clauses(Start, ev(y)) = {}
  /\ "C23.seed" \in Clauses(Start, [ev(y) EXCEPT !.out2 = Arr(V)])
  /\ "C23.count" \in Clauses(Start, ev([y EXCEPT ![p[2][1]] = V[p[2][1]]]))
  /\ "C23.alternation" \in Clauses(Start, ev([y EXCEPT ![p[2][1]] = RSub(RMul("2", V[p[2][1]]), @)]))
  /\ "C23.magnitude" \in Clauses(Start, ev([y EXCEPT ![p[1][1]] = RAdd(V[p[1][1]], RMul(RSub(@, V[p[1][1]]), "1/10"))]))
\* ---- C20 ----------------------------------------------------------------------
Fns == {"cdf", "sf", "pdf", "log_cdf", "log_sf", "log_pdf"}
DistLaws == mode = "normal" =>
  LET t == p[1]  s == <<t, RNeg(t)>>
      e0(f) == [op |-> "dist", fn |-> f, x |-> s, shape |-> <<2>>, sd |-> "2", mu |-> "1", bad |-> "", out |-> 0]
      ref(f) == Tab(2, LAMBDA i : DistAt(e0(f), s[i])[1])
      ev(f, v) == [e0(f) EXCEPT !.out = Arr(v)] IN
  /\ \A f \in Fns : /\ Clauses(Start, ev(f, ref(f))) = {}
                    /\ \A i \in 1..2 : Clauses(Start, ev(f, Bump(ref(f), i, E(6)))) # {}
  /\ Near(RAdd(ref("cdf")[1], ref("sf")[1]), "1", T)
  /\ Near(ref("log_cdf")[1], Ln(ref("cdf")[1]), T) /\ Near(ref("log_pdf")[1], Ln(ref("pdf")[1]), T)
  \* the density is the derivative of the distribution function (central difference, standard normal)
  /\ LET h == "1/1024" IN
     Near(RDiv(RSub(Phi(RAdd(t, h)), Phi(RSub(t, h))), RMul("2", h)), Density(t, "0", "1"), E(6))
\* ---- C27 ------------------------------------------------------------------------
Cut == <<"1", "6">>
FilterLaws == mode = "filter" =>
  LET bt == p[1]  ord == p[2]  w == p[3]
      c == IF bt \in {"lp", "hp"} THEN <<"6">> ELSE Cut
      G(b, o, v) == ButterGain(b, o, c, v)
      twin == CASE bt = "lp" -> "hp" [] bt = "hp" -> "lp" [] bt = "bp" -> "bs" [] bt = "bs" -> "bp"
      g == G(bt, ord, w) IN
  RSign(w) >= 0 =>
  /\ RSign(g) >= 0 /\ RLe(g, "1")
  /\ \A i \in 1..Len(c) : G(bt, ord, c[i]) = Half                  \* half power at every cut-off
  /\ REq(RAdd(g, G(twin, ord, w)), "1")                           \* complementary filters share the power
  /\ (RGt(g, Half) => RGe(G(bt, ord + 1, w), g)) /\ (RLt(g, Half) => RLe(G(bt, ord + 1, w), g))   \* steeper with the order
  /\ G("lp", ord, "0") = "1" /\ G("hp", ord, "0") = "0" /\ G("bp", ord, "0") = "0"
\* order-one analog filters in closed form; the judge accepts them and rejects defects
Proto(bt) ==
  CASE bt = "lp" -> [z |-> <<>>, p |-> <<<<"-6", "0">>>>, gain |-> "6", b |-> <<"6">>, a |-> <<"1", "6">>,
                     sos |-> <<<<<<"0", "0", "6">>, <<"0", "1", "6">>>>>>]
    [] bt = "hp" -> [z |-> <<<<"0", "0">>>>, p |-> <<<<"-6", "0">>>>, gain |-> "1", b |-> <<"1", "0">>, a |-> <<"1", "6">>,
                     sos |-> <<<<<<"0", "1", "0">>, <<"0", "1", "6">>>>>>]
    [] bt = "bp" -> [z |-> <<<<"0", "0">>>>, p |-> <<<<"-2", "0">>, <<"-3", "0">>>>, gain |-> "5", b |-> <<"5", "0">>, a |-> <<"1", "5", "6">>,
                     sos |-> <<<<<<"0", "5", "0">>, <<"1", "5", "6">>>>>>]
    [] bt = "bs" -> [z |-> <<<<"0", Sqrt("6")>>, <<"0", RNeg(Sqrt("6"))>>>>, p |-> <<<<"-2", "0">>, <<"-3", "0">>>>, gain |-> "1",
                     b |-> <<"1", "0", "6">>, a |-> <<"1", "5", "6">>, sos |-> <<<<<<"1", "0", "6">>, <<"1", "5", "6">>>>>>]
FEv(bt, q, o) == [op |-> "butter", N |-> 1, bt |-> bt, ag |-> TRUE, bad |-> "", w |-> IF bt \in {"lp", "hp"} THEN <<"6">> ELSE Cut,
                  pts |-> <<q>>, out |-> [k |-> "filter", fin |-> TRUE, z |-> o.z, p |-> o.p, gain |-> o.gain, b |-> o.b, a |-> o.a, sos |-> o.sos]]
FilterJudged == (mode = "filter" /\ p[2] = 1 /\ RSign(p[3]) > 0) =>
  LET bt == p[1]  q == p[3]  o == Proto(bt)  C(r) == Clauses(Start, FEv(bt, q, r)) IN
  /\ C(o) = {}
  /\ "C27.gain" \in C([o EXCEPT !.gain = RMul(@, "101/100")])
  /\ "C27.stable" \in C([o EXCEPT !.p[1][1] = RNeg(@)])
  /\ "C27.order" \in C([o EXCEPT !.p = Append(@, <<"-1", "0">>), !.z = Append(@, <<"-1", "0">>)])
  /\ "C27.nd_form" \in C([o EXCEPT !.a[2] = RMul(@, "101/100")])
  /\ "C27.sop_form" \in C([o EXCEPT !.sos[1][2][2] = RMul(@, "101/100")])
PointsQ == {"0", "1/3", "1", "5/2"}
PointsD == {"0", "1/9", "1/3", "2/3", "1", "4/3", "2", "5/2", "3"}
=============================================================================
