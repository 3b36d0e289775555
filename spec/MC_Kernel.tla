------------------------------- MODULE MC_Kernel -------------------------------
(* Density landscapes (C12, C28, C31).  Mode "cut": a density profile grows point  *)
(* by point; "pts": points of the plane are recorded one after the other.           *)
EXTENDS MCBase
CONSTANTS Heights, MaxL, Coords, MaxP, Grid, MinKde
VARIABLES mode, f, x, y
vars == <<mode, f, x, y>>
Init == mode \in {"cut", "pts"} /\ f = <<>> /\ x = <<>> /\ y = <<>>
Peak(g) == CHOOSE i \in 1..Len(g) : \A j \in 1..Len(g) : g[j] < g[i] \/ (g[j] = g[i] /\ j >= i)
K1s == {"1/4", "1/2"}
K2 == "1/2"
Next == \/ /\ mode = "cut" /\ Len(f) < MaxL
           /\ \E h \in Heights :
                /\ f' = Append(f, h) /\ UNCHANGED <<mode, x, y>>
                /\ (Len(f') >= 3 => EmitCase([op |-> "cut", fp |-> f', ip |-> Peak(f') - 1, grid |-> 2, dens |-> "8", k1 |-> "1/2", k2 |-> "1/2"]))
        \/ /\ mode = "pts" /\ Len(x) < MaxP
           /\ \E a \in Coords : \E b \in Coords :
                /\ x' = Append(x, a) /\ y' = Append(y, b) /\ UNCHANGED <<mode, f>>
                /\ (Cardinality(SeqSet(x')) > 1 /\ Cardinality(SeqSet(y')) > 1) =>
                     EmitCase([op |-> "hist", x |-> x', y |-> y', grid |-> Grid])
                /\ EmitCase([op |-> "ser", x |-> x' \o y'])
Spec == Init /\ [][Next]_vars
\* ---- C31 ---------------------------------------------------------------------
F == X(f)
L == Len(f)
Lo(g, ip, k1) == CutLow(g, ip, 2, "8", k1, K2)
Hi(g, ip, k1) == CutHigh(g, ip, 2, "8", k1, K2)
CutLaws == (mode = "cut" /\ L >= 3) => \A ip \in {i \in 1..L : f[i] > 0} : \A k1 \in K1s :
  LET lo == Lo(F, ip, k1)  hi == Hi(F, ip, k1)
      vp == Tab(L, LAMBDA i : RInt(10 * i))
      ev(a, b) == [op |-> "cut", fp |-> F, vp |-> vp, ip |-> ip - 1, grid |-> 2, dens |-> "8", k1 |-> k1, k2 |-> K2,
                   out |-> TupO(<<NumO(vp[a]), NumO(vp[b])>>)] IN
  /\ lo[2] \in 2..L /\ hi[2] \in 1..L
  /\ (lo[1] = "at" => lo[2] < ip /\ \A j \in (lo[2] + 1)..(ip - 1) : CutOK("", F, ip, 2, "8", k1, K2, j) = "F")   \* the first one met
  /\ (hi[1] = "at" => hi[2] > ip /\ \A j \in (ip + 1)..(hi[2] - 1) : CutOK("", F, ip, 2, "8", k1, K2, j) = "F")
  /\ (lo[1] = "go" => lo[2] = 2) /\ (hi[1] = "go" => hi[2] = L)                                                   \* defaults
  \* a profile and its thresholds may be scaled together
  /\ CutLow(RScale("4", F), ip, 2, "32", k1, K2) = lo
  /\ (lo[1] # "undecided" /\ hi[1] # "undecided") =>
       /\ Clauses(Start, ev(lo[2], hi[2])) = {}
       /\ \A j \in 1..L : (j # lo[2] => "C31.lower" \in Clauses(Start, ev(j, hi[2])))
                          /\ (j # hi[2] => "C31.upper" \in Clauses(Start, ev(lo[2], j)))
SlopeLaws == (mode = "cut" /\ L >= 2) =>
  LET S == Tab(L, LAMBDA i : Slope(F, i))  ev(o) == [op |-> "slope", x |-> F, out |-> Arr(o)] IN
  /\ \A i \in 2..(L - 1) : RLe(RAbs(S[i]), RAbs(RSub(F[i], F[i - 1]))) /\ RLe(RAbs(S[i]), RAbs(RSub(F[i + 1], F[i])))   \* never the steeper one
  /\ S[1] = "0" /\ S[L] = "0"
  /\ Clauses(Start, ev(S)) = {} /\ \A i \in 1..L : Clauses(Start, ev(Bump(S, i, E(3)))) = {"C31.slope"}
\* ---- C28 ------------------------------------------------------------------------
V == X(x)
W == X(y)
n == Len(x)
Wide == mode = "pts" /\ n >= 2 /\ ~IsConst(V) /\ ~IsConst(W)
T == E(25)
Tot(D) == RSum(Tab(Len(D), LAMBDA a : RSum(D[a])))
HistLaws == Wide =>
  LET H == Hist2(V, W, Grid)  D == Bivariate(V, W, "1/10", "1/5", Grid)
      area == RMul(RSub(RMaxSeq(V), RMinSeq(V)), RSub(RMaxSeq(W), RMinSeq(W)))
      gx(a) == RAdd(RMinSeq(V), RDiv(RMul(RInt(a - 1), RSub(RMaxSeq(V), RMinSeq(V))), RInt(Grid - 1)))
      gy(a) == RAdd(RMinSeq(W), RDiv(RMul(RInt(a - 1), RSub(RMaxSeq(W), RMinSeq(W))), RInt(Grid - 1)))
      den == Tab(Grid, LAMBDA r : Tab(Grid, LAMBDA c : IF RSign(D[c][r]) <= 0 THEN E(12) ELSE D[c][r]))
      mx == Tab(Grid, LAMBDA r : Tab(Grid, LAMBDA c : gx(c)))
      my == Tab(Grid, LAMBDA r : Tab(Grid, LAMBDA c : gy(r)))
      ev(d, a, b) == [op |-> "bivar", x |-> V, y |-> W, hx |-> "1/10", hy |-> "1/5", grid |-> Grid, exact |-> TRUE,
                   out |-> [k |-> "grids", fin |-> TRUE, shapes |-> <<<<Grid, Grid>>, <<Grid, Grid>>, <<Grid, Grid>>>>,
                            mx |-> a, my |-> b, den |-> d]] IN
  /\ REq(Tot(H), "1")
  /\ \A a \in 1..Grid : \A b \in 1..Grid : Hist2(W, V, Grid)[b][a] = H[a][b]         \* exchanging the variables
  \* smoothing keeps the mass: mean density times area is one
  /\ Near(RDiv(RMul(Tot(D), area), RInt(Grid * Grid)), "1", T)
  /\ Hist2(Affine("3", "-7", V), W, Grid) = H
  /\ Clauses(Start, ev(den, mx, my)) = {}
  /\ "C28.density" \in Clauses(Start, ev([den EXCEPT ![1][2] = RAdd(@, E(3))], mx, my))
  /\ "C28.mesh" \in Clauses(Start, ev(den, my, mx)) \/ (mx = my)
SmoothLaws == mode = "pts" /\ n = 0 => \A h \in {"1/10", "1/2", "2"} :
  LET CB == CosBasis(Grid)  S == SmoothOp(Grid, h, CB) IN
  /\ \A a \in 1..Grid : Near(RSum(S[a]), "1", T)
  /\ \A a \in 1..Grid : \A b \in 1..Grid : Near(S[a][b], S[b][a], T) /\ Near(S[Grid + 1 - a][Grid + 1 - b], S[a][b], T)
\* ---- C12 ----------------------------------------------------------------------------
Spread2 == REq(Cov(V, W), "0") \/ ~REq(Sq(Cov(V, W)), RMul(Var(V), Var(W)))
KdeLaws == (Wide /\ n >= MinKde /\ Spread2 /\ ~REq(Sq(Cov(V, W)), RMul(Var(V), Var(W)))) =>
  LET P == KernelPair(V, W, 4) IN
  /\ Agree(P, KernelPair(RShift(V, "5"), RShift(W, "-3"), 4))           \* no preferred origin
  /\ Agree(Rev(P), KernelPair(Rev(V), Rev(W), 4))                         \* no preferred order
\* ---- C35: the landscape is accepted, a shifted or transposed one is not; it does not depend on the order of the points
DensLaws == (Wide /\ n >= MinKde /\ Spread2 /\ ~REq(Sq(Cov(V, W)), RMul(Var(V), Var(W)))) =>
  LET LS == Landscape(V, W, 4)
      ev(d) == [op |-> "kdens", u |-> V, w |-> W, grid |-> 4, pts |-> <<>>, out |-> [k |-> "grid", shape |-> <<4, 4>>, fin |-> TRUE, v |-> d]]
      Tr == Tab(4, LAMBDA a : Tab(4, LAMBDA b : LS.D[b][a]))
      top == RMaxSeq(Tab(4, LAMBDA a : RMaxSeq(LS.D[a])))
      L2 == Landscape(Rev(V), Rev(W), 4) IN
  ~LS.flat => /\ Clauses(Start, ev(LS.D)) = {}
              /\ \A a \in 1..4 : Clauses(Start, ev([LS.D EXCEPT ![a][2] = RAdd(@, RMul(top, E(4)))])) = {"C35.density"}
              /\ Clauses(Start, ev(Tr)) = {} => \A a \in 1..4 : \A b \in 1..4 : Near(Tr[a][b], LS.D[a][b], RMul(top, E(4)))
              /\ \A a \in 1..4 : \A b \in 1..4 : Near(L2.D[a][b], LS.D[a][b], RMul(top, E(10)))
HeightsQ == {0, 3, 8}
HeightsD == {0, 1, 3, 5, 8}
CoordsQ == {0, 1, 4}
CoordsD == {0, 1, 2, 4}
=============================================================================
