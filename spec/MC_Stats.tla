------------------------------- MODULE MC_Stats -------------------------------
(* Descriptive statistics, moments, turbulence quantities and normality tests     *)
(* (C14, C15, C19, C21) on every small collection, one item at a time.            *)
EXTENDS MCBase
CONSTANTS Samples, Others, MaxItems, MaxTwo, Sizes
VARIABLES mode, items, x, y, g     \* g: shape statistic for the normality tests, in quarters
vars == <<mode, items, x, y, g>>
Kind == {[k |-> "n", v |-> 2], [k |-> "n", v |-> -1], [k |-> "nan", v |-> 0], [k |-> "c", v |-> 3], [k |-> "s", v |-> 0]}
Init == /\ mode \in {"items", "two", "normal"} /\ items = <<>> /\ x = <<>> /\ y = <<>>
        /\ g \in (IF mode = "normal" THEN -8..8 ELSE {0})
Third(a, b) == [i \in 1..Len(a) |-> b[i] - a[i] + i]
Next == \/ /\ mode = "items" /\ Len(items) < MaxItems
           /\ \E k \in Kind : items' = Append(items, k) /\ UNCHANGED <<mode, x, y, g>>
                              /\ EmitCase([op |-> "items", items |-> items'])
        \/ /\ mode = "two" /\ Len(x) < MaxTwo
           /\ \E v \in Samples : \E w \in Others :
                /\ x' = Append(x, v) /\ y' = Append(y, w) /\ UNCHANGED <<mode, items, g>>
                /\ EmitCase([op |-> "tri", u |-> x', v |-> y', w |-> Third(x', y')])
                /\ EmitCase([op |-> "ser", x |-> x' \o y'])
Spec == Init /\ [][Next]_vars
V == X(x)
W == X(y)
Z == X(Third(x, y))
n == Len(x)
\* ---- C14 ----------------------------------------------------------------------
It == Tab(Len(items), LAMBDA i : [items[i] EXCEPT !.v = IF items[i].k \in {"n", "c"} THEN RInt(@) ELSE "nan"])
D(fn, o) == [op |-> "desc", fn |-> fn, items |-> It, nd |-> 1, cont |-> "list", out |-> o]
Nums == Vals([items |-> It], {"n"})
NumsC == Vals([items |-> It], {"n", "c"})
Has(k) == \E i \in 1..Len(items) : items[i].k = k
Pure == items # <<>> /\ ~Has("nan") /\ ~Has("c") /\ ~Has("s")
DescLaws == mode = "items" =>
  /\ Pure =>
       LET md == ModeOf(Nums) IN
       /\ RLe(RMinSeq(Nums), Median(Nums)) /\ RLe(Median(Nums), RMaxSeq(Nums))
       /\ RLe(RMinSeq(Nums), Mean(Nums)) /\ RLe(Mean(Nums), RMaxSeq(Nums))
       /\ md[4] = CountOf(Nums, md[3])
       /\ \A i \in 1..Len(Nums) : CountOf(Nums, Nums[i]) <= md[4] /\ (CountOf(Nums, Nums[i]) = md[4] => RLe(md[3], Nums[i]))
       \* the order of the items is irrelevant
       /\ Median(Rev(Nums)) = Median(Nums) /\ Mean(Rev(Nums)) = Mean(Nums) /\ ModeOf(Rev(Nums)) = md
       \* accepted and rejected answers
       /\ \A f \in {"min", "max", "median", "mean"} :
            LET v == CASE f = "min" -> RMinSeq(Nums) [] f = "max" -> RMaxSeq(Nums) [] f = "median" -> Median(Nums) [] f = "mean" -> Mean(Nums) IN
            /\ Clauses(Start, D(f, NumO(v))) = {}
            /\ Clauses(Start, D(f, NumO(RAdd(v, E(9))))) = {"C14.value"}
            /\ Clauses(Start, D(f, Exc("ValueError"))) # {}
            /\ Clauses(Start, D(f, NumO("nan"))) # {}
       /\ Clauses(Start, D("mode", TupO(<<NumO(md[3]), NumO(RInt(md[4]))>>))) = {}
       /\ Clauses(Start, D("mode", TupO(<<NumO(md[3]), NumO(RInt(md[4] + 1))>>))) # {}
       /\ \A i \in 1..Len(Nums) : ~REq(Nums[i], md[3]) =>
             Clauses(Start, D("mode", TupO(<<NumO(Nums[i]), NumO(RInt(md[4]))>>))) # {}
  /\ (~Has("nan") /\ NumsC # <<>>) => Clauses(Start, D("mean", NumO(Mean(NumsC)))) = {}       \* numeric strings count
  /\ (~Has("nan") /\ NumsC = <<>>) => /\ Clauses(Start, D("mean", [k |-> "str", v |-> "Invalid input."])) = {}
                                      /\ Clauses(Start, D("mean", NumO("0"))) # {}
  /\ \A f \in {"min", "max"} :
       /\ (items = <<>> => Clauses(Start, D(f, Exc("ValueError"))) = {} /\ Clauses(Start, D(f, NumO("0"))) # {})
       /\ ((Has("c") \/ Has("s")) /\ ~Has("nan")) => Clauses(Start, D(f, Exc("TypeError"))) = {} /\ Clauses(Start, D(f, Exc("ValueError"))) # {}
       /\ (Has("nan") /\ ~Has("c") /\ ~Has("s")) => Clauses(Start, D(f, Exc("ValueError"))) = {} /\ Clauses(Start, D(f, NumO("2"))) # {}
\* ---- C15, C19 -------------------------------------------------------------------
S(fn, o) == [op |-> "spread", fn |-> fn, items |-> Tab(n, LAMBDA i : [k |-> "n", v |-> V[i]]), nd |-> 1, out |-> o]
SpreadLaws == (mode = "two" /\ n > 0) =>
  LET v == Var(V)  flat == RSign(v) = 0 IN
  /\ RSign(v) >= 0 /\ (flat <=> IsConst(V))
  /\ REq(v, Moment(V, 2)) /\ REq(Moment(V, 1), "0")
  /\ REq(Var(Affine("-3", "5", V)), RMul("9", v))
  /\ Clauses(Start, S("var", NumO(v))) = {} /\ Clauses(Start, S("var", NumO(RAdd(v, E(6))))) # {}
  /\ Clauses(Start, S("std", NumO(Std(V)))) = {} /\ Clauses(Start, S("std", NumO(RAdd(Std(V), E(6))))) # {}
  /\ ~flat =>
       LET sk == Skew(V)  ku == Kurt(V)  T == E(25) IN
       /\ Near(Skew(Affine("2", "7", V)), sk, T) /\ Near(Skew(Affine("-1", "0", V)), RNeg(sk), T)
       /\ Near(Kurt(Affine("-2", "7", V)), ku, T)
       /\ RGe(RAdd(ku, T), RAdd("1", Sq(sk)))                         \* Pearson's inequality
       /\ Clauses(Start, S("skew", NumO(sk))) = {} /\ Clauses(Start, S("skew", NumO(RAdd(sk, E(4))))) # {}
       /\ Clauses(Start, S("kurt", NumO(ku))) = {} /\ Clauses(Start, S("kurt", NumO(RSub(ku, "3")))) # {}
TurbLaws == (mode = "two" /\ n > 0) =>
  LET R == Reynolds(V, W, Z)  k == TKE(V, W, Z)
      ev(o) == [op |-> "rey", u |-> V, v |-> W, w |-> Z, out |-> o]
      t6(v) == TupO(Tab(6, LAMBDA i : NumO(v[i]))) IN
  /\ REq(RMul("2", k), RAdd(R[1], RAdd(R[2], R[3])))
  /\ RSign(k) >= 0
  /\ RLe(Sq(R[4]), RMul(R[1], R[2])) /\ RLe(Sq(R[5]), RMul(R[1], R[3])) /\ RLe(Sq(R[6]), RMul(R[2], R[3]))   \* Cauchy-Schwarz
  /\ EqV(Reynolds(RShift(V, "9"), RShift(W, "-4"), Z), R)              \* mean flow carries no stress
  /\ REq(TKE(W, Z, V), k)
  /\ Clauses(Start, ev(t6(R))) = {}
  /\ \A i \in 1..6 : Clauses(Start, ev(t6(Bump(R, i, E(6))))) = {"C19.value"}
  /\ Clauses(Start, [op |-> "tke", u |-> V, v |-> W, w |-> Z, out |-> NumO(k)]) = {}
  /\ Clauses(Start, [op |-> "tke", u |-> V, v |-> W, w |-> Z, out |-> NumO(RAdd(k, E(6)))]) = {"C19.value"}
\* ---- C21 -----------------------------------------------------------------------------
Tn == E(20)
TestLaws == mode = "normal" => \A m \in Sizes :
  LET s == RFrac(g, 4)
      z == SkewZ(s, m)
      p(a) == PValue(z, a) IN
  /\ Near(SkewZ(RNeg(s), m), RNeg(z), Tn)
  /\ RSign(s) = RSign(RRound(z, 15))
  /\ RLt(SkewZ(RSub(s, "1/4"), m), z)
  /\ Near(RAdd(p("greater"), p("less")), "1", Tn)
  /\ Near(p("two-sided"), RMul("2", RMin2(p("greater"), p("less"))), Tn)
  /\ RSign(p("two-sided")) >= 0 /\ RLe(p("two-sided"), RAdd("1", Tn))
  /\ LET k == KurtZ(RAdd("3", s), m)  j == KurtZ(RAdd("3", RAdd(s, "1/4")), m)
         dk == KurtDen(RAdd("3", s), m).d  dj == KurtDen(RAdd("3", RAdd(s, "1/4")), m).d IN
     \* z rises with the kurtosis on either side of the pole; at the pole it wraps from +inf to -inf
     (k[1] = "ok" /\ j[1] = "ok") => (RLt(k[2], j[2]) = (RSign(dk) = RSign(dj)))
SizesQ == {8, 9, 20}
SizesD == 8..40
=============================================================================
