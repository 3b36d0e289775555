----------------------------- MODULE MC_Replace -----------------------------
(* All records up to MaxN samples over Samples with every set of flagged samples:  *)
(* a sample is recorded, flagged or not, one after the other.                    *)
EXTENDS MCBase
CONSTANTS Samples, MaxN
VARIABLES x, f
vars == <<x, f>>
Flag == {i \in 1..Len(x) : f[i]}
Idx(g) == Sorted({i - 1 : i \in {j \in 1..Len(g) : g[j]}})
Dec(a, g) == (Len(a) + Len(Idx(g))) % 4
Init == x = <<>> /\ f = <<>>
Record(v, b) == x' = Append(x, v) /\ f' = Append(f, b)
Next == /\ Len(x) < MaxN
        /\ \E v \in Samples : \E b \in BOOLEAN :
             /\ Record(v, b)
             /\ EmitCase([op |-> "rep", x |-> x', idx |-> Idx(f'), dec |-> Dec(x', f')])
Spec == Init /\ [][Next]_vars

V == X(x)
n == Len(x)
L == Linear(V, Flag)
ASSUME Samples \subseteq Int
\* C03
Interpolates ==
  n > 0 =>
  /\ \A i \in (1..n) \ Flag : L[i] = V[i]
  /\ \A i \in Flag :
       LET a == PrevGood(Flag, i)  b == NextGood(Flag, i, n) IN
       IF a = 0 \/ b = 0 THEN L[i] = Mean(V)
       ELSE /\ RLe(RMin2(V[a], V[b]), L[i]) /\ RLe(L[i], RMax2(V[a], V[b]))
            \* equally spaced between the two neighbours
            /\ REq(RSub(L[i], L[i - 1]), RSub(L[i + 1], L[i]))
LinearLaws ==
  n > 0 =>
  /\ EqV(Linear(Affine("2", "3", V), Flag), Affine("2", "3", L))
  /\ EqV(Rev(Linear(Rev(V), {n + 1 - i : i \in Flag})), L)
  /\ ((1 \notin Flag /\ n \notin Flag) => EqV(Linear(L, Flag), L))     \* nothing changes a second time
\* C04
LastLaws ==
  (n > 0 /\ Flag # 1..n) =>
  LET y == LastValid(V, Flag) IN
  /\ \A i \in 1..n : \E j \in (1..n) \ Flag : y[i] = V[j]
  /\ \A i \in Flag : i > 1 /\ (1..(i-1)) \ Flag # {} => y[i] = y[i - 1]
  /\ EqV(LastValid(y, Flag), y)
FillLaws ==
  n > 0 =>
  LET m == Mean(V)  d == Median(V) IN
  /\ RLe(RMinSeq(V), m) /\ RLe(m, RMaxSeq(V)) /\ RLe(RMinSeq(V), d) /\ RLe(d, RMaxSeq(V))
  /\ 2 * Cardinality({i \in 1..n : RLt(V[i], d)}) <= n /\ 2 * Cardinality({i \in 1..n : RGt(V[i], d)}) <= n
  /\ EqV(Scatter(V, Flag, Const(n, m)), FillWith(V, Flag, m))
\* the judge accepts the reference and rejects a changed sample, flagged or not (C01, C03, C04)
Ev(m, out, d) == [op |-> "rep", m |-> m, x |-> V, idx |-> Idx(f), dec |-> d, win |-> 100, deg |-> 2, per |-> 20, nan |-> <<>>,
                  alias |-> FALSE, form |-> "arr", out |-> out, sm |-> [k |-> "none"]]
Ref(m) == CASE m = "linear" -> L [] m = "last" -> LastValid(V, Flag)
            [] m = "mean" -> FillWith(V, Flag, Mean(V)) [] m = "median" -> FillWith(V, Flag, Median(V))
Judged ==
  n > 0 =>
  \A m \in {"linear", "last", "mean", "median"} :
    (m = "last" /\ Flag = 1..n) \/
    LET d == Dec(x, f)
        r == IF m = "linear" THEN Round(Ref(m), d) ELSE Ref(m)
        u == Pow10(-d) IN
    /\ Clauses(Start, Ev(m, Arr(r), d)) = {}
    /\ \A i \in 1..n :
         LET c == Clauses(Start, Ev(m, Arr(Bump(r, i, IF m = "linear" THEN RMul("2", u) ELSE E(6))), d)) IN
         IF i \in Flag THEN (RepProp(m) \o ".value") \in c ELSE "C01.unflagged" \in c
    /\ Clauses(Start, Ev(m, Exc("ValueError"), d)) # {}
    /\ (n > 1 => "C01.shape" \in Clauses(Start, Ev(m, Arr(SubSeq(r, 1, n - 1)), d)))
    /\ "C01.new_series" \in Clauses(Start, [Ev(m, Arr(r), d) EXCEPT !.alias = TRUE])
    /\ "C01.finite" \in Clauses(Start, Ev(m, Arr([r EXCEPT ![1] = "nan"]), d))
=============================================================================
