-------------------------------- MODULE MC_SSA --------------------------------
(* Singular spectrum smoothing (C18): projection of the lagged vectors on an       *)
(* orthonormal family followed by anti-diagonal averaging, fed sample by sample.    *)
EXTENDS MCBase
CONSTANTS Samples, MaxN
VARIABLE x
Init == x = <<>>
Next == Len(x) < MaxN /\ \E v \in Samples : x' = Append(x, v) /\ (Len(x') > 2 => EmitCase([op |-> "ser", x |-> x']))
Spec == Init /\ [][Next]_x
n == Len(x)
V == X(x)
\* orthonormal families (rational)
Rot2 == <<<<"3/5", "4/5">>, <<"-4/5", "3/5">>>>
Rot3 == <<<<"2/3", "1/3", "2/3">>, <<"1/3", "2/3", "-2/3">>, <<"-2/3", "2/3", "1/3">>>>
Id(L) == Tab(L, LAMBDA a : Tab(L, LAMBDA b : IF a = b THEN "1" ELSE "0"))
Families == {Rot2, Rot3, Id(2), Id(3)}
Plus(a, b) == RLin("1", a, "1", b)
Basis == n > 3 => \A B \in Families :
  LET L == Len(B) IN
  /\ EqV(Reconstruct(V, L, B), V)                                       \* nothing dropped, nothing changed
  /\ EqV(Plus(Reconstruct(V, L, <<B[1]>>), Reconstruct(V, L, Tail(B))), V)   \* what is dropped and what is kept add up
  /\ EqV(Reconstruct(Affine("-2", "0", V), L, <<B[1]>>), RScale("-2", Reconstruct(V, L, <<B[1]>>)))
  /\ EqV(Reconstruct(V, L, <<RScale("-1", B[1])>>), Reconstruct(V, L, <<B[1]>>))   \* the sign of a vector is irrelevant
  /\ LET C == LagCov(V, L) IN
     /\ \A a \in 1..L : \A b \in 1..L : C[a][b] = C[b][a]
     /\ \A a \in 1..L : RSign(C[a][a]) >= 0
\* closed form for two lags: |first| = |last| makes (1, 1) and (1, -1) the eigenvectors
H == Sqrt("1/2")
E2 == <<<<H, H>>, <<H, RNeg(H)>>>>
Pair(k) == RMul(Half, RAdd(V[k], V[k + 1]))
Closed == Tab(n, LAMBDA t : IF t = 1 THEN Pair(1) ELSE IF t = n THEN Pair(n - 1) ELSE RMul(Half, RAdd(Pair(t - 1), Pair(t))))
Ev(o) == [op |-> "ssa", x |-> V, L |-> 2, fs |-> "3/2", f |-> "1", E |-> E2, out |-> o]
Judged ==
  (n > 2 /\ REq(RAbs(V[1]), RAbs(V[n]))) =>
  LET R == Round(Closed, 4)  c == Clauses(Start, Ev(Arr(R))) IN
  /\ RFar(Reconstruct(V, 2, <<E2[1]>>), Closed, E(30)) = <<>>
  /\ \/ c = {"skip:mobility"}
     \/ /\ c = {}
        /\ \A i \in 1..n : "C18.value" \in Clauses(Start, Ev(Arr(Bump(R, i, "2/10000"))))
        /\ "C18.shape" \in Clauses(Start, Ev(Arr(SubSeq(R, 1, n - 1))))
        /\ "C18.raises" \in Clauses(Start, Ev(Exc("ValueError")))
     \/ c = {} /\ RSign(RDot(V, V)) = 0
  \* a witness that is no eigenbasis decides nothing
  /\ (n > 2 /\ RSign(RDot(V, V)) > 0) => Clauses(Start, [Ev(Arr(R)) EXCEPT !.E = <<E2[1], E2[1]>>]) = {"skip:witness"}
ASSUME RLe(Mobility2(<<"1", "1", "1">>), "0") /\ RLt(Mobility2(<<"1", "2", "3">>), Mobility2(<<"1", "-1", "1">>))
=============================================================================
