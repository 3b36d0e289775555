-------------------------------- MODULE MC_Loop --------------------------------
(* The detect-and-replace loop (C29) run by the specification itself on every       *)
(* small three-component record: detect, merge, replace, until nothing is flagged     *)
(* or the budget is spent.  Each pass is an event for the observer.                    *)
EXTENDS MCBase
CONSTANTS Samples, Size, Budget
VARIABLES det, rep, cur, tag, it, st, phase, bad
vars == <<det, rep, cur, tag, it, st, phase, bad>>
Bump3(v) == [i \in 1..Len(v) |-> v[i] + (IF i % 2 = 0 THEN 7 ELSE -7)]
Comps(s) == <<X(s), X(Rev(s)), X(Bump3(s))>>
StartEv(d, r, c) == [op |-> "l_start", det |-> d, raw |-> FALSE, rep |-> r, dec |-> 6, x |-> c]
Init == /\ det \in {"acc", "vc"} /\ rep \in {"linear", "mean", "last"}
        /\ \E s \in [1..Size -> Samples] :
             /\ cur = Comps(s)
             /\ (rep = "linear" /\ det = "acc" => EmitCase([op |-> "loop", x |-> <<s, Rev(s), Bump3(s)>>]))
        /\ tag = 1 /\ it = 0 /\ phase = "pass" /\ bad = {}
        /\ st = After(Start, StartEv(det, rep, cur))
D(t) == DetVerdicts(det, FALSE, cur, [tag |-> t])
Und(V) == \E k \in 1..3 : \E i \in 1..Size : V[k][i] = "U"
PassEv(t, V, F, after) == [op |-> "l_pass", tag |-> t, merged |-> Sorted({i - 1 : i \in F}),
                           flags |-> Tab(3, LAMBDA k : IArr(Sorted({i - 1 : i \in TrueAt(V[k])}))),
                           after |-> IF F = {} THEN <<>> ELSE Tab(3, LAMBDA k : Arr(after[k]))]
Repl(c, F) == IF rep = "linear" THEN Round(Linear(c, F), 6) ELSE ReplAt(rep, c, F)
Pass ==
  /\ phase = "pass" /\ it < Budget
  /\ LET t == 3 - tag
         V == D(t)
         F == TrueAt(V[1]) \cup TrueAt(V[2]) \cup TrueAt(V[3])
         nxt == Tab(3, LAMBDA k : Repl(cur[k], F))
         e == PassEv(t, V, F, nxt) IN
     /\ ~Und(V) /\ ~(rep = "last" /\ F = 1..Size)
     /\ tag' = t /\ it' = it + 1
     /\ cur' = (IF F = {} THEN cur ELSE nxt)
     /\ phase' = (IF F = {} THEN "clean" ELSE "pass")
     /\ bad' = Clauses(st, e) /\ st' = After(st, e)
  /\ UNCHANGED <<det, rep>>
Stop ==
  /\ phase = "clean" \/ (phase = "pass" /\ it = Budget)
  /\ LET e == [op |-> "l_stop", reason |-> IF phase = "clean" THEN "clean" ELSE "budget"] IN
     bad' = Clauses(st, e) /\ st' = After(st, e)
  /\ phase' = "stopped" /\ UNCHANGED <<det, rep, cur, tag, it>>
Next == Pass \/ Stop
Spec == Init /\ [][Next]_vars
\* the loop of the specification is accepted throughout
Accepted == bad = {}
\* samples never flagged keep their original value; the length is preserved
Untouched == \A k \in 1..3 : Len(cur[k]) = Size /\ \A i \in (1..Size) \ st.flagged : REq(cur[k][i], st.orig[k][i])
\* a clean stop means: the detector flags nothing in the final record
CleanStop == phase = "clean" => \A k \in 1..3 : TrueAt(D(tag)[k]) = {}
\* deviations of a single pass are noticed
Rejects ==
  (phase = "pass" /\ it < Budget /\ ~Und(D(3 - tag))) =>
  LET t == 3 - tag  V == D(t)
      F == TrueAt(V[1]) \cup TrueAt(V[2]) \cup TrueAt(V[3])
      nxt == Tab(3, LAMBDA k : Repl(cur[k], F))
      C(e) == Clauses(st, e) IN
  (rep = "last" /\ F = 1..Size) \/
  /\ F # {} =>
       /\ \A i \in (1..Size) \ (F \cup st.flagged) : "C29.untouched" \in C(PassEv(t, V, F, [nxt EXCEPT ![2][i] = RAdd(@, E(3))]))
       /\ \A i \in F : "C29.replaced" \in C(PassEv(t, V, F, [nxt EXCEPT ![3][i] = RAdd(@, E(3))]))
       /\ "C29.length" \in C(PassEv(t, V, F, [nxt EXCEPT ![1] = SubSeq(@, 1, Size - 1)]))
       /\ \A i \in F : {"C29.merge"} \cap C(PassEv(t, V, F \ {i}, nxt)) # {}
       /\ C([op |-> "l_stop", reason |-> "clean"]) = {"C29.stop"}
  /\ \A i \in 1..Size : ((\A k \in 1..3 : i \notin TrueAt(V[k])) /\ ~(rep = "last" /\ F \cup {i} = 1..Size)) =>
        "C29.flags.spurious" \in C(PassEv(t, [V EXCEPT ![1] = [@ EXCEPT ![i] = "T"]], F \cup {i}, nxt))
S3 == {0, 20, -40}
S4 == {0, 5, 20, -40}
=============================================================================
