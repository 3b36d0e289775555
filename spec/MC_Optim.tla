------------------------------- MODULE MC_Optim -------------------------------
(* The bracketing root finder and the bounded minimiser as non-deterministic       *)
(* machines (C25, C26): the target is a piecewise linear function on knots          *)
(* 0, 2, 4 (, 6); an implementation may evaluate any admissible point of the grid,   *)
(* in any order.  st is the observer state of ProADV after the events so far.         *)
EXTENDS MCBase
CONSTANTS Heights, Knots, Budget
VARIABLES kind, f, st, br, fin      \* br: the machine's own bracket <<a, b>> in grid units; fin: returned
vars == <<kind, f, st, br, fin>>
Top == 2 * (Knots - 1)
Val(t) == LET k == t \div 2 IN IF t % 2 = 0 THEN RInt(f[k + 1]) ELSE RFrac(f[k + 1] + f[k + 2], 2)
Sgn(t) == RSign(Val(t))
ev0(op) == IF op = "root" THEN [op |-> "b_start", lo |-> "0", hi |-> RInt(Top), xtol |-> "1", rtol |-> "0", maxiter |-> Budget]
           ELSE [op |-> "m_start", lo |-> "0", hi |-> RInt(Top), maxev |-> Budget]
Pts == Tab(Knots, LAMBDA k : [x |-> 2 * (k - 1), y |-> f[k]])
Init == /\ kind \in {"root", "min"} /\ f \in [1..Knots -> Heights]
        /\ (kind = "root" => RSign(RInt(f[1])) * RSign(RInt(f[Knots])) <= 0)
        /\ st = After(Start, ev0(kind)) /\ br = <<0, Top>> /\ fin = FALSE
        /\ EmitCase([op |-> kind, f |-> Pts, maxev |-> 6])
REval(t) == [op |-> "b_eval", x |-> RInt(t), f |-> Val(t)]
MEval(t) == [op |-> "m_eval", x |-> RInt(t), f |-> Val(t)]
\* ---- root finder: both ends first, then inside the bracket, keeping a sign change ----
RootEnds == /\ kind = "root" /\ ~fin /\ st.calls < 2
            /\ st' = After(st, REval(IF st.calls = 0 THEN 0 ELSE Top)) /\ UNCHANGED <<kind, f, br, fin>>
Settled == Sgn(br[1]) = 0 \/ Sgn(br[2]) = 0 \/ br[2] - br[1] <= 1
RootStep == /\ kind = "root" /\ ~fin /\ st.calls >= 2 /\ ~Settled /\ st.calls < Budget + 2
            /\ \E t \in (br[1] + 1)..(br[2] - 1) :
                 /\ st' = After(st, REval(t))
                 /\ br' = IF Sgn(t) = 0 THEN <<t, t>> ELSE IF Sgn(t) = Sgn(br[1]) THEN <<t, br[2]>> ELSE <<br[1], t>>
            /\ UNCHANGED <<kind, f, fin>>
RootDone == kind = "root" /\ ~fin /\ st.calls >= 2 /\ (Settled \/ st.calls >= Budget + 2)
\* ---- minimiser: any point of the interval ----------------------------------------------
MinStep == /\ kind = "min" /\ ~fin /\ st.calls < Budget
           /\ \E t \in 0..Top : st' = After(st, MEval(t))
           /\ UNCHANGED <<kind, f, br, fin>>
Return == (RootDone \/ (kind = "min" /\ ~fin /\ st.calls > 1)) /\ fin' = TRUE /\ UNCHANGED <<kind, f, st, br>>
Next == RootEnds \/ RootStep \/ MinStep \/ Return
Spec == Init /\ [][Next]_vars
\* ---- what may be returned ----------------------------------------------------------------
RRet(t, conv, calls, iters) ==
  [op |-> "b_ret", bad |-> FALSE, full |-> TRUE,
   out |-> [k |-> "dict", root |-> RInt(t), calls |-> calls, iters |-> iters, conv |-> conv,
            flag |-> IF conv THEN "converged" ELSE "convergence error"]]
RNumRet(o) == [op |-> "b_ret", bad |-> FALSE, full |-> FALSE, out |-> o]
Answers == IF Sgn(br[1]) = 0 THEN {br[1]} ELSE IF Sgn(br[2]) = 0 THEN {br[2]} ELSE {br[1], br[2]}
Zero(t) == Sgn(t) = 0
\* points with no evaluated evidence of a sign change within the tolerance
Bad(t) == /\ ~Zero(t)
          /\ \A i \in 1..Len(st.log) : \A j \in 1..Len(st.log) :
               RSign(st.log[i][2]) * RSign(st.log[j][2]) <= 0 =>
                 ~(Near(st.log[i][1], RInt(t), "1") /\ Near(st.log[j][1], RInt(t), "1"))
RootJudged == (kind = "root" /\ fin) =>
  LET c == st.calls IN
  IF Settled
  THEN /\ \A t \in Answers : /\ Clauses(st, RRet(t, TRUE, c, c - 2)) = {}
                             /\ Clauses(st, RNumRet(NumO(RInt(t)))) = {}
       /\ \A t \in 0..Top : Bad(t) => /\ "C25.root" \in Clauses(st, RRet(t, TRUE, c, c - 2))
                                      /\ "C25.root" \in Clauses(st, RNumRet(NumO(RInt(t))))
       /\ LET t == CHOOSE a \in Answers : TRUE IN
          /\ "C25.function_calls" \in Clauses(st, RRet(t, TRUE, c + 1, c - 2))
          /\ "C25.iterations" \in Clauses(st, RRet(t, TRUE, c, c + 1))
          /\ "C25.flag" \in Clauses(st, [RRet(t, TRUE, c, c - 2) EXCEPT !.out.flag = "convergence error"])
       /\ (Zero(0) \/ Zero(Top)) => "C25.converges" \in Clauses(st, RRet(0, FALSE, c, c - 2))
       /\ "C25.root" \in Clauses(st, RRet(Top + 1, TRUE, c, c - 2))
  ELSE /\ Clauses(st, RNumRet(Exc("ValueError"))) = {}               \* the budget ran out
       /\ Clauses(st, RRet(br[1], FALSE, c, c - 2)) = {}
\* the bracket always encloses a sign change, so the machine converges
Encloses == (kind = "root" /\ st.calls >= 2) => Sgn(br[1]) * Sgn(br[2]) <= 0 /\ br[1] >= 0 /\ br[2] <= Top
MRet(t, v, flag, num) == [op |-> "m_ret", bad |-> FALSE, full |-> TRUE, unimodal |-> FALSE, xm |-> "0", acc |-> "1", easy |-> FALSE,
                          out |-> TupO(<<NumO(RInt(t)), NumO(v), NumO(RInt(flag)), NumO(RInt(num))>>)]
MinJudged == (kind = "min" /\ fin) =>
  LET best == BestValue(st.log)
      seen == {t \in 0..Top : \E i \in 1..Len(st.log) : REq(st.log[i][1], RInt(t))}
      c == st.calls IN
  /\ \A t \in seen : IF REq(Val(t), best) THEN Clauses(st, MRet(t, best, 0, c)) = {}
                     ELSE "C26.best" \in Clauses(st, MRet(t, Val(t), 0, c))
  /\ \A t \in (0..Top) \ seen : "C26.best" \in Clauses(st, MRet(t, Val(t), 0, c))          \* never evaluated
  /\ LET t == CHOOSE a \in seen : REq(Val(a), best) IN
     /\ "C26.count" \in Clauses(st, MRet(t, best, 0, c - 1))
     /\ "C26.value" \in Clauses(st, MRet(t, RAdd(best, E(3)), 0, c))
     /\ (c < Budget <=> "C26.flag" \in Clauses(st, MRet(t, best, 1, c)))
     /\ "C26.flag" \in Clauses(st, MRet(t, best, 2, c))
     /\ LET n == After(st, [MEval(t) EXCEPT !.f = "nan"]) IN
        /\ Clauses(n, MRet(t, best, 2, c + 1)) = {} /\ "C26.flag" \in Clauses(n, MRet(t, best, 0, c + 1)) /\ "C26.flag" \in Clauses(n, MRet(t, best, 1, c + 1))
     /\ "C26.converges" \in Clauses(st, [MRet(t, best, 0, c) EXCEPT !.unimodal = TRUE, !.xm = RInt(t + 2)])
  /\ "C26.bounds" \in Clauses(st, [MEval(Top) EXCEPT !.x = RInt(Top + 1)]) /\ (c = Budget => "C26.budget" \in Clauses(st, MEval(1)))
Small == {-1, 0, 2}
More == {-3, -1, 0, 2}
=============================================================================
