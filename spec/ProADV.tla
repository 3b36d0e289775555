------------------------------- MODULE ProADV -------------------------------
(* The library as a state machine over sessions.  A session is a history of     *)
(* observed events; its state is what a caller may rely on between calls:       *)
(*   calls   - stateless calls, judged one by one by Api!Judge                   *)
(*   heap    - the caller's arrays and the results obtained so far (C02)         *)
(*   layout  - the same values handed over in different storage (C36)              *)
(*   conc    - calls that run at the same time (C37) or are cut short (C38)         *)
(*   loop    - the iterative detect-and-replace loop (C29)                       *)
(*   root    - a run of the bracketing root finder, one event per evaluation (C25)*)
(*   min     - a run of the bounded minimiser, one event per evaluation (C26)    *)
(* Clauses(s, e) is the set of clauses the event e violates in state s,          *)
(* After(s, e) the next state.  Both are total.                                   *)
EXTENDS Tools, Optim

Start == [mode |-> "calls"]

\* ---- heap sessions -----------------------------------------------------------
\* heap: sequence of <<name, token>> ; memo: sequence of <<key, token>>
Lookup(h, nm) == LET S == {i \in 1..Len(h) : h[i][1] = nm} IN
                 IF S = {} THEN -1 ELSE h[CHOOSE i \in S : TRUE][2]
HeapOf(s) == IF s.mode = "heap" THEN s.heap ELSE <<>>
MemoOf(s) == IF s.mode = "heap" THEN s.memo ELSE <<>>
Changed(h, obs, except) == {h[i][1] : i \in {j \in 1..Len(h) :
                              h[j][1] \notin except /\ Lookup(obs, h[j][1]) # h[j][2]}}
Key(h, e) == <<e.fn, [i \in 1..Len(e.args) |-> Lookup(h, e.args[i])], e.par>>
Globals == {"@settings", "@random"}
HeapClauses(s, e) ==
  LET h == HeapOf(s) IN
  CASE e.op = "h_new"   -> If(Changed(h, e.obs, {}) # {}, {"C02.isolation"})
    [] e.op = "h_write" -> If(Changed(h, e.obs, {e.names[i] : i \in 1..Len(e.names)}) # {}, {"C02.alias"})
    [] e.op = "h_call"  ->
         LET k == Key(h, e)
             prev == {i \in 1..Len(MemoOf(s)) : MemoOf(s)[i][1] = k} IN
         \* "@..." name what the process holds besides arrays; the noise generator draws random numbers
         If(Changed(h, e.obs, Globals) # {}, {"C02.argument"})
         \cup If(Changed(h, e.obs, IF e.fn = "noise" THEN {"@random"} ELSE {}) \cap Globals # {}, {"C02.process"})
         \cup If(\E i \in prev : MemoOf(s)[i][2] # e.res, {"C02.history"})
HeapAfter(s, e) ==
  LET h == HeapOf(s) IN
  [mode |-> "heap", heap |-> e.obs,
   memo |-> IF e.op = "h_call" THEN Append(MemoOf(s), <<Key(h, e), e.res>>) ELSE MemoOf(s)]

\* ---- storage sessions (C36) ---------------------------------------------------
\* memo: <<function, contents, parameters, result token>> ; the storage of the arguments is no part of the key
LayKey(e) == <<e.fn, e.args, e.par>>
LayClauses(s, e) ==
  IF e.op = "y_call" /\ \E i \in 1..Len(s.memo) : s.memo[i][1] = LayKey(e) /\ s.memo[i][2] # e.res THEN {"C36.layout"} ELSE {}
LayAfter(s, e) ==
  IF e.op = "y_new" THEN [mode |-> "layout", memo |-> <<>>]
  ELSE [s EXCEPT !.memo = Append(@, <<LayKey(e), e.res>>)]

\* ---- calls at the same time, calls cut short (C37, C38) --------------------------
\* heap: the arguments and what the process holds; memo: <<key, result token>> of every call made alone;
\* act: <<caller, key>> of the calls under way; kill: the session interrupts calls (C38)
ConcKey(e) == <<e.fn, e.args, e.par>>
ConcOf(s, c) == LET S == {i \in 1..Len(s.act) : s.act[i][1] = c} IN
                IF S = {} THEN <<>> ELSE s.act[CHOOSE i \in S : TRUE][2]
ConcClauses(s, e) ==
  IF e.op = "t_new" \/ s.mode # "conc" THEN {}
  ELSE
  LET P(c) == (IF s.kill THEN "C38." ELSE "C37.") \o c
      \* the noise generator draws random numbers
      moved == Changed(s.heap, e.obs, IF e.noise THEN {"@random"} ELSE {})
      wrong(k) == \E i \in 1..Len(s.memo) : s.memo[i][1] = k /\ s.memo[i][2] # e.res IN
  If(moved \ Globals # {}, {P("argument")}) \cup If(moved \cap Globals # {}, {P("process")})
  \cup CASE e.op = "t_alone" -> If(wrong(ConcKey(e)), {P("history")})
         [] e.op = "t_end"   -> If(ConcOf(s, e.c) # <<>> /\ wrong(ConcOf(s, e.c)), {P("result")})
         \* the interrupt is raised in the caller; an array the call was working on is as it was
         [] e.op = "t_kill"  -> If(~e.reached, {P("swallowed")})
         [] OTHER -> {}
ConcAfter(s, e) ==
  IF e.op = "t_new" \/ s.mode # "conc" THEN [mode |-> "conc", kill |-> e.op = "t_new" /\ e.kill, heap |-> e.obs, memo |-> <<>>, act |-> <<>>]
  ELSE
  CASE e.op = "t_alone" -> [s EXCEPT !.memo = Append(@, <<ConcKey(e), e.res>>)]
    [] e.op = "t_begin" -> [s EXCEPT !.act = Append(@, <<e.c, ConcKey(e)>>)]
    \* what a call answers among others must also be what it answers alone later on (cold caches)
    [] e.op = "t_end" -> [s EXCEPT !.memo = IF ConcOf(s, e.c) = <<>> THEN @ ELSE Append(@, <<ConcOf(s, e.c), e.res>>),
                                   !.act = SelectSeq(@, LAMBDA a : a[1] # e.c)]
    [] e.op = "t_kill" -> [s EXCEPT !.act = SelectSeq(@, LAMBDA a : a[1] # e.c)]
    [] OTHER -> s

\* ---- despiking loop -------------------------------------------------------------
DetVerdicts(det, raw, cur, e) ==
  LET c == Tab(3, LAMBDA k : Centred(cur[k])) IN
  CASE det = "acc" -> Tab(3, LAMBDA k : Accel(c[k], "100", IF e.tag = 1 THEN 1 ELSE -1, "980", "3/2", "1"))
    [] det = "pst" -> Tab(3, LAMBDA k :
                        IF IsConst(c[k]) THEN IF raw THEN AllU(Len(c[k])) ELSE AllF(Len(c[k]))
                        ELSE PhaseSpace(IF raw THEN cur[k] ELSE c[k]))
    [] det = "sph" -> Tab(3, LAMBDA k :
                        IF IsConst(cur[k]) THEN AllF(Len(c[k]))
                        ELSE IF SphericalDegenerate(cur[k]) THEN AllU(Len(c[k])) ELSE Spherical(cur[k]))
    [] det = "vc"  -> LET V == VelCorr(cur[1], cur[2], cur[3]) IN <<V, V, V>>
    [] OTHER       -> Tab(3, LAMBDA k : AllU(Len(cur[k])))
ReplAt(rep, x, F) ==
  CASE rep = "linear" -> Linear(x, F)
    [] rep = "mean"   -> FillWith(x, F, Mean(x))
    [] rep = "last"   -> LastValid(x, F)
LoopClauses(s, e) ==
  CASE e.op = "l_start" -> {}
    [] e.op = "l_pass" ->
         LET cur == s.cur  n == Len(cur[1])
             F == {e.merged[i] + 1 : i \in 1..Len(e.merged)}
             all == s.flagged \cup F
             V == DetVerdicts(s.det, s.raw, cur, e)
             rd == s.rep = "linear"
             V1 == Tab(3, LAMBDA k : Verdicts("C29.flags", e.flags[k], V[k]))
             U == UNION {{e.flags[k].v[i] : i \in 1..Len(e.flags[k].v)} : k \in {j \in 1..3 : e.flags[j].k = "arr"}}
         IN  V1[1] \cup V1[2] \cup V1[3]
             \cup If(\E k \in 1..3 : e.flags[k].k = "arr" /\ \E i \in 1..Len(e.flags[k].v) : e.flags[k].v[i] + 1 \notin F,
                     {"C29.merge"})
             \cup If(F # {} /\ Len(e.merged) # Cardinality(F), {"C29.merge"})
             \cup If(s.ended, {"C29.stop"})
             \cup (IF F = {} THEN {}
                   ELSE IF \E k \in 1..3 : Raised(e.after[k]) THEN {"C29.raises"}
                   ELSE IF \E k \in 1..3 : ~FinVec(e.after[k], n) THEN {"C29.length"}
                   ELSE UNION {LET a == e.after[k].v
                                   M == RMaxAbs(cur[k])
                                   W == ReplAt(s.rep, cur[k], F) IN
                               If(\E i \in (1..n) \ all :
                                     ~(IF rd THEN KeepOK("linear", s.dec, M, a[i], s.orig[k][i]) ELSE REq(a[i], s.orig[k][i])),
                                  {"C29.untouched"})
                               \cup If(\E i \in F : ~Near(a[i], W[i], RAdd(IF rd THEN HalfUlp(s.dec) ELSE "0", RMul(E(11), M))),
                                       {"C29.replaced"}) : k \in 1..3})
    [] e.op = "l_stop" -> If(e.reason = "clean" /\ s.last # {}, {"C29.stop"})
                          \cup If(e.reason = "budget" /\ s.last = {}, {"C29.stop"})
    [] OTHER -> {}
LoopAfter(s, e) ==
  CASE e.op = "l_start" -> [mode |-> "loop", det |-> e.det, raw |-> e.raw, rep |-> e.rep, dec |-> e.dec, orig |-> e.x, cur |-> e.x,
                            flagged |-> {}, last |-> {0}, ended |-> FALSE]
    [] e.op = "l_pass" ->
         LET F == {e.merged[i] + 1 : i \in 1..Len(e.merged)}  n == Len(s.cur[1]) IN
         [s EXCEPT !.flagged = @ \cup F, !.last = F, !.ended = (F = {}),
                   !.cur = IF F # {} /\ \A k \in 1..3 : FinVec(e.after[k], n)
                           THEN <<e.after[1].v, e.after[2].v, e.after[3].v>> ELSE @]
    [] OTHER -> s

\* ---- root finder -----------------------------------------------------------------
\* state: the evaluations made so far (those of the finder, then the probes of the harness)
EndRoot(s) == Len(s.log) >= 2 /\ (RSign(s.log[1][2]) = 0 \/ RSign(s.log[2][2]) = 0)
RootClauses(s, e) ==
  CASE e.op = "b_ret" ->
       (IF e.bad THEN MustRaise({"C25"}, e.out, "ValueError")
        ELSE
        LET o == e.out
            tol0(r) == RMul(RAdd(s.xtol, RMul(s.rtol, RAbs(r))), "1000001/1000000")
            rootOK(r) ==
              /\ Inside(r, s.lo, s.hi)
              /\ \/ CertRoot(s.log, r, tol0(r))
                 \/ \E i \in 1..Len(s.log) : RSign(s.log[i][2]) = 0 /\ REq(s.log[i][1], r)
                 \/ \E i \in 1..Len(s.log) : \E j \in 1..Len(s.log) :
                      /\ RSign(s.log[i][2]) * RSign(s.log[j][2]) <= 0 /\ i # j
                      /\ Near(s.log[i][1], r, tol0(r)) /\ Near(s.log[j][1], r, tol0(r))
                      /\ RLe(s.log[i][1], r) /\ RLe(r, s.log[j][1])
            endOK(r) == EndRoot(s) => \E i \in 1..2 : RSign(s.log[i][2]) = 0 /\ REq(s.log[i][1], r)
        IN
        IF e.full THEN
          IF Raised(o) THEN {"C25.raises"}
          ELSE IF o.k # "dict" THEN {"C25.full_output"}
          ELSE IF ~RIsFin(o.root) THEN {"C25.root"}
          ELSE If(o.calls # s.calls, {"C25.function_calls"})
               \cup If(o.iters < 0 \/ o.iters > s.maxiter \/ ~(o.iters \in {s.calls - 2, s.calls - 1}), {"C25.iterations"})
               \cup If(o.conv # (o.flag = "converged"), {"C25.flag"})
               \cup If(o.conv /\ ~(rootOK(o.root) /\ endOK(o.root)), {"C25.root"})
               \cup If(~o.conv /\ ~Inside(o.root, s.lo, s.hi), {"C25.root"})
               \cup If(~o.conv /\ (s.maxiter >= 500 \/ EndRoot(s)), {"C25.converges"})
        ELSE IF Raised(o) THEN
               (IF s.maxiter >= 500 \/ EndRoot(s) THEN {"C25.raises"}
                ELSE If(~RaisedT(o, "ValueError"), {"C25.raises"}))
        ELSE IF ~IsNum(o) THEN {"C25.kind"}
        ELSE If(~(rootOK(o.v) /\ endOK(o.v)), {"C25.root"}))
    [] OTHER -> {}
RootAfter(s, e) ==
  CASE e.op = "b_start" -> [mode |-> "root", lo |-> e.lo, hi |-> e.hi, xtol |-> e.xtol, rtol |-> e.rtol,
                            maxiter |-> e.maxiter, log |-> <<>>, calls |-> 0]
    [] e.op = "b_eval"  -> [s EXCEPT !.log = Append(@, <<e.x, e.f>>), !.calls = @ + 1]
    [] e.op = "b_probe" -> [s EXCEPT !.log = Append(@, <<e.x, e.f>>)]
    [] OTHER -> s

\* ---- minimiser -----------------------------------------------------------------------
MinClauses(s, e) ==
  CASE e.op = "m_eval" -> If(~Inside(e.x, s.lo, s.hi), {"C26.bounds"})
                          \cup If(s.calls + 1 > s.maxev, {"C26.budget"})
    [] e.op = "m_ret" ->
       (IF e.bad THEN MustRaise({"C26"}, e.out, "ValueError")
        ELSE
        LET o == e.out
            nums == SelectSeq(s.log, LAMBDA q : RIsFin(q[2]))
            best == RMinSeq([i \in 1..Len(nums) |-> nums[i][2]])
            \* a target that is not a number: nothing is below a first NaN
            lost == s.log # <<>> /\ (~RIsFin(s.log[1][2]) \/ nums = <<>>)
            nan == s.log # <<>> /\ (lost \/ ~RIsFin(s.log[Len(s.log)][2]))
            atBest(x) == \E i \in 1..Len(nums) : REq(nums[i][1], x) /\ REq(nums[i][2], best)
            xx == IF e.full /\ o.k = "tuple" THEN o.v[1] ELSE o
            done == IF e.full THEN o.k = "tuple" /\ Len(o.v) = 4 /\ IsNum(o.v[3]) /\ RSign(o.v[3].v) = 0
                    ELSE s.calls < s.maxev
        IN
        IF Raised(o) THEN {"C26.raises"}
        ELSE IF s.log = <<>> THEN {"C26.evaluated"}
        ELSE IF lost THEN (IF e.full THEN If(~(o.k = "tuple" /\ Len(o.v) = 4), {"C26.shape"})
                                          \cup If(o.k = "tuple" /\ Len(o.v) = 4 /\ ~(IsNum(o.v[3]) /\ REq(o.v[3].v, "2")), {"C26.flag"})
                                          \cup If(o.k = "tuple" /\ Len(o.v) = 4 /\ ~(IsNum(o.v[4]) /\ REq(o.v[4].v, RInt(s.calls))), {"C26.count"})
                           ELSE {})
        ELSE IF e.full /\ ~(o.k = "tuple" /\ Len(o.v) = 4 /\ \A i \in 1..4 : IsNum(o.v[i])) THEN {"C26.shape"}
        ELSE IF ~e.full /\ ~IsNum(o) THEN {"C26.shape"}
        ELSE If(~atBest(xx.v), {"C26.best"})
             \cup (IF e.full THEN
                     If(~REq(o.v[2].v, best), {"C26.value"})
                     \cup If(~REq(o.v[4].v, RInt(s.calls)), {"C26.count"})
                     \cup If(IF nan THEN ~REq(o.v[3].v, "2") ELSE ~(RSign(o.v[3].v) = 0 \/ REq(o.v[3].v, "1")), {"C26.flag"})
                     \cup If(REq(o.v[3].v, "1") /\ s.calls < s.maxev, {"C26.flag"})
                   ELSE {})
             \cup If(e.unimodal /\ done /\ ~Near(xx.v, e.xm, e.acc), {"C26.converges"})
             \cup If(e.unimodal /\ e.easy /\ ~done, {"C26.converges"}))
    [] OTHER -> {}
MinAfter(s, e) ==
  CASE e.op = "m_start" -> [mode |-> "min", lo |-> e.lo, hi |-> e.hi, maxev |-> e.maxev, log |-> <<>>, calls |-> 0]
    [] e.op = "m_eval"  -> [s EXCEPT !.log = Append(@, <<e.x, e.f>>), !.calls = @ + 1]
    [] OTHER -> s

\* ---- the machine ------------------------------------------------------------------------
LayOps  == {"y_new", "y_call"}
HeapOps == {"h_new", "h_write", "h_call"}
ConcOps == {"t_new", "t_alone", "t_begin", "t_switch", "t_end", "t_kill"}
LoopOps == {"l_start", "l_pass", "l_stop"}
RootOps == {"b_start", "b_eval", "b_probe", "b_ret"}
MinOps  == {"m_start", "m_eval", "m_ret"}
Clauses(s, e) ==
  CASE e.op \in HeapOps -> HeapClauses(s, e)
    [] e.op \in LayOps  -> LayClauses(s, e)
    [] e.op \in ConcOps -> ConcClauses(s, e)
    [] e.op \in LoopOps -> LoopClauses(s, e)
    [] e.op \in RootOps -> RootClauses(s, e)
    [] e.op \in MinOps  -> MinClauses(s, e)
    [] e.op \in ToolOps -> JudgeTool(e)
    [] OTHER -> Judge(e)
After(s, e) ==
  CASE e.op \in HeapOps -> HeapAfter(s, e)
    [] e.op \in LayOps  -> LayAfter(s, e)
    [] e.op \in ConcOps -> ConcAfter(s, e)
    [] e.op \in LoopOps -> LoopAfter(s, e)
    [] e.op \in RootOps -> RootAfter(s, e)
    [] e.op \in MinOps  -> MinAfter(s, e)
    [] OTHER -> s
=============================================================================
