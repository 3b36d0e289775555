------------------------------- MODULE MC_Conc -------------------------------
(* Calls under way at the same time (C37) and calls cut short (C38).  A call is      *)
(* three steps: take the argument, compute, hand back.  lib = "pure" is what is       *)
(* promised: all a call needs is its own.  The other libraries share something         *)
(* between calls, or leave something behind when they are cut short:                    *)
(*   scratch - one work array for all calls     torn    - a cache, key stored first      *)
(*   inplace - the argument is the work array, restored at the end                        *)
(*   setting - a process setting is changed and restored at the end                        *)
(*   busy    - a flag keeps a second call on a poorer path                                  *)
(*   swallow - an interrupt ends the call with an ordinary result                            *)
(* All of them are right when calls are made one after another and run to the end.            *)
EXTENDS MCBase
CONSTANTS Callers, MaxPre
VARIABLES lib, kill, arg, m, pc, loc, st, bad, due, acts, after
vars == <<lib, kill, arg, m, pc, loc, st, bad, due, acts, after>>
Faulty == {"scratch", "torn", "inplace", "setting", "busy", "swallow"}
Libs == {"pure"} \cup Faulty
F(x) == 10 * x
M0 == [args |-> <<3, 5>>, scratch |-> 0, key |-> 0, val |-> 0, busy |-> 0, glob |-> 0]
\* the memory and the local value after step k of a call on argument a
MemStep(l, mm, k, a, v) ==
  CASE l = "scratch" /\ k = 1 -> [mm EXCEPT !.scratch = mm.args[a]]
    [] l = "scratch" /\ k = 2 -> [mm EXCEPT !.scratch = F(@)]
    [] l = "torn"    /\ k = 1 -> [mm EXCEPT !.key = mm.args[a]]
    [] l = "torn"    /\ k = 2 -> [mm EXCEPT !.val = IF v[2] = 1 THEN @ ELSE F(v[1])]
    [] l = "inplace" /\ k = 1 -> [mm EXCEPT !.args[a] = F(@)]
    [] l = "inplace" /\ k = 3 -> [mm EXCEPT !.args[a] = @ \div 10]
    [] l = "setting" /\ k = 1 -> [mm EXCEPT !.glob = 1]
    [] l = "setting" /\ k = 3 -> [mm EXCEPT !.glob = 0]
    [] l = "busy"    /\ k = 1 -> [mm EXCEPT !.busy = 1]
    [] l = "busy"    /\ k = 3 -> [mm EXCEPT !.busy = 0]
    [] OTHER -> mm
\* a local value is <<number, mark>>
LocStep(l, mm, k, a, v) ==
  CASE k = 1 /\ l = "torn" /\ mm.key = mm.args[a] -> <<mm.val, 1>>
    [] k = 1 /\ l = "busy" /\ mm.busy = 1 -> <<0, 0>>
    [] k = 1 -> <<mm.args[a], 0>>
    [] k = 2 -> <<IF v[2] = 1 THEN v[1] ELSE F(v[1]), v[2]>>
    [] k = 3 /\ l = "scratch" -> <<mm.scratch, 0>>
    [] k = 3 /\ l = "inplace" -> <<mm.args[a], 0>>
    [] OTHER -> v
RECURSIVE AloneFrom(_, _, _, _, _)
AloneFrom(l, mm, k, a, v) == IF k > 3 THEN <<mm, v[1]>>
                             ELSE AloneFrom(l, MemStep(l, mm, k, a, v), k + 1, a, LocStep(l, mm, k, a, v))
Alone(l, mm, a) == AloneFrom(l, mm, 1, a, <<0, 0>>)
Obs(mm) == <<<<"@settings", mm.glob>>, <<"1", mm.args[1]>>, <<"2", mm.args[2]>>>>
Ev(op, c, a, mm, r) == [op |-> op, c |-> c, fn |-> "f", args |-> <<M0.args[a]>>, par |-> "", res |-> r, obs |-> Obs(mm), noise |-> FALSE]
New(k) == [op |-> "t_new", kill |-> k, obs |-> Obs(M0)]
Prepared(l, k) ==                                    \* both calls made alone first
  LET A == Alone(l, M0, 1)  B == Alone(l, A[1], 2) IN
  <<B[1], After(After(After(Start, New(k)), Ev("t_alone", 0, 1, A[1], A[2])), Ev("t_alone", 0, 2, B[1], B[2]))>>
Init == /\ lib \in Libs /\ kill \in BOOLEAN /\ arg \in [1..Callers -> 1..2]
        /\ m = Prepared(lib, kill)[1] /\ st = Prepared(lib, kill)[2]
        /\ pc = Tab(Callers, LAMBDA c : 0) /\ loc = Tab(Callers, LAMBDA c : <<0, 0>>) /\ bad = {} /\ due = FALSE /\ acts = <<>> /\ after = 0
Moved(mm) == mm.args # M0.args \/ mm.glob # 0
Observe(e, mm, w) == /\ bad' = bad \cup Clauses(st, e) /\ st' = After(st, e) /\ m' = mm
                     /\ due' = (due \/ Moved(mm) \/ w)
Pre(s) == Cardinality({i \in 2..Len(s) : s[i] # s[i - 1]})          \* context switches
Step(c) ==
  LET k == pc[c] + 1  a == arg[c]
      mm == MemStep(lib, m, k, a, loc[c])  v == LocStep(lib, m, k, a, loc[c]) IN
  /\ k <= 3 /\ after = 0
  /\ Pre(Append(acts, c)) <= MaxPre
  /\ (kill => \A d \in 1..Callers : d # c => pc[d] = 0)
  /\ LET b == Ev("t_begin", c, a, m, 0)
         s1 == IF k = 1 THEN After(st, b) ELSE st
         e == Ev(IF k = 3 THEN "t_end" ELSE "t_switch", c, a, mm, v[1]) IN
     /\ bad' = bad \cup (IF k = 1 THEN Clauses(st, b) ELSE {}) \cup Clauses(s1, e)
     /\ st' = After(s1, e) /\ m' = mm /\ due' = (due \/ Moved(mm) \/ (k = 3 /\ v[1] # F(M0.args[a])))
  /\ pc' = [pc EXCEPT ![c] = k] /\ loc' = [loc EXCEPT ![c] = v] /\ acts' = Append(acts, c)
  /\ UNCHANGED <<lib, kill, arg, after>>
Kill(c) ==
  LET e == [op |-> "t_kill", c |-> c, obs |-> Obs(m), reached |-> lib # "swallow", noise |-> FALSE] IN
  /\ kill /\ after = 0 /\ pc[c] \in 1..2 /\ after' = 1
  /\ Observe(e, m, lib = "swallow") /\ UNCHANGED <<lib, kill, arg, pc, loc, acts>>
Again(a) ==
  LET A == Alone(lib, m, a) IN
  /\ after \in 1..2 /\ after' = after + 1
  /\ Observe(Ev("t_alone", 0, a, A[1], A[2]), A[1], A[2] # F(M0.args[a]))
  /\ UNCHANGED <<lib, kill, arg, pc, loc, acts>>
Done == \A c \in 1..Callers : pc[c] = 3
Next == /\ \/ \E c \in 1..Callers : Step(c)
           \/ \E c \in 1..Callers : Kill(c)
           \/ \E a \in 1..2 : Again(a)
        /\ (lib = "pure" /\ ~kill /\ \A c \in 1..Callers : pc'[c] = 3) => EmitCase([op |-> "conc", acts |-> acts', same |-> (arg[1] = arg[2])])
Spec == Init /\ [][Next]_vars
Quiet == lib = "pure" => bad = {}
\* whatever a caller could notice is reported, and nothing else
Exposed == due <=> bad # {}
Named == bad \subseteq (IF kill THEN {"C38.argument", "C38.process", "C38.history", "C38.swallowed", "C38.result"}
                        ELSE {"C37.argument", "C37.process", "C37.history", "C37.result"})
\* one preemption is enough: each library that shares something is exposed when another call
\* runs from start to end after the first or the second step of a call
OnePre(l, a, b, k) ==
  LET P == Prepared(l, FALSE)
      RECURSIVE go(_, _, _, _)
      go(mm, i, v, to) == IF i > to THEN <<mm, v>> ELSE go(MemStep(l, mm, i, a, v), i + 1, LocStep(l, mm, i, a, v), to)
      x == go(P[1], 1, <<0, 0>>, k)
      y == Alone(l, x[1], b)
      z == go(y[1], k + 1, x[2], 3)
      s1 == After(After(P[2], Ev("t_begin", 1, a, P[1], 0)), Ev("t_begin", 2, b, x[1], 0))
      e2 == Ev("t_end", 2, b, y[1], y[2])  e1 == Ev("t_end", 1, a, z[1], z[2][1])
      e0 == Ev("t_switch", 1, a, x[1], 0) IN
  Clauses(s1, e0) \cup Clauses(s1, e2) \cup Clauses(After(s1, e2), e1)
ASSUME \A l \in Faulty \ {"swallow"} : \E a \in 1..2 : \E b \in 1..2 : \E k \in 1..2 : OnePre(l, a, b, k) # {}
ASSUME \A a \in 1..2 : \A b \in 1..2 : \A k \in 1..2 : OnePre("pure", a, b, k) = {}
=============================================================================
