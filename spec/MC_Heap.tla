-------------------------------- MODULE MC_Heap --------------------------------
(* Histories of calls and writes over the caller's arrays (C02).  The library is    *)
(* modelled as a memory of cells: caller arrays and results name cells, a cell holds *)
(* a content.  lib = "pure" is what is promised; the other values are faulty          *)
(* libraries, which the observer must expose as soon as the fault shows.               *)
EXTENDS MCBase
CONSTANTS Arrays, Fns, MaxLen
VARIABLES lib, mem, res, st, bad, due, acts, ncall
\* mem: content of every cell; res: <<result name, cell>> held by the caller; st: observer state;
\* bad: clauses so far; due: a fault has become visible; acts: the history
vars == <<lib, mem, res, st, bad, due, acts, ncall>>
Libs == {"pure", "mutates", "aliases", "caches", "stateful", "clobbers", "global"}
\* contents are integers; caller array i lives in cell i, results in cells Arrays+1, ...
\* "@settings": what the process holds besides arrays (numpy error handling, random state)
Obs(m, r, g) == <<<<"@settings", g>>>> \o Tab(Arrays, LAMBDA i : <<ToString(i), m[i]>>) \o Tab(Len(r), LAMBDA k : <<r[k][1], m[r[k][2]]>>)
New(m, r) == [op |-> "h_new", obs |-> Obs(m, r, 0)]
Init == /\ lib \in Libs /\ mem = Tab(Arrays, LAMBDA i : i) /\ res = <<>>
        /\ st = After(Start, New(mem, res)) /\ bad = {} /\ due = FALSE /\ acts = <<>> /\ ncall = 0
Content(f, c) == 100 * f + c                                  \* what function f makes of content c
Call(f, a) ==
  LET c == mem[a]
      same == {k \in 1..Len(res) : res[k][3] = <<f, c>>}
      \* a cached result object is handed out again
      cell == CASE lib = "aliases" -> a
                [] lib = "caches" /\ same # {} -> res[CHOOSE k \in same : TRUE][2]
                [] OTHER -> Len(mem) + 1
      val  == IF lib = "stateful" THEN Content(f, c) + ncall ELSE Content(f, c)
      m1 == IF cell > Len(mem) THEN Append(mem, val) ELSE mem
      m2 == CASE lib = "mutates" -> [m1 EXCEPT ![a] = @ + 1]
              [] lib = "clobbers" /\ res # <<>> -> [m1 EXCEPT ![res[1][2]] = @ + 1]
              [] OTHER -> m1
      r2 == Append(res, <<"r" \o ToString(Len(res)), cell, <<f, c>>>>)
      \* the aliasing library returns the argument itself: its content is the answer
      e == [op |-> "h_call", fn |-> ToString(f), args |-> <<ToString(a)>>, par |-> "", res |-> m1[cell], obs |-> Obs(m2, r2, IF lib = "global" THEN ncall + 1 ELSE 0)]
      again == \E k \in 1..Len(res) : res[k][3] = <<f, c>>
  IN  /\ mem' = m2 /\ res' = r2 /\ ncall' = ncall + 1 /\ UNCHANGED lib
      /\ bad' = bad \cup Clauses(st, e) /\ st' = After(st, e)
      /\ due' = (due \/ lib \in {"mutates", "global"} \/ (lib = "clobbers" /\ res # <<>>) \/ (lib = "stateful" /\ again)
                     \/ (lib = "caches" /\ again /\ m1[cell] # Content(f, c)))
      /\ acts' = Append(acts, [a |-> "call", f |-> f, x |-> a])
Fresh == 1000 + 10 * Len(acts)
WriteArg(a) ==
  LET m2 == [mem EXCEPT ![a] = Fresh]
      e == [op |-> "h_write", names |-> <<ToString(a)>>, obs |-> Obs(m2, res, IF lib = "global" THEN ncall ELSE 0)] IN
  /\ mem' = m2 /\ bad' = bad \cup Clauses(st, e) /\ st' = After(st, e) /\ UNCHANGED <<lib, res, ncall>>
  /\ due' = (due \/ (lib = "aliases" /\ \E k \in 1..Len(res) : res[k][2] = a))
  /\ acts' = Append(acts, [a |-> "wa", f |-> 0, x |-> a])
WriteRes(k) ==
  LET m2 == [mem EXCEPT ![res[k][2]] = Fresh]
      e == [op |-> "h_write", names |-> <<res[k][1]>>, obs |-> Obs(m2, res, IF lib = "global" THEN ncall ELSE 0)] IN
  /\ mem' = m2 /\ bad' = bad \cup Clauses(st, e) /\ st' = After(st, e) /\ UNCHANGED <<lib, res, ncall>>
  /\ due' = (due \/ lib = "aliases" \/ (lib = "caches" /\ \E j \in 1..Len(res) : j # k /\ res[j][2] = res[k][2]))
  /\ acts' = Append(acts, [a |-> "wr", f |-> 0, x |-> k])
Next == /\ Len(acts) < MaxLen
        /\ \/ \E f \in 1..Fns : \E a \in 1..Arrays : Call(f, a)
           \/ \E a \in 1..Arrays : WriteArg(a)
           \/ \E k \in 1..Len(res) : WriteRes(k)
        /\ (lib = "pure" /\ Len(acts') = MaxLen /\ acts'[1].a = "call") => EmitCase([op |-> "heap", acts |-> acts'])
Spec == Init /\ [][Next]_vars
Quiet == lib = "pure" => bad = {}
Exposed == due => bad # {}
\* only C02 clauses are ever raised
Named == bad \subseteq {"C02.isolation", "C02.alias", "C02.argument", "C02.history", "C02.process"}
=============================================================================
