------------------------------- MODULE MC_Layout -------------------------------
(* Calls on the same values held in different storage (C36).  "honest" libraries     *)
(* answer from the values alone; the faulty ones look at the storage of one layout,    *)
(* for one function only, or only from the second call on.                              *)
EXTENDS MCBase
CONSTANTS Fns, Contents, Layouts, MaxLen
VARIABLES lib, st, bad, acts
vars == <<lib, st, bad, acts>>
Libs == {<<"honest", 0, 0>>} \cup ({"layout", "late"} \X (1..Layouts) \X (1..Fns))
Init == lib \in Libs /\ st = After(Start, [op |-> "y_new"]) /\ bad = {} /\ acts = <<>>
Answer(f, x, l) ==
  10 * f + x + (IF lib[1] = "honest" THEN 0
                ELSE IF lib[1] = "layout" THEN (IF l = lib[2] /\ f = lib[3] THEN 5 ELSE 0)
                ELSE IF l = lib[2] /\ f = lib[3] /\ Len(acts) > 0 THEN 5 ELSE 0)
Call(f, x, l) ==
  LET e == [op |-> "y_call", fn |-> ToString(f), args |-> <<x>>, par |-> "", lay |-> <<ToString(l)>>, res |-> Answer(f, x, l), exc |-> ""] IN
  /\ bad' = bad \cup Clauses(st, e) /\ st' = After(st, e) /\ UNCHANGED lib
  /\ acts' = Append(acts, [f |-> f, x |-> x, l |-> l, r |-> Answer(f, x, l)])
Next == /\ Len(acts) < MaxLen
        /\ \E f \in 1..Fns : \E x \in 1..Contents : \E l \in 1..Layouts : Call(f, x, l)
        /\ (lib[1] = "honest" /\ Len(acts') = MaxLen) => EmitCase([op |-> "layout", acts |-> acts'])
Spec == Init /\ [][Next]_vars
Quiet == lib[1] = "honest" => bad = {}
\* a difference that has shown itself is reported, and nothing else is
Exposed == (\E i \in 1..Len(acts) : \E j \in 1..Len(acts) : acts[i].f = acts[j].f /\ acts[i].x = acts[j].x /\ acts[i].r # acts[j].r)
           <=> bad = {"C36.layout"}
=============================================================================
