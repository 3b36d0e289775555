------------------------------- MODULE Trace -------------------------------
(* Checks recorded sessions (ndjson, one session per line: {"sid", "ev"})        *)
(* against ProADV: the state after each event is the one ProADV prescribes, and  *)
(* every violated clause is reported together with the session and the position. *)
EXTENDS ProADV, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, pos, st
vars == <<sid, pos, st>>

Init == sid \in 1..Len(Sessions) /\ pos = 0 /\ st = Start
Next ==
  /\ pos < Len(Sessions[sid].ev)
  /\ LET e == Sessions[sid].ev[pos + 1]
         bad == Clauses(st, e) IN
     /\ (bad # {} => PrintT(<<"VERDICT", sid, pos + 1, bad>>))
     /\ st' = After(st, e)
  /\ pos' = pos + 1
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
InRange == pos <= Len(Sessions[sid].ev)
=============================================================================
