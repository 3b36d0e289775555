------------------------------- MODULE MCBase -------------------------------
(* Common ground of the small-scope models: integer inputs, the cases they     *)
(* emit for the replay into the real code, and reference observations (what a   *)
(* correct implementation would return) used to show that the specification     *)
(* accepts right results and rejects wrong ones.                                 *)
EXTENDS ProADV, Json, IOUtils

EmitCase(r) == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("CASE " \o ToJson(r)) ELSE TRUE
X(s)      == Tab(Len(s), LAMBDA i : RInt(s[i]))
Arr(v)    == [k |-> "arr", nd |-> 1, shape |-> <<Len(v)>>, kind |-> "f", v |-> v]
IArr(v)   == [k |-> "arr", nd |-> 1, shape |-> <<Len(v)>>, kind |-> "i", v |-> v]
NumO(v)   == [k |-> "num", v |-> v]
TupO(v)   == [k |-> "tuple", v |-> v]
Exc(t)    == [k |-> "exc", t |-> t, isa |-> <<t, "Exception">>, msg |-> ""]
EqV(a, b) == Len(a) = Len(b) /\ RFar(a, b, "0") = <<>>
Rev(s)    == Tab(Len(s), LAMBDA i : s[Len(s) + 1 - i])
Round(v, d) == Tab(Len(v), LAMBDA i : RRound(v[i], d))
Bump(v, i, by) == [v EXCEPT ![i] = RAdd(@, by)]
Affine(a, b, v) == RShift(RScale(a, v), b)
\* two verdict sequences that do not contradict each other
Agree(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : {a[i], b[i]} # {"T", "F"}
Decided(a) == \A i \in 1..Len(a) : a[i] # "U"
TrueAt(a) == {i \in 1..Len(a) : a[i] = "T"}
NoSkip(S) == {c \in S : c \notin {"skip:undecided", "skip:degenerate", "skip:undefined", "skip:nan", "skip:domain",
                                 "skip:symmetric", "skip:mobility", "skip:witness", "skip:tiny mean", "skip:cell edge"}}
\* value sets for the configurations (which cannot hold negative numbers)
V3 == {-1, 0, 4}
V4 == {-3, 0, 1, 7}
V2 == {-2, 3}
B2v == {-1, 1}
B3v == {-1, 0, 1}
=============================================================================
