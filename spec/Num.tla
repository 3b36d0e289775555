-------------------------------- MODULE Num --------------------------------
(* Sequences of rationals, tolerances and three-valued comparisons.            *)
EXTENDS Rat, TLC, SequencesExt, FiniteSets

Tab(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])      \* eager tabulation
Upto(n)       == TLCEval([i \in 1..n |-> i])
Const(n, c)   == Tab(n, LAMBDA i : c)
Pow10(d)      == RPow("10", d)
Half          == "1/2"
Sq(a)         == RMul(a, a)
RLinS(a, b, k) == RAdd(a, RMul(b, k))                 \* a + b*k
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
SeqSet(s)     == {s[i] : i \in 1..Len(s)}
Slice(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
MaxI(a, b)    == IF a >= b THEN a ELSE b
MinI(a, b)    == IF a <= b THEN a ELSE b
AbsI(a)       == IF a < 0 THEN -a ELSE a
IdxSet(n)     == 1..n

\* strictly increasing sequence of integers
StrictInc(s)  == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

\* elements of the integer set S in increasing order
Sorted(S)     == SetToSortSeq(S, <)

\* distance of a*10^d from the nearest rounding tie (k + 1/2)
TieDist(a, d) == LET y == RMul(RAbs(a), Pow10(d))
                     f == RSub(y, RFloor(y))
                 IN  RAbs(RSub(f, Half))
\* is a (the exact value of a double) a multiple of 10^-d up to representation?
IsRounded(a, d) == Near(a, RRound(a, d), RAdd(RMul(RAbs(a), "1/1000000000000"), "0"))

\* three-valued truth: "T", "F", "U" (too close to call for floating point)
Gt3(a, b, tol) == IF RGt(a, RAdd(b, tol)) THEN "T"
                  ELSE IF RLt(a, RSub(b, tol)) THEN "F"
                  ELSE IF tol = "0" THEN "F" ELSE "U"
And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "U"
Or3(a, b)  == IF a = "T" \/ b = "T" THEN "T" ELSE IF a = "F" /\ b = "F" THEN "F" ELSE "U"
Not3(a)    == IF a = "T" THEN "F" ELSE IF a = "F" THEN "T" ELSE "U"
B3(a)      == IF a THEN "T" ELSE "F"
=============================================================================
