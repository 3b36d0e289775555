-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers.  A rational is a string "n" or "n/d" (integers of   *)
(* any size), so that every IEEE double, and every exact result computed from  *)
(* doubles, is a value of the specification; plain TLC integers have 32 bits.   *)
(* TLC evaluates these operators with Rat.java (exact, BigInteger); the bodies  *)
(* below only fix the arity.  MC_Rat.tla checks the override against ordinary   *)
(* TLA+ integer arithmetic, the field and order axioms and the definitions of   *)
(* the derived operators.                                                       *)
EXTENDS Integers, Sequences

RFrac(n, d)   == CHOOSE r \in STRING : TRUE    \* n/d for TLC integers
RInt(n)       == CHOOSE r \in STRING : TRUE    \* the integer n as a rational
RAdd(a, b)    == CHOOSE r \in STRING : TRUE
RSub(a, b)    == CHOOSE r \in STRING : TRUE
RMul(a, b)    == CHOOSE r \in STRING : TRUE
RDiv(a, b)    == CHOOSE r \in STRING : TRUE
RNeg(a)       == CHOOSE r \in STRING : TRUE
RAbs(a)       == CHOOSE r \in STRING : TRUE
RSign(a)      == CHOOSE r \in -1..1 : TRUE
RLt(a, b)     == CHOOSE r \in BOOLEAN : TRUE
RLe(a, b)     == CHOOSE r \in BOOLEAN : TRUE
RGt(a, b)     == CHOOSE r \in BOOLEAN : TRUE
RGe(a, b)     == CHOOSE r \in BOOLEAN : TRUE
REq(a, b)     == CHOOSE r \in BOOLEAN : TRUE
RMax2(a, b)   == CHOOSE r \in STRING : TRUE
RMin2(a, b)   == CHOOSE r \in STRING : TRUE
RFloor(a)     == CHOOSE r \in STRING : TRUE    \* largest integer <= a
RToInt(a)     == CHOOSE r \in Int : TRUE       \* floor, as a TLC integer
RFitsInt(a)   == CHOOSE r \in BOOLEAN : TRUE
RNum(a)       == CHOOSE r \in STRING : TRUE    \* numerator of the reduced fraction
RDen(a)       == CHOOSE r \in STRING : TRUE
RLog2(a)      == CHOOSE r \in Int : TRUE       \* e with 2^e <= a < 2^(e+1)
RFix(a, k)    == CHOOSE r \in STRING : TRUE    \* floor to a multiple of 2^-k
RPow(a, k)    == CHOOSE r \in STRING : TRUE
RSqrt(a, k)   == CHOOSE r \in STRING : TRUE    \* sqrt, floored to a multiple of 2^-k
RRound(a, d)  == CHOOSE r \in STRING : TRUE    \* d decimals, ties to even
RFl(a)        == CHOOSE r \in STRING : TRUE    \* nearest IEEE double
RIsFin(a)     == CHOOSE r \in BOOLEAN : TRUE   \* FALSE for "nan", "inf", "-inf", "str"
RAllFin(s)    == CHOOSE r \in BOOLEAN : TRUE
RVec(s)       == s                             \* s in TLC's internal form (speed only)
RStr(a)       == a
RSum(s)       == CHOOSE r \in STRING : TRUE
RDot(s, t)    == CHOOSE r \in STRING : TRUE
RMaxSeq(s)    == CHOOSE r \in STRING : TRUE
RMinSeq(s)    == CHOOSE r \in STRING : TRUE
RMaxAbs(s)    == CHOOSE r \in STRING : TRUE
RSort(s)      == CHOOSE r \in Seq(STRING) : TRUE
RLin(a, s, b, t) == CHOOSE r \in Seq(STRING) : TRUE  \* a*s[i] + b*t[i]
RShift(s, c)  == CHOOSE r \in Seq(STRING) : TRUE     \* s[i] + c
RScale(c, s)  == CHOOSE r \in Seq(STRING) : TRUE     \* c * s[i]
RHad(s, t)    == CHOOSE r \in Seq(STRING) : TRUE     \* s[i] * t[i]
RFar(s, t, e) == CHOOSE r \in Seq(Int) : TRUE        \* indices with |s[i]-t[i]| > e
=============================================================================
