----------------------------- MODULE MC_Transc -----------------------------
(* The series against functional equations and published constants.            *)
EXTENDS Transc
VARIABLES x, y
T == RPow("10", -25)
Xs == {"-7/2", "-1", "-1/3", "0", "1/10", "1/2", "1", "7/5", "3", "5", "13/2"}
Init == x \in Xs /\ y \in Xs
Next == UNCHANGED <<x, y>>
NearT(a, b) == Near(a, b, RMul(T, RAdd("1", RMax2(RAbs(a), RAbs(b)))))
Consts ==
  /\ Near(Pi, "31415926535897932384626433832795028841971/10000000000000000000000000000000000000000", RPow("10", -39))
  /\ Near(Ln2, "69314718055994530941723212145818/100000000000000000000000000000000", RPow("10", -31))
  /\ Near(Exp("1"), "271828182845904523536028747135266/100000000000000000000000000000000", RPow("10", -31))
  /\ Near(Phi("1"), "84134474606854294858523254563/100000000000000000000000000000", RPow("10", -27))
  /\ Near(RDiv(Phi("-10"), "76198530241605260659733432515993083635/10000000000000000000000000000000000000000000000000000000000000"), "1", RPow("10", -20))
  /\ Near(ErfSmall("1"), "84270079294971486934122063508/100000000000000000000000000000", RPow("10", -27))
Laws ==
  /\ NearT(Exp(RAdd(x, y)), RMul(Exp(x), Exp(y)))
  /\ NearT(RAdd(Sq(Sin(x)), Sq(Cos(x))), "1")
  /\ RLe(RAbs(RAdd(x, y)), "8") => NearT(Sin(RAdd(x, y)), RAdd(RMul(Sin(x), Cos(y)), RMul(Cos(x), Sin(y))))
  /\ RSign(x) > 0 => NearT(Exp(Ln(x)), x) /\ NearT(Ln(Exp(x)), x)
  /\ NearT(Tan(Atan(x)), x)
  /\ NearT(RAdd(Phi(x), Phi(RNeg(x))), "1")
  /\ RLt(x, y) => RLt(Phi(x), Phi(y))
  /\ RSign(x) > 0 => NearT(RPow(CubeRoot(x), 3), x)
  /\ (RGe(x, "2") /\ RLe(x, "3")) => NearT(RSub("1", ErfSmall(x)), ErfcBig(x))
  /\ (x # "0" \/ y # "0") =>
       LET t == Atan2(y, x)  r == Sqrt(RAdd(Sq(x), Sq(y))) IN
       NearT(RMul(r, Cos(t)), x) /\ NearT(RMul(r, Sin(t)), y)
=============================================================================
