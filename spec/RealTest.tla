------------------------------ MODULE RealTest ------------------------------
(* Self-test of the Real override: algebraic laws on a grid, and reference   *)
(* values.                                                                   *)
EXTENDS Real, TLC, FiniteSets
CONSTANT Tier
VARIABLES a, b
Grid == {"0", "1", "-1", "0.5", "-2.75", "3", "1e-5", "123456.789", "-0.001", "7", "1e10"}
Ext == Grid \cup {"inf", "-inf", "NaN"}
Init == a \in Ext /\ b \in Ext
Next == UNCHANGED <<a, b>>
E40 == "1e-40"
Near(p, q) == RNear(p, q, E40, E40)
Pos(v) == RLt("0", v) /\ RIsFin(v)
Small(v) == RIsFin(v) /\ RLe(RAbs(v), "200")
Laws ==
  /\ RIsFin(a) /\ RIsFin(b) =>
       /\ REq(RAdd(a, b), RAdd(b, a)) /\ REq(RMul(a, b), RMul(b, a))
       /\ Near(RSub(RAdd(a, b), b), a)
       /\ ~REq(b, "0") => Near(RMul(RDiv(a, b), b), a)
       /\ Cardinality({r \in {"lt", "eq", "gt"} :
             CASE r = "lt" -> RLt(a, b) [] r = "eq" -> REq(a, b) [] OTHER -> RLt(b, a)}) = 1
       /\ RLe(RMin(a, b), RMax(a, b))
       /\ RNear(RSum(<<a, b, a>>), RAdd(RAdd(a, b), a), E40, E40)
       /\ Near(RDot(<<a, b>>, <<b, a>>), RMul("2", RMul(a, b)))
  /\ (RIsNaN(a) \/ RIsNaN(b)) => ~RLt(a, b) /\ ~RLe(a, b) /\ ~REq(a, b) /\ RIsNaN(RAdd(a, b))
  /\ Small(a) => Near(RLn(RExp(a)), a) /\ Near(RMul(RExp(a), RExp(RNeg(a))), "1")
  /\ Small(a) /\ Small(b) => RNear(RExp(RAdd(a, b)), RMul(RExp(a), RExp(b)), E40, "0")
  /\ Pos(a) => /\ Near(RMul(RSqrt(a), RSqrt(a)), a)
               /\ RNear(RExp(RLn(a)), a, E40, "0")
               /\ RNear(RPow(a, "0.5"), RSqrt(a), E40, "0")
               /\ RNear(RLnGamma(RAdd(a, "1")), RAdd(RLnGamma(a), RLn(a)), "1e-38", "1e-38")
               /\ RNear(RDigamma(RAdd(a, "1")), RAdd(RDigamma(a), RDiv("1", a)), "1e-38", "1e-38")
  /\ Pos(a) /\ Pos(b) => RNear(RLn(RMul(a, b)), RAdd(RLn(a), RLn(b)), E40, E40)
  /\ RIsFin(a) => /\ RNear(RAdd(RMul(RSin(a), RSin(a)), RMul(RCos(a), RCos(a))), "1", E40, "0")
                  /\ LET t == RAtan(a) IN RNear(RDiv(RSin(t), RCos(t)), a, "1e-38", "1e-38")
                  /\ RLe(RFloor(a), a) /\ RLt(a, RAdd(RFloor(a), "1"))
ASSUME RNear(RExp(1), "2.7182818284590452353602874713526624977572470937000", "1e-45", "0")
ASSUME RNear(RPi, "3.1415926535897932384626433832795028841971693993751", "1e-45", "0")
ASSUME RNear(RLn(10), "2.3025850929940456840179914546843642076011014886288", "1e-45", "0")
ASSUME RNear(RSin(1), "0.84147098480789650665250232163029899962256306079837", "1e-45", "0")
ASSUME RNear(RLnGamma("0.5"), "0.57236494292470008707171367567652935582364740645766", "1e-40", "0")
ASSUME RNear(RDigamma(1), "-0.57721566490153286060651209008240243104215933593992", "1e-40", "0")
ASSUME RNear(RAtan(1), RDiv(RPi, 4), "1e-45", "0")
ASSUME RIsNaN(RNorm("panic: oops")) /\ RIsNaN(RSub("inf", "inf")) /\ REq(RMul("2", 3), 6)
ASSUME RNear(RTrigamma(1), RDiv(RMul(RPi, RPi), 6), "1e-40", "0")
ASSUME RNear(RErfc("1"), "0.15729920705028513065877936491739074070393300203369", "1e-40", "0")
ASSUME RNear(RErfc("-0.5"), "1.5204998778130465376827466538919645287364515757580", "1e-40", "0")
ASSUME RNear(RErfc("5"), "1.5374597944280348501883434853833788901180503147234e-12", "1e-38", "0")
\* Gamma: P + Q = 1, recurrence in the shape, closed form for shape 1, both sides of the switch of method
ASSUME \A sh \in {"0.3", "1", "2.5", "7", "40"} : \A v \in {"0.01", "0.5", "3", "14.9", "15.1", "60"} :
   /\ RNear(RAdd(RGammaP(sh, v), RGammaQ(sh, v)), 1, "1e-38", "0")
   /\ RNear(RGammaP(RAdd(sh, 1), v),
            RSub(RGammaP(sh, v), RExp(RSub(RSub(RMul(sh, RLn(v)), v), RLnGamma(RAdd(sh, 1))))), "1e-30", "1e-38")
   /\ RNear(RGammaQ(1, v), RExp(RNeg(v)), "1e-35", "1e-45")
\* Beta: symmetry, recurrence, closed form for b = 1
ASSUME \A p \in {"0.5", "2", "9.25"} : \A q \in {"0.4", "1", "6"} : \A v \in {"0.001", "0.3", "0.5", "0.97"} :
   /\ RNear(RAdd(RBetaI(v, p, q), RBetaI(RSub(1, v), q, p)), 1, "1e-38", "0")
   /\ RNear(RBetaI(v, p, 1), RPow(v, p), "1e-38", "0")
   /\ RNear(RBetaI(v, RAdd(p, 1), q),
            RSub(RBetaI(v, p, q), RDiv(RExp(RSub(RAdd(RMul(p, RLn(v)), RMul(q, RLn(RSub(1, v)))), RLnBeta(p, q))), p)),
            "1e-30", "1e-38")
ASSUME REq("1/4", "0.25") /\ RToInt("41.9999") = 42 /\ RIsInt("3.0") /\ ~RIsInt("3.5")
ASSUME RNear(RFloat("0.1"), "0.1000000000000000055511151231257827021181583404541015625", "1e-49", "0") /\ ~REq(RFloat("0.1"), "0.1") /\ REq(RFloat("-3"), -3) /\ RFloat("inf") = "inf"
ASSUME REq(RRem("7.5", "2"), "1.5") /\ REq(RRem("-7.5", "2"), "-1.5") /\ REq(RRem("0.25", "inf"), "0.25")
ASSUME RNear(RRem("1", "0.1"), "0.09999999999999995", "1e-15", "0")
ASSUME REq(1 ++ 2 ** 3 -- 4, 3) /\ REq(1 -- 2 -- 3, -4) /\ REq(1 // 4, "0.25")
ASSUME RNear(RErfc("100"), "6.4058e-4346", "1e-4", "0") /\ RNear(RErfc("-100"), 2, "1e-45", "0")
=============================================================================
