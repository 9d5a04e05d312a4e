------------------------------ MODULE Families ------------------------------
(* The univariate laws, from their definitions in the literature.  A law is  *)
(* a record [fam, p]: a family and its parameters in the order of the        *)
(* family's constructor.  Everything a user can ask of a distribution is     *)
(* defined here from two ingredients, the log density (or the mass) and the  *)
(* cumulative function, which MC_Families checks against each other.         *)
EXTENDS Real, Sequences, FiniteSets, TLC, Constraints

Half == "0.5"
Ln2Pi == RLn(2 ** RPi)
LnPi == RLn(RPi)
Ln2 == RLn(2)

(*------------------------------- parameters ------------------------------*)
Kinds == [
  arcsine |-> <<"loc", "scale">>, beta |-> <<"shape", "shape">>, beta_prime |-> <<"shape", "shape">>,
  cauchy |-> <<"loc", "scale">>, chi |-> <<"dof">>, chi_sq |-> <<"dof">>, cosine |-> <<"loc", "scale">>,
  erlang |-> <<"shape", "rate">>, exponential |-> <<"rate">>, f_dist |-> <<"dof", "dof">>,
  folded_normal |-> <<"loc", "scale">>, frechet |-> <<"shape">>, gamma |-> <<"shape", "shape">>,
  gev |-> <<"loc", "shape", "shape">>, gpd |-> <<"loc", "shape", "shape">>, gumbel |-> <<"loc", "scale">>,
  inverse_gamma |-> <<"shape", "shape">>, inverse_normal |-> <<"shape", "shape">>,
  kumaraswamy |-> <<"shape", "shape">>, laplace |-> <<"loc", "scale">>, levy |-> <<"loc", "scale">>,
  logistic |-> <<"loc", "scale">>, lognormal |-> <<"loc", "scale">>, normal |-> <<"loc", "scale">>,
  pareto |-> <<"scale", "shape">>, rayleigh |-> <<"scale">>, student_t |-> <<"dof">>,
  triangular |-> <<"loc", "scale", "scale">>, uniform |-> <<"loc", "scale">>, weibull |-> <<"scale", "shape">>,
  degenerate_f |-> <<"loc">>, degenerate_i |-> <<"loc">>,
  bernoulli |-> <<"prob">>, beta_binomial |-> <<"count", "shape", "shape">>, binomial |-> <<"count", "prob">>,
  categorical |-> <<"simplex">>, geometric |-> <<"prob">>, poisson |-> <<"rate">>, uniform_int |-> <<"loc", "scale">> ]
Discrete == {"degenerate_f", "degenerate_i", "bernoulli", "beta_binomial", "binomial", "categorical", "geometric",
             "poisson", "uniform_int"}
Fams == DOMAIN Kinds
Unit(x) == RLe(0, x) /\ RLe(x, 1)
ValidP(kind, v) == CASE kind = "prob" -> Unit(v)
                     [] OTHER -> Sat(Guard(kind, FALSE), v)
Valid(d) == IF d.fam = "categorical"
            THEN /\ \A i \in 1..Len(d.p) : Unit(d.p[i])
                 /\ RLe(RAbs(RSum(d.p) -- 1), "1e-5")
            ELSE \A i \in 1..Len(Kinds[d.fam]) : ValidP(Kinds[d.fam][i], d.p[i])

(*--------------------------------- support -------------------------------*)
Inf(d) == LET p == d.p IN
  CASE d.fam \in {"arcsine", "uniform", "triangular", "uniform_int", "degenerate_f", "degenerate_i", "gpd", "levy"} -> RNorm(p[1])
    [] d.fam \in {"cauchy", "gumbel", "laplace", "logistic", "normal", "student_t"} -> "-inf"
    [] d.fam = "cosine" -> p[1] -- p[2]
    [] d.fam = "gev" -> p[1] -- (p[2] // p[3])
    [] d.fam = "pareto" -> RNorm(p[1])
    [] OTHER -> "0"
Sup(d) == LET p == d.p IN
  CASE d.fam \in {"arcsine", "uniform", "uniform_int"} -> p[1] ++ p[2]
    [] d.fam = "triangular" -> (p[1] ++ p[2]) ++ p[3]
    [] d.fam = "cosine" -> p[1] ++ p[2]
    [] d.fam \in {"beta", "kumaraswamy", "bernoulli"} -> "1"
    [] d.fam \in {"degenerate_f", "degenerate_i"} -> RNorm(p[1])
    [] d.fam \in {"binomial", "beta_binomial"} -> RNorm(p[1])
    [] d.fam = "categorical" -> RNorm(Len(p) - 1)
    [] OTHER -> "inf"
\* whether the bounds themselves belong to the support
OpenLeft == {"beta_prime", "chi", "chi_sq", "erlang", "exponential", "f_dist", "frechet", "gamma", "inverse_gamma",
             "inverse_normal", "lognormal", "rayleigh", "weibull"}
InSupport(d, x) ==
  /\ RLe(Inf(d), x) /\ RLe(x, Sup(d))
  /\ d.fam \in OpenLeft => RLt(0, x)
  /\ d.fam \in (Discrete \ {"degenerate_f"}) => RIsInt(x)
\* bounds that are sums of parameters are subject to rounding
RoundedEdge(d) == d.fam \in {"arcsine", "uniform", "triangular", "cosine", "gev"}
AtEdge(d, x) ==
  LET near(e) == RIsFin(e) /\ RNear(x, e, "1e-15", IF RoundedEdge(d) THEN "4e-16" ** RMax(RAbs(e), RAbs(d.p[1])) ELSE "0")
  IN RoundedEdge(d) /\ (near(Inf(d)) \/ near(Sup(d)))
OnEdge(d, x) == REq(x, Inf(d)) \/ REq(x, Sup(d)) \/ AtEdge(d, x)

(*------------------------------ log densities ----------------------------*)
\* the part that does not depend on x
LnC(d) == LET p == d.p
              k == IF Len(p) >= 1 THEN p[1] ELSE "0" IN
  CASE d.fam = "arcsine" -> RNeg(LnPi)
    [] d.fam \in {"beta", "beta_prime"} -> RNeg(RLnBeta(p[1], p[2]))
    [] d.fam = "cauchy" -> RNeg(LnPi) -- RLn(p[2])
    [] d.fam = "chi" -> ((1 -- (k // 2)) ** Ln2) -- RLnGamma(k // 2)
    [] d.fam = "chi_sq" -> RNeg((k // 2) ** Ln2) -- RLnGamma(k // 2)
    [] d.fam = "cosine" -> RNeg(RLn(p[2]))
    [] d.fam \in {"erlang", "gamma", "inverse_gamma"} -> (p[1] ** RLn(p[2])) -- RLnGamma(p[1])
    [] d.fam = "exponential" -> RLn(p[1])
    [] d.fam = "f_dist" -> ((p[1] // 2) ** RLn(p[1] // p[2])) -- RLnBeta(p[1] // 2, p[2] // 2)
    [] d.fam \in {"folded_normal"} -> RNeg(RLn(p[2])) -- (Ln2Pi // 2)
    [] d.fam = "frechet" -> RLn(p[1])
    [] d.fam \in {"gev", "gpd", "gumbel", "logistic", "uniform"} -> RNeg(RLn(p[2]))
    [] d.fam = "inverse_normal" -> (RLn(p[2]) -- Ln2Pi) // 2
    [] d.fam = "kumaraswamy" -> RLn(p[1]) ++ RLn(p[2])
    [] d.fam = "laplace" -> RNeg(RLn(2 ** p[2]))
    [] d.fam = "levy" -> (RLn(p[2]) -- Ln2Pi) // 2
    [] d.fam \in {"lognormal", "normal"} -> RNeg((RLn(p[2]) ++ Ln2Pi) // 2)
    [] d.fam = "pareto" -> RLn(p[2]) ++ (p[2] ** RLn(p[1]))
    [] d.fam = "rayleigh" -> RNeg(2 ** RLn(p[1]))
    [] d.fam = "student_t" -> (RLnGamma((k ++ 1) // 2) -- RLnGamma(k // 2)) -- (RLn(k ** RPi) // 2)
    [] d.fam = "triangular" -> RLn(2) -- RLn(p[2] ++ p[3])
    [] d.fam = "weibull" -> RLn(p[2]) -- (p[2] ** RLn(p[1]))

Sq(x) == x ** x
\* log density at x in the interior of the support, c = LnC(d)
LnFc(d, c, x) ==
  LET p == d.p
      z == (x -- p[1]) // p[2]
  IN
  CASE d.fam = "arcsine" -> c -- (RLn((x -- p[1]) ** ((p[1] ++ p[2]) -- x)) // 2)
    [] d.fam = "beta" -> c ++ ((p[1] -- 1) ** RLn(x)) ++ ((p[2] -- 1) ** RLn(1 -- x))
    [] d.fam = "beta_prime" -> c ++ ((p[1] -- 1) ** RLn(x)) -- ((p[1] ++ p[2]) ** RLn(1 ++ x))
    [] d.fam = "cauchy" -> c -- RLn(1 ++ Sq(z))
    [] d.fam = "chi" -> c ++ ((p[1] -- 1) ** RLn(x)) -- (Sq(x) // 2)
    [] d.fam = "chi_sq" -> c ++ (((p[1] // 2) -- 1) ** RLn(x)) -- (x // 2)
    [] d.fam = "cosine" -> c ++ (2 ** RLn(RAbs(RCos((RPi ** z) // 2))))
    [] d.fam \in {"erlang", "gamma"} -> c ++ ((p[1] -- 1) ** RLn(x)) -- (p[2] ** x)
    [] d.fam = "exponential" -> c -- (p[1] ** x)
    [] d.fam = "f_dist" -> c ++ (((p[1] // 2) -- 1) ** RLn(x)) -- (((p[1] ++ p[2]) // 2) ** RLn(1 ++ ((p[1] ** x) // p[2])))
    [] d.fam = "folded_normal" ->
         LET v == Sq(p[2])
             y == RAbs((x ** p[1]) // v)
         IN c -- ((Sq(x) ++ Sq(p[1])) // (2 ** v)) ++ y ++ RLn(1 ++ RExp(RNeg(2 ** y)))
    [] d.fam = "frechet" -> c -- ((1 ++ p[1]) ** RLn(x)) -- RPow(x, RNeg(p[1]))
    [] d.fam = "gev" -> LET lt == RNeg(RLn(1 ++ (p[3] ** z)) // p[3]) IN c ++ ((p[3] ++ 1) ** lt) -- RExp(lt)
    [] d.fam = "gpd" -> c -- (((1 // p[3]) ++ 1) ** RLn(1 ++ (p[3] ** z)))
    [] d.fam = "gumbel" -> c -- z -- RExp(RNeg(z))
    [] d.fam = "inverse_gamma" -> c -- ((p[1] ++ 1) ** RLn(x)) -- (p[2] // x)
    [] d.fam = "inverse_normal" -> c -- ("1.5" ** RLn(x)) -- ((p[2] ** Sq(x -- p[1])) // (2 ** (Sq(p[1]) ** x)))
    [] d.fam = "kumaraswamy" -> c ++ ((p[1] -- 1) ** RLn(x)) ++ ((p[2] -- 1) ** RLn(1 -- RPow(x, p[1])))
    [] d.fam = "laplace" -> c -- RAbs(z)
    [] d.fam = "levy" -> LET y == x -- p[1] IN c -- (p[2] // (2 ** y)) -- ("1.5" ** RLn(y))
    [] d.fam = "logistic" -> LET y == RAbs(z) IN c -- y -- (2 ** RLn(1 ++ RExp(RNeg(y))))
    [] d.fam = "lognormal" -> LET y == RLn(x) IN c -- y -- (Sq(y -- p[1]) // (2 ** p[2]))
    [] d.fam = "normal" -> c -- (Sq(x -- p[1]) // (2 ** p[2]))
    [] d.fam = "pareto" -> c -- ((p[2] ++ 1) ** RLn(x))
    [] d.fam = "rayleigh" -> c ++ RLn(x) -- (Sq(x) // (2 ** Sq(p[1])))
    [] d.fam = "student_t" -> c -- (((p[1] ++ 1) // 2) ** RLn(1 ++ (Sq(x) // p[1])))
    [] d.fam = "triangular" -> IF RLe(x, p[1] ++ p[2]) THEN c ++ RLn((x -- p[1]) // p[2])
                               ELSE c ++ RLn((((p[1] ++ p[2]) ++ p[3]) -- x) // p[3])
    [] d.fam = "uniform" -> c
    [] d.fam = "weibull" -> c ++ ((p[2] -- 1) ** RLn(x)) -- RPow(x // p[1], p[2])
LnF(d, x) == LnFc(d, LnC(d), x)

(*------------------------------- mass function ---------------------------*)
LnChoose(n, k) == RLnGamma(n ++ 1) -- RLnGamma(k ++ 1) -- RLnGamma((n -- k) ++ 1)
Mass(d, k) ==
  LET p == d.p IN
  IF ~InSupport(d, k) THEN "0" ELSE
  CASE d.fam \in {"degenerate_f", "degenerate_i"} -> "1"
    [] d.fam = "bernoulli" -> IF REq(k, 1) THEN RNorm(p[1]) ELSE 1 -- p[1]
    [] d.fam = "beta_binomial" -> RExp(LnChoose(p[1], k) ++ RLnBeta(k ++ p[2], (p[1] -- k) ++ p[3]) -- RLnBeta(p[2], p[3]))
    [] d.fam = "binomial" -> RExp(LnChoose(p[1], k)) ** (RPow(p[2], k) ** RPow(1 -- p[2], p[1] -- k))
    [] d.fam = "categorical" -> RNorm(p[RToInt(k) + 1])
    [] d.fam = "geometric" -> p[1] ** RPow(1 -- p[1], k)
    [] d.fam = "poisson" -> RExp((k ** RLn(p[1])) -- p[1] -- RLnGamma(k ++ 1))
    [] d.fam = "uniform_int" -> 1 // (p[2] ++ 1)
LnMass(d, k) ==
  LET p == d.p IN
  IF ~InSupport(d, k) THEN "-inf" ELSE
  CASE d.fam = "poisson" -> (k ** RLn(p[1])) -- p[1] -- RLnGamma(k ++ 1)
    [] d.fam = "geometric" -> IF REq(p[1], 1) THEN (IF REq(k, 0) THEN "0" ELSE "-inf") ELSE RLn(p[1]) ++ (k ** RLn(1 -- p[1]))
    [] OTHER -> RLn(Mass(d, k))

(*---------------------------- cumulative function ------------------------*)
Phi(z) == RErfc(RNeg(z) // RSqrt(2)) // 2
CdfIn(d, x) ==
  LET p == d.p
      z == (x -- p[1]) // p[2]
  IN
  CASE d.fam = "arcsine" -> (2 ** RAtan(RSqrt(z // (1 -- z)))) // RPi
    [] d.fam = "beta" -> RBetaI(x, p[1], p[2])
    [] d.fam = "beta_prime" -> RBetaI(x // (1 ++ x), p[1], p[2])
    [] d.fam = "cauchy" -> Half ++ (RAtan(z) // RPi)
    [] d.fam = "chi" -> RGammaP(p[1] // 2, Sq(x) // 2)
    [] d.fam = "chi_sq" -> RGammaP(p[1] // 2, x // 2)
    [] d.fam = "cosine" -> (1 ++ z ++ (RSin(RPi ** z) // RPi)) // 2
    [] d.fam \in {"erlang", "gamma"} -> RGammaP(p[1], p[2] ** x)
    [] d.fam = "exponential" -> 1 -- RExp(RNeg(p[1] ** x))
    [] d.fam = "f_dist" -> LET y == p[1] ** x IN RBetaI(y // (y ++ p[2]), p[1] // 2, p[2] // 2)
    [] d.fam = "folded_normal" -> Phi((x -- p[1]) // p[2]) -- Phi((RNeg(x) -- p[1]) // p[2])
    [] d.fam = "frechet" -> RExp(RNeg(RPow(x, RNeg(p[1]))))
    [] d.fam = "gev" -> RExp(RNeg(RExp(RNeg(RLn(1 ++ (p[3] ** z)) // p[3]))))
    [] d.fam = "gpd" -> 1 -- RExp(RNeg(RLn(1 ++ (p[3] ** z)) // p[3]))
    [] d.fam = "gumbel" -> RExp(RNeg(RExp(RNeg(z))))
    [] d.fam = "inverse_gamma" -> RGammaQ(p[1], p[2] // x)
    [] d.fam = "inverse_normal" ->
         LET s == RSqrt(p[2] // x)
             w == x // p[1]
         IN Phi(s ** (w -- 1)) ++ (RExp((2 ** p[2]) // p[1]) ** Phi(RNeg(s ** (w ++ 1))))
    [] d.fam = "kumaraswamy" -> 1 -- RPow(1 -- RPow(x, p[1]), p[2])
    [] d.fam = "laplace" -> IF RLe(z, 0) THEN RExp(z) // 2 ELSE 1 -- (RExp(RNeg(z)) // 2)
    [] d.fam = "levy" -> RErfc(RSqrt(p[2] // (2 ** (x -- p[1]))))
    [] d.fam = "logistic" -> 1 // (1 ++ RExp(RNeg(z)))
    [] d.fam = "lognormal" -> Phi((RLn(x) -- p[1]) // RSqrt(p[2]))
    [] d.fam = "normal" -> Phi((x -- p[1]) // RSqrt(p[2]))
    [] d.fam = "pareto" -> 1 -- RPow(p[1] // x, p[2])
    [] d.fam = "rayleigh" -> 1 -- RExp(RNeg(Sq(x) // (2 ** Sq(p[1]))))
    [] d.fam = "student_t" -> LET t == RBetaI(p[1] // (p[1] ++ Sq(x)), p[1] // 2, Half) // 2
                              IN IF RLt(0, x) THEN 1 -- t ELSE t
    [] d.fam = "triangular" -> IF RLe(x, p[1] ++ p[2]) THEN Sq(x -- p[1]) // (p[2] ** (p[2] ++ p[3]))
                               ELSE 1 -- (Sq(((p[1] ++ p[2]) ++ p[3]) -- x) // (p[3] ** (p[2] ++ p[3])))
    [] d.fam = "uniform" -> z
    [] d.fam = "weibull" -> 1 -- RExp(RNeg(RPow(x // p[1], p[2])))
    [] d.fam \in {"degenerate_f", "degenerate_i"} -> "1"
    [] d.fam = "bernoulli" -> 1 -- p[1]
    [] d.fam = "beta_binomial" -> RSum([i \in 1..(RToInt(RFloor(x)) + 1) |-> Mass(d, i - 1)])
    [] d.fam = "binomial" -> LET k == RFloor(x) IN
                             IF REq(p[2], 0) THEN "1" ELSE RBetaI(1 -- p[2], p[1] -- k, k ++ 1)
    [] d.fam = "categorical" -> RSum(SubSeq(p, 1, RToInt(RFloor(x)) + 1))
    [] d.fam = "geometric" -> IF REq(p[1], 1) THEN "1" ELSE 1 -- RExp((RFloor(x) ++ 1) ** RLn(1 -- p[1]))
    [] d.fam = "poisson" -> RGammaQ(RFloor(x) ++ 1, p[1])
    [] d.fam = "uniform_int" -> ((RFloor(x) -- p[1]) ++ 1) // (p[2] ++ 1)
Cdf(d, x) == IF RLt(x, Inf(d)) THEN "0"
             ELSE IF RLe(Sup(d), x) THEN "1"
             ELSE IF d.fam \notin Discrete /\ RLe(x, Inf(d)) THEN "0"
             ELSE CdfIn(d, x)
\* P(X < x)
CdfBelow(d, x) == IF d.fam \notin Discrete THEN Cdf(d, x)
                  ELSE IF d.fam = "degenerate_f" THEN (IF RLe(x, Inf(d)) THEN "0" ELSE "1")
                  ELSE IF RIsInt(x) THEN Cdf(d, x -- 1) ELSE Cdf(d, x)

(*--------------------------- existence of moments ------------------------*)
\* E|X|^k is finite exactly for k below this
TailIdx(d) == LET p == d.p IN
  CASE d.fam = "cauchy" -> "1"
    [] d.fam = "levy" -> Half
    [] d.fam = "student_t" -> RNorm(p[1])
    [] d.fam \in {"beta_prime", "pareto"} -> RNorm(p[2])
    [] d.fam = "inverse_gamma" -> RNorm(p[1])
    [] d.fam = "frechet" -> RNorm(p[1])
    [] d.fam = "f_dist" -> p[2] // 2
    [] d.fam \in {"gev", "gpd"} -> 1 // p[3]
    [] OTHER -> "inf"
=============================================================================
