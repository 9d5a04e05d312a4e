------------------------------ MODULE Fitting ------------------------------
(* Likelihood, score and maximum-likelihood fit of a list of independent     *)
(* observations under a law of Families, or under a pair of independent      *)
(* normals ("paired_normal", parameters mu1, mu2, variance1, variance2).     *)
EXTENDS Expect
Scored == {"bernoulli", "beta", "gamma", "normal", "poisson", "paired_normal"}
Fitted == {"bernoulli", "normal", "poisson"}
Part(d, i) == [fam |-> "normal", p |-> <<d.p[i], d.p[i + 2]>>]
LnOne(d, x) == IF ~InSupport(d, x) THEN "-inf" ELSE LnAt(d, x)
LnObs(d, x) == IF d.fam = "paired_normal" THEN LnOne(Part(d, 1), x[1]) ++ LnOne(Part(d, 2), x[2]) ELSE LnOne(d, x)
LnTerms(d, xs) == TLCEval([i \in 1..Len(xs) |-> LnObs(d, xs[i])])
LogLik(d, xs) == RSum(LnTerms(d, xs))
\* magnitude of what is summed, for the rounding of the sum
Weight(terms) == RSum([i \in 1..Len(terms) |-> 1 ++ RAbs(terms[i])])
Comp(xs, k) == [i \in 1..Len(xs) |-> xs[i][k]]
\* <<gradient, magnitude>> of the log-likelihood in the i-th parameter
Slope(d, i, xs) == LET s == ScoreSeq(d, i, xs) IN << RSum(s), RSum([j \in 1..Len(s) |-> RAbs(s[j])]) >>
ScoreOf(d, xs) == IF d.fam = "paired_normal"
                  THEN LET a == Part(d, 1)
                           b == Part(d, 2)
                       IN << Slope(a, 1, Comp(xs, 1)), Slope(b, 1, Comp(xs, 2)), Slope(a, 2, Comp(xs, 1)), Slope(b, 2, Comp(xs, 2)) >>
                  ELSE [i \in 1..Len(d.p) |-> Slope(d, i, xs)]
Mean(xs) == RSum(xs) // Len(xs)
\* the maximiser, for a non-empty list
Fit(fam, xs) ==
  LET m == Mean(xs) IN
  [fam |-> fam, p |-> IF fam = "normal" THEN << m, RSum([i \in 1..Len(xs) |-> Sq(xs[i] -- m)]) // Len(xs) >> ELSE << m >>]
HasFit(fam, xs) == Len(xs) > 0 /\ Valid(Fit(fam, xs))
\* other admissible parameters, near and far
Rivals(d) ==
  {r \in UNION {{[d EXCEPT !.p[i] = @ ++ (s ** (RAbs(@) ++ "0.01"))] : i \in 1..Len(d.p)} : s \in {"0.01", "-0.01", "0.0003", "-0.0003", "1", "-0.5"}} : Valid(r)}
=============================================================================
