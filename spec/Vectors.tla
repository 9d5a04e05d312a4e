------------------------------- MODULE Vectors -------------------------------
(* Laws over vectors.  A law is a record [fam, n, a, m]: the constructor it  *)
(* comes from, the dimension, a vector and rows of numbers:                  *)
(*   scalar, full, diagonal, isotropic, homogeneous, standard,               *)
(*   paired(_isotropic, _standard), bivariate(_independent, _isotropic,      *)
(*   _standard): a = mean, m = covariance as that constructor takes it;      *)
(*   ln_x: the law whose logarithm has law x;                                *)
(*   dirichlet: a = concentrations; multinomial: a = weights, m = <<<<n>>>>. *)
(* All normal constructors denote a mean vector and a covariance matrix, and *)
(* everything else is defined from these two.                                *)
EXTENDS Expect, Linalg
Plain == {"scalar", "full", "diagonal", "isotropic", "homogeneous", "standard", "paired", "paired_isotropic", "paired_standard",
          "bivariate", "bivariate_independent", "bivariate_isotropic", "bivariate_standard"}
Logs == {"ln_full", "ln_diagonal", "ln_isotropic", "ln_homogeneous", "ln_standard"}
Under(f) == CASE f = "ln_full" -> "full" [] f = "ln_diagonal" -> "diagonal" [] f = "ln_isotropic" -> "isotropic"
              [] f = "ln_homogeneous" -> "homogeneous" [] f = "ln_standard" -> "standard" [] OTHER -> f
VLaw(f, n, a, m) == [fam |-> f, n |-> n, a |-> a, m |-> m]
Gaussian(d) == d.fam \in Plain \cup Logs
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE "0"]]
Rep(x, n) == [i \in 1..n |-> x]
Rows(d) == d.m
Mu(d) == LET f == Under(d.fam) IN
  CASE f \in {"standard", "paired_standard", "bivariate_standard"} -> Rep("0", d.n)
    [] f = "homogeneous" -> Rep(d.a[1], d.n)
    [] OTHER -> d.a
Sigma(d) == LET f == Under(d.fam)
                m == d.m IN
  CASE f \in {"standard", "paired_standard", "bivariate_standard"} -> Ident(d.n)
    [] f \in {"homogeneous", "isotropic", "paired_isotropic", "bivariate_isotropic", "scalar"} -> Diag(Rep(m[1][1], d.n))
    [] f \in {"diagonal", "paired", "bivariate_independent"} -> Diag(m[1])
    [] f = "bivariate" -> LET c == m[2][1] ** RSqrt(m[1][1] ** m[1][2]) IN << <<m[1][1], c>>, <<c, m[1][2]>> >>
    [] f = "full" -> m
\* parameters as the distribution reports them, whichever constructor it comes from
Canon(d) == LET f == Under(d.fam) IN
  CASE f \in {"paired_isotropic", "paired_standard"} -> [a |-> Mu(d), m |-> << Rep(Sigma(d)[1][1], 2) >>]
    [] f \in {"bivariate_independent", "bivariate_isotropic", "bivariate_standard"} -> [a |-> Mu(d), m |-> << <<Sigma(d)[1][1], Sigma(d)[2][2]>>, <<"0">> >>]
    [] f \in {"homogeneous", "standard"} -> [a |-> Mu(d), m |-> << <<Sigma(d)[1][1]>> >>]
    [] OTHER -> [a |-> d.a, m |-> d.m]
Symmetric(s) == \A i, j \in 1..Len(s) : REq(s[i][j], s[j][i])
\* lower factor, row by row
RECURSIVE RowTo(_, _, _, _)
RowTo(s, done, i, j) ==   \* first j entries of row i, given the rows above
  IF j = 0 THEN << >>
  ELSE LET r == RowTo(s, done, i, j - 1)
           with(q) == RSum([k \in 1..(j - 1) |-> r[k] ** q[k]])
       IN IF j > i THEN Append(r, "0")
          ELSE IF j = i THEN Append(r, LET v == s[i][i] -- with(r) IN IF RLt(0, v) THEN RSqrt(v) ELSE "NaN")
          ELSE Append(r, (s[i][j] -- with(done[j])) // done[j][j])
RECURSIVE RowsTo(_, _)
RowsTo(s, i) == IF i = 0 THEN << >> ELSE LET done == RowsTo(s, i - 1) IN Append(done, TLCEval(RowTo(s, done, i, Len(s))))
Factor(s) == TLCEval(RowsTo(s, Len(s)))
PosDef(s) == Symmetric(s) /\ LET lo == Factor(s) IN \A i \in 1..Len(s) : RIsFin(lo[i][i]) /\ RLt(0, lo[i][i])

(*------------------------------- validity --------------------------------*)
Pos(x) == Sat(Guard("scale", FALSE), x)
AllPos(v) == \A i \in 1..Len(v) : Pos(v[i])
Weights(v) == (\A i \in 1..Len(v) : Unit(v[i])) /\ RLe(RAbs(RSum(v) -- 1), "1e-5")
VValid(d) == LET f == Under(d.fam) IN
  CASE f = "dirichlet" -> AllPos(d.a)
    [] f = "multinomial" -> Weights(d.a) /\ Sat(Guard("count", FALSE), d.m[1][1])
    [] f = "full" -> PosDef(d.m)
    [] f = "bivariate" -> AllPos(d.m[1]) /\ RLe("-1", d.m[2][1]) /\ RLe(d.m[2][1], 1)
    [] Len(d.m) = 0 -> TRUE
    [] OTHER -> AllPos(d.m[1])

(*-------------------------- what is worked out once -----------------------*)
\* s: covariance of the (logarithm of the) vector; inv: inverse of its factor
Work(d) ==
  IF Gaussian(d)
  THEN LET s == TLCEval(Sigma(d))
           lo == Factor(s)
       IN TLCEval([mu |-> TLCEval(Mu(d)), s |-> s, lo |-> lo, inv |-> InvLower(lo),
                   lndet |-> 2 ** RSum([i \in 1..d.n |-> RLn(lo[i][i])])])
  ELSE [mu |-> << >>, s |-> << >>, lo |-> << >>, inv |-> << >>, lndet |-> "0"]
Minus(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] -- y[i]])
Dist2(w, x) == LET u == MatVec(w.inv, Minus(x, w.mu)) IN RDot(u, u)
LnNormal(w, x) == RNeg((((Len(x) ** Ln2Pi) ++ w.lndet) ++ Dist2(w, x)) // 2)
Ln(x) == [i \in 1..Len(x) |-> RLn(x[i])]
AllIn(x, P(_)) == \A i \in 1..Len(x) : P(x[i])
OnSimplex(x, tol) == AllIn(x, Unit) /\ RLe(RAbs(RSum(x) -- 1), tol)
Counts(d, x) == REq(RSum(x), d.m[1][1]) /\ AllIn(x, RIsInt) /\ AllIn(x, LAMBDA v : RLe(0, v))
\* logarithm of the density (mass); "-inf" off the support
LnTerms(e, x) == RSum([i \in 1..Len(x) |-> IF REq(e[i], 0) THEN "0" ELSE e[i] ** RLn(x[i])])
LnDen(d, w, x) ==
  CASE d.fam \in Plain -> LnNormal(w, x)
    [] d.fam \in Logs -> IF AllIn(x, LAMBDA v : RLt(0, v)) THEN LET y == TLCEval(Ln(x)) IN LnNormal(w, y) -- RSum(y) ELSE "-inf"
    [] d.fam = "dirichlet" ->
         IF ~OnSimplex(x, "1e-9") THEN "-inf"
         ELSE (LnTerms([i \in 1..d.n |-> d.a[i] -- 1], x) ++ RLnGamma(RSum(d.a))) -- RSum([i \in 1..d.n |-> RLnGamma(d.a[i])])
    [] d.fam = "multinomial" ->
         IF ~Counts(d, x) \/ (\E i \in 1..d.n : REq(d.a[i], 0) /\ RLt(0, x[i])) THEN "-inf"
         ELSE (LnTerms(x, [i \in 1..d.n |-> IF REq(d.a[i], 0) THEN "1" ELSE d.a[i]]) ++ RLnGamma(d.m[1][1] ++ 1))
              -- RSum([i \in 1..d.n |-> RLnGamma(x[i] ++ 1)])
\* (the density of a Dirichlet law at a point with a zero coordinate is zero, infinite, or left out)
OnFace(d, x) == d.fam = "dirichlet" /\ \E i \in 1..Len(x) : REq(x[i], 0)

(*-------------------------------- moments ---------------------------------*)
A0(d) == RSum(d.a)
Expm1(x) == IF RLt(RAbs(x), "1e-6") THEN RSum(<<x, Sq(x) // 2, (Sq(x) ** x) // 6, Sq(Sq(x)) // 24, (Sq(Sq(x)) ** x) // 120>>) ELSE RExp(x) -- 1
VMean(d, w) ==
  CASE d.fam \in Plain -> w.mu
    [] d.fam \in Logs -> [i \in 1..d.n |-> RExp(w.mu[i] ++ (w.s[i][i] // 2))]
    [] d.fam = "dirichlet" -> [i \in 1..d.n |-> d.a[i] // A0(d)]
    [] d.fam = "multinomial" -> [i \in 1..d.n |-> d.m[1][1] ** d.a[i]]
VCov(d, w) ==
  CASE d.fam \in Plain -> w.s
    [] d.fam \in Logs -> LET m == VMean(d, w) IN [i \in 1..d.n |-> [j \in 1..d.n |-> (m[i] ** m[j]) ** Expm1(w.s[i][j])]]
    [] d.fam = "dirichlet" -> LET t == A0(d)
                                  c == (t ** t) ** (t ++ 1)
                              IN [i \in 1..d.n |-> [j \in 1..d.n |-> (IF i = j THEN d.a[i] ** (t -- d.a[i]) ELSE RNeg(d.a[i] ** d.a[j])) // c]]
    [] d.fam = "multinomial" -> [i \in 1..d.n |-> [j \in 1..d.n |-> d.m[1][1] ** (IF i = j THEN d.a[i] ** (1 -- d.a[i]) ELSE RNeg(d.a[i] ** d.a[j]))]]
Corr(c) == [i \in 1..Len(c) |-> [j \in 1..Len(c) |-> IF i = j THEN "1" ELSE c[i][j] // RSqrt(c[i][i] ** c[j][j])]]
VEntropy(d, w) == (((d.n ** (1 ++ Ln2Pi)) ++ w.lndet)) // 2

(*------------------------ laws of one number derived ----------------------*)
\* the law of sum u[i] x[i] (for Logs: of sum u[i] ln x[i]; for a Dirichlet or multinomial law u is made of zeros and ones)
Project(d, w, u) ==
  IF Gaussian(d) THEN [fam |-> "normal", p |-> << RDot(u, w.mu), RDot(u, MatVec(w.s, u)) >>]
  ELSE LET in == RSum([i \in 1..d.n |-> u[i] ** d.a[i]]) IN
       IF d.fam = "dirichlet" THEN [fam |-> "beta", p |-> << in, A0(d) -- in >>]
       ELSE [fam |-> "binomial", p |-> << d.m[1][1], in >>]
VInf(d) == IF d.fam \in Plain THEN "-inf" ELSE "0"
VSup(d) == IF Gaussian(d) THEN "inf" ELSE IF d.fam = "dirichlet" THEN "1" ELSE d.m[1][1]
InBox(d, x) == AllIn(x, LAMBDA v : CASE d.fam \in Plain -> RIsFin(v) [] d.fam \in Logs -> RLt(0, v)
                                     [] OTHER -> RLe(0, v) /\ RLe(v, VSup(d)))
=============================================================================
