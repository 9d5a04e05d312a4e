------------------------------ MODULE TraceUv ------------------------------
(* Recorded questions to univariate distributions and the answers, against   *)
(* Families and Expect.  The state is the law being asked about; Prop names  *)
(* the property whose laws are evaluated.                                    *)
EXTENDS Expect, TraceBase, SequencesExt
CONSTANT Prop
VARIABLES law,    \* [fam, p] of the last "begin"
          ok,     \* whether there is such a distribution
          last    \* the last point asked about and its cumulative probability, as answered
Site(f) == law.fam \o "." \o f
Z0(x) == RNear(x, 0, 0, 0)
Starts(s, t) == RIsSeq(s) = FALSE /\ s = t
\* what the crate says, in so many words, that it does not offer
Undefined(v) == v \in {"panic: quantity undefined", "panic: not implemented", "panic: not yet implemented"}

(*--------------------- C08, C09: points of the line ----------------------*)
NotOfferedCdf == {"poisson", "beta_binomial"}
Said(v) == RIsFin(v) \/ v \in {"inf", "-inf"}
E9 == "1e-9"
PtLaws08(e) ==
  LET d == law
      F == Cdf(d, e.x)
      offered == d.fam \notin NotOfferedCdf \/ Said(e.cdf)
      below == RLt(e.x, Inf(d)) /\ ~AtEdge(d, e.x)
      above == RLe(Sup(d), e.x) /\ ~AtEdge(d, e.x)
      lnear(lp, q, pl) == \/ RNear(RExp(lp), q, 0, E9) /\ (RLt("1e-6", q) => RNear(RExp(lp), q, "1e-9", 0))
  IN IF ~offered THEN {} ELSE
     { <<"probability", Site("cdf"), RLe(0, e.cdf) /\ RLe(e.cdf, 1)>>,
       <<"value", Site("cdf"), RNear(e.cdf, F, 0, IF AtEdge(d, e.x) THEN "1e-7" ELSE E9)>>,
       <<"zero-below", Site("cdf"), below => Z0(e.cdf)>>,
       <<"one-above", Site("cdf"), above => RNear(e.cdf, 1, 0, IF d.fam = "categorical" THEN "1e-12" ELSE "0")>>,
       <<"monotone", Site("cdf"), (last.seen /\ Said(last.F)) => RLe(last.F, e.cdf ++ "1e-12")>>,
       <<"complement", Site("ccdf"), RNear(e.ccdf ++ e.cdf, 1, 0, "1e-12") /\ RLe(0, e.ccdf) /\ RLe(e.ccdf, 1)>>,
       <<"logarithm", Site("log_cdf"), RNear(RExp(e.lcdf), e.cdf, "1e-9", "1e-12") /\ (RLt("1e-9", e.cdf) => RNear(e.lcdf, RLn(e.cdf), "1e-9", "1e-9"))>>,
       <<"logarithm", Site("log_ccdf"), RNear(RExp(e.lccdf), e.ccdf, "1e-9", "1e-12") /\ (RLt("1e-9", e.ccdf) => RNear(e.lccdf, RLn(e.ccdf), "1e-9", "1e-9"))>> }
PtLaws09(e) ==
  LET d == law
      disc == d.fam \in Discrete
      in == InSupport(d, e.x)
      edge == ~disc /\ OnEdge(d, e.x)
      lf == IF disc THEN LnMass(d, e.x) ELSE LnF(d, e.x)
      f == RExp(lf)
      name == IF disc THEN "pmf" ELSE "pdf"
      \* what the rounding of a bound does to the distance from it
      blur == IF ~RoundedEdge(d) THEN "0" ELSE ("4e-16" ** (RAbs(Inf(d)) ++ RAbs(d.p[1]) ++ RAbs(e.x))) // RMin(RAbs(e.x -- Inf(d)), RAbs(Sup(d) -- e.x))
      close(l1) == RLe(RAbs(l1 -- lf), ("1e-8" ** (1 ++ RAbs(lf))) ++ blur)
  IN { <<"non-negative", Site(name), RLe(0, e.den)>>,
       <<"outside", Site(name), (~in /\ ~edge) => Z0(e.den)>>,
       <<"value", Site(name), (in /\ ~edge) => (IF RLt("-650", lf) THEN RLt(0, e.den) /\ close(RLn(e.den))
                                                ELSE RLe(e.den, "1e-280"))>>,
       <<"logarithm", Site("log_" \o name),
          IF RLt("1e-280", e.den) /\ e.den # "inf" THEN RNear(e.lden, RLn(e.den), "1e-9", "1e-9")
          ELSE IF e.den = "inf" THEN RLt(600, e.lden)
          ELSE e.lden = "-inf" \/ RLe(e.lden, "-600")>> }

(*------------------------------ C10: moments -----------------------------*)
NotOffered(f) == CASE law.fam = "folded_normal" -> f \in {"skewness", "kurtosis", "excess_kurtosis"}
                   [] law.fam = "kumaraswamy" -> f \in {"kurtosis", "excess_kurtosis"}
                   [] OTHER -> FALSE
IsPanic(v) == ~Said(v) /\ v # "NaN"
Heavy == {"cauchy", "student_t"}      \* no upper or lower side of the mean dominates
MomLaws(e) ==
  LET d == law
      t == Table(d)
      m == Moments(d, t)
      sd == RSqrt(m.c2)
      deg == d.fam \in {"degenerate_f", "degenerate_i"} \/ (Computable(d, 2) /\ RLe(m.c2, 0))
      skew == m.c3 // (sd ** m.c2)
      kurt == m.c4 // (m.c2 ** m.c2)
      good == RNear(Total(t), 1, 0, E9)
      free(f) == NotOffered(f) /\ IsPanic(e.m[f])
      exists(k) == HasMoment(d, k)
      comp(k) == Computable(d, k)
      near(f, v, rel, abs) == free(f) \/ RNear(e.m[f], v, rel, abs)
      diverges(f) == free(f) \/ ~RIsFin(e.m[f])
      infinite(f) == free(f) \/ e.m[f] = "inf" \/ IsPanic(e.m[f])
      at(f, k, v, rel, abs, one) ==
        <<"moment", Site(f), IF comp(k) THEN near(f, v, rel, abs) ELSE IF exists(k) THEN ~(e.m[f] = "NaN") ELSE IF one THEN infinite(f) ELSE diverges(f)>>
  IN IF ~good THEN (IF PrintT(<<"NOTGOOD", d, Total(t)>>) THEN {} ELSE {}) ELSE
     { at("mean", 1, m.m1, "1e-7", IF comp(2) THEN "1e-8" ** sd ELSE "1e-9", d.fam \notin Heavy),
       at("variance", 2, m.c2, "1e-6", "1e-300", exists(1)),
       at("standard_deviation", 2, sd, "1e-6", "1e-300", exists(1)) }
     \cup (IF deg THEN {<<"moment", Site(f), ~RIsFin(e.m[f]) \/ (f = "skewness" /\ Z0(e.m[f]))>> : f \in {"skewness", "kurtosis", "excess_kurtosis"}}
           ELSE { at("skewness", 3, skew, "1e-6", "1e-6", FALSE),
                  at("kurtosis", 4, kurt, "1e-6", "1e-6", FALSE),
                  at("excess_kurtosis", 4, kurt -- 3, "1e-6", "1e-6", FALSE),
                  <<"root", Site("standard_deviation"), RIsFin(e.m.variance) => RNear(Sq(e.m.standard_deviation), e.m.variance, "1e-12", "1e-300")>>,
                  <<"excess", Site("excess_kurtosis"), (RIsFin(e.m.kurtosis) /\ RIsFin(e.m.excess_kurtosis)) => RNear(e.m.kurtosis -- 3, e.m.excess_kurtosis, "1e-9", "1e-9")>> })

(*------------------- C11: quantiles, medians, and modes ------------------*)
Width(d) == CASE d.fam \in Discrete -> "1"
              [] OTHER -> LET P == Pieces(d) IN P[Len(P)].s
Quantile == {"cauchy", "exponential", "uniform", "uniform_int", "normal"}
\* x is a least point whose cumulative probability reaches p
IsQuantile(d, p, x) ==
  IF REq(p, 0) THEN REq(x, Inf(d)) \/ x = "-inf" \/ (d.fam \in Discrete /\ REq(CdfBelow(d, x), 0))
  ELSE IF REq(p, 1) THEN REq(x, Sup(d)) \/ AtEdge(d, x) \/ RLe(1 -- Cdf(d, x), "1e-15")
  ELSE IF d.fam \in Discrete THEN RLe(p -- "1e-12", Cdf(d, x)) /\ RLe(CdfBelow(d, x), p ++ "1e-12") /\ RIsInt(x)
  ELSE LET h == "1e-15" ** (RAbs(x) ++ RAbs(d.p[1]))   \* rounding of the answer itself
       IN /\ RLe(Cdf(d, x -- h), p ** "1.0000001") /\ RLe(p, Cdf(d, x ++ h) ** "1.0000001")
          /\ RLe(1 -- Cdf(d, x ++ h), (1 -- p) ** "1.000001") /\ RLe(1 -- p, (1 -- Cdf(d, x -- h)) ** "1.000001")
Finite(x) == RIsFin(x)
QLaws(e) ==
  LET d == law
      sure(v) == d.fam \in Quantile \/ Said(v) \/ v = "NaN"
  IN UNION { LET r == e.qs[i] IN
             { <<"inverts", Site("quantile"), sure(r.q) => IsQuantile(d, r.p, r.q)>>,
               <<"inverts", Site("cquantile"), sure(r.cq) => IsQuantile(d, 1 -- r.p, r.cq)>> } : i \in 1..Len(e.qs) }
\* m splits the probability in halves
IsMedian(d, m) == /\ Finite(m)
                  /\ IF d.fam \in Discrete THEN RLe(CdfBelow(d, m), "0.500000000001") /\ RLe("0.499999999999", Cdf(d, m))
                     ELSE LET h == "1e-15" ** (RAbs(m) ++ RAbs(d.p[1]))
                       IN RLe(Cdf(d, m -- h), "0.5000001") /\ RLe("0.4999999", Cdf(d, m ++ h))
QuartLaws(e) ==
  LET d == law
      v == e.v
      sure(f) == d.fam \in Quantile \/ Said(v[f]) \/ v[f] = "NaN"
      scale == RAbs(v.lower_quartile) ++ RAbs(v.upper_quartile)
      rel(f, y) == sure(f) => RNear(v[f], y, "1e-9", "1e-12" ** scale)
  IN { <<"median", Site("median"), IsMedian(d, v.median)>>,
       <<"quartile", Site("lower_quartile"), sure("lower_quartile") => IsQuantile(d, "0.25", v.lower_quartile)>>,
       <<"quartile", Site("upper_quartile"), sure("upper_quartile") => IsQuantile(d, "0.75", v.upper_quartile)>>,
       <<"range", Site("iqr"), rel("iqr", v.upper_quartile -- v.lower_quartile)>>,
       <<"fence", Site("lower_fence"), rel("lower_fence", v.lower_quartile -- ("1.5" ** (v.upper_quartile -- v.lower_quartile)))>>,
       <<"fence", Site("upper_fence"), rel("upper_fence", v.upper_quartile ++ ("1.5" ** (v.upper_quartile -- v.lower_quartile)))>> }
\* log density just inside the support when x is one of its bounds
Inner(d, x) == LET s == "1e-20" ** Width(d)
                   r(b) == s ++ (IF RoundedEdge(d) THEN "4e-16" ** RMax(RAbs(b), RAbs(d.p[1])) ELSE "0")
               IN IF RIsFin(Inf(d)) /\ RLe(x, Inf(d) ++ r(Inf(d))) THEN Inf(d) ++ s
                  ELSE IF RIsFin(Sup(d)) /\ RLe(Sup(d) -- r(Sup(d)), x) THEN Sup(d) -- s ELSE x
LnAtIn(d, x) == IF ~AtEdge(d, x) /\ (RLt(x, Inf(d)) \/ RLt(Sup(d), x)) THEN "-inf" ELSE LnF(d, Inner(d, x))
InfiniteAt(d, x) == \/ /\ RIsFin(Inf(d)) /\ REq(Inner(d, x), Inf(d) ++ ("1e-20" ** Width(d)))
                       /\ RLt(LnF(d, Inf(d) ++ ("1e-10" ** Width(d))) ++ "1e-7", LnF(d, Inner(d, x)))
                    \/ /\ RIsFin(Sup(d)) /\ REq(Inner(d, x), Sup(d) -- ("1e-20" ** Width(d)))
                       /\ RLt(LnF(d, Sup(d) -- ("1e-10" ** Width(d))) ++ "1e-7", LnF(d, Inner(d, x)))
\* no probed point, and no near neighbour, has a greater density
IsMode(d, m, xs) ==
  LET f == LnAtIn(d, m)
      h == "1e-5" ** Width(d)
      le(x, tol) == LET g == LnAtIn(d, x) IN RIsNaN(g) \/ RLe(g, f ++ tol)
  IN \/ (Finite(m) /\ (OnEdge(d, m) \/ AtEdge(d, m)) /\ InfiniteAt(d, m))
     \/ /\ RIsFin(f) /\ (InSupport(d, m) \/ OnEdge(d, m) \/ AtEdge(d, m))
        /\ le(m ++ h, "1e-11") /\ le(m -- h, "1e-11")
        /\ \A i \in 1..Len(xs) : InSupport(d, xs[i]) => le(xs[i], E9)
\* the greatest density is attained, or bounded
Unbounded(d, xs) == \/ LET a == LnAtIn(d, Inf(d)) IN RIsFin(Inf(d)) /\ RLt(LnAtIn(d, Inf(d) ++ ("1e-10" ** Width(d))) ++ "1e-7", a)
                    \/ LET a == LnAtIn(d, Sup(d)) IN RIsFin(Sup(d)) /\ RLt(LnAtIn(d, Sup(d) -- ("1e-10" ** Width(d))) ++ "1e-7", a)
\* every probed point of the support has the same density
EvenDensity(d, xs) == LET in == {i \in 1..Len(xs) : InSupport(d, xs[i]) /\ ~OnEdge(d, xs[i])}
               IN \A i, j \in in : RNear(LnF(d, xs[i]), LnF(d, xs[j]), 0, E9)
\* all values of greatest mass
DiscModes(d) == LET T == TLCEval(DiscTab(d))
                    best == FoldLeft(LAMBDA a, r : RMax(a, r[3]), "-inf", T)
                IN {RNorm(T[i][1]) : i \in {j \in 1..Len(T) : RNear(T[j][3], best, 0, "1e-12")}}
ModesLaws(e) ==
  LET d == law
      reported == RIsSeq(e.at)
  IN IF d.fam \in Discrete
     THEN { <<"modes", Site("modes"), reported /\
               (IF d.fam = "degenerate_f" THEN Len(e.at) = 1 /\ REq(e.at[1], Inf(d))
                ELSE LET M == DiscModes(d) IN {RNorm(e.at[i]) : i \in 1..Len(e.at)} = M /\ Len(e.at) = Cardinality(M))>> }
     ELSE { <<"modes", Site("modes"), IF reported THEN \A i \in 1..Len(e.at) : IsMode(d, e.at[i], e.xs)
                                      ELSE Unbounded(d, e.xs)>>,
            \* a density without bound at both ends has both for modes, or none
            <<"both-modes", Site("modes"), (reported /\ Len(e.at) > 0 /\ RIsFin(Inf(d)) /\ RIsFin(Sup(d)) /\ InfiniteAt(d, Inf(d)) /\ InfiniteAt(d, Sup(d)))
                                            => Len(e.at) = 2>>,
            <<"some-mode", Site("modes"), (reported /\ ~Unbounded(d, e.xs) /\ ~EvenDensity(d, e.xs)) => Len(e.at) > 0>> }

(*------------------- C14: construction and support -----------------------*)
RFloatOr(v) == IF RIsFin(v) THEN RFloat(v) ELSE v
Exact(s) == [i \in 1..Len(s) |-> RFloat(s[i])]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i]) \/ (RIsNaN(a[i]) /\ a[i] = b[i])
\* the standard member of a family: at the origin, of unit scale and shape
Located == {"arcsine", "cauchy", "degenerate_f", "degenerate_i", "folded_normal", "gumbel", "normal", "uniform"}
Standard(d) == [i \in 1..Len(d.p) |-> IF i = 1 /\ d.fam \in Located THEN "0" ELSE "1"]
\* e.g. 1e-300 as an integer parameter: not representable, not asked
BeginLaws(e) ==
  LET d == [fam |-> e.fam, p |-> e.p]
      good == Valid(d)
      site == e.fam \o (IF e.kind = "raw" THEN ".new_unchecked" ELSE IF e.kind = "default" THEN ".default" ELSE ".new")
  IN { <<"admits", site, e.kind = "raw" \/ e.made = (IF good \/ e.fam \in {"degenerate_f", "degenerate_i"} THEN "ok" ELSE "err")>>,
       <<"valid-default", site, e.kind = "default" => good>>,
       <<"standard", site, e.kind = "default" => Same(e.p, Standard(d))>>,
       <<"parameters", site, e.made = "ok" => Same(e.got, e.p)>> }
SupLaws(e) ==
  LET d == law IN
  { <<"bounds", Site("support"), /\ REq(e.inf, Inf(d)) \/ (RoundedEdge(d) /\ RIsFin(e.inf) /\ AtEdge(d, e.inf))
                                 /\ REq(e.sup, Sup(d)) \/ (RoundedEdge(d) /\ RIsFin(e.sup) /\ AtEdge(d, e.sup))>>,
    <<"contains", Site("support"), \A i \in 1..Len(e.has) : LET x == e.has[i][1] IN
         (RoundedEdge(d) /\ AtEdge(d, x)) \/ (e.has[i][2] <=> InSupport(d, x))>> }
Agree(a, b) == REq(a, b) \/ RNear(a, b, "1e-12", "1e-300") \/ (~Said(a) /\ a = b)
TwinLaws(e) ==
  LET s == Site(e.how) IN
  { <<"parameters", s, Same(Exact(e.par), law.p)>>,
    <<"support", s, (REq(e.inf, Inf(law)) \/ AtEdge(law, e.inf)) /\ (REq(e.sup, Sup(law)) \/ AtEdge(law, e.sup))>>,
    <<"equal-law", s, /\ \A i \in 1..Len(e.same) : LET r == e.same[i] IN Agree(r[2], r[3]) /\ Agree(r[4], r[5])
                      /\ Len(e.mom) = 2 => \A f \in DOMAIN e.mom[1] : Agree(e.mom[1][f], e.mom[2][f])>> }

(*------------------ C17: entropy and Fisher information ------------------*)
EntLaws(e) == LET t == Table(law) IN
  { <<"entropy", Site("shannon_entropy"), RNear(Total(t), 1, 0, E9) => RNear(e.h, Entropy(t), "1e-7", "1e-7")>> }
FisherPos == CASE law.fam = "binomial" -> <<2>> [] OTHER -> [i \in 1..Len(law.p) |-> i]
FisherLaws(e) ==
  LET d == law
      t == Table(d)
      degenerate == d.fam \in {"bernoulli", "binomial"} /\ (LET q == d.p[Len(d.p)] IN REq(q, 0) \/ REq(q, 1))
      I == Fisher(d, t, FisherPos)
      n == Len(FisherPos)
      scale(i, j) == RSqrt(I[i][i] ** I[j][j])
  IN { <<"fisher", Site("fisher_information"),
         degenerate \/ ~RNear(Total(t), 1, 0, E9) \/ (/\ RIsSeq(e.i) /\ Len(e.i) = n
                        /\ \A i, j \in 1..n : RNear(e.i[i][j], I[i][j], "1e-6", "1e-6" ** scale(i, j)))>> }

(*--------------- C20: printed forms and derived readings -----------------*)
\* <<text with # for each number, the numbers>>
Printed(d) ==
  LET p == d.p
      as(name) == << name \o "(" \o (CASE Len(p) = 1 -> "#" [] Len(p) = 2 -> "#, #" [] OTHER -> "#, #, #") \o ")", p >>
  IN CASE d.fam = "arcsine" -> << "Arcsine(#, #)", <<p[1], p[1] ++ p[2]>> >>
       [] d.fam = "beta" -> as("Beta")
       [] d.fam = "beta_prime" -> as("BetaPrime")
       [] d.fam = "beta_binomial" -> as("BB")
       [] d.fam = "bernoulli" -> as("Ber")
       [] d.fam = "binomial" -> as("Bin")
       [] d.fam = "cauchy" -> as("Cauchy")
       [] d.fam = "chi" -> as("Chi")
       [] d.fam = "chi_sq" -> as("ChiSq")
       [] d.fam = "cosine" -> as("Cosine")
       [] d.fam \in {"degenerate_f", "degenerate_i"} -> << "δ(x - #)", p >>
       [] d.fam = "erlang" -> as("Erlang")
       [] d.fam = "exponential" -> as("Exp")
       [] d.fam = "f_dist" -> as("F")
       [] d.fam = "folded_normal" -> as("FN")
       [] d.fam = "frechet" -> as("Frechet")
       [] d.fam = "gamma" -> as("Gamma")
       [] d.fam = "geometric" -> as("Geometric")
       [] d.fam = "gev" -> as("GEV")
       [] d.fam = "gpd" -> as("GPD")
       [] d.fam = "gumbel" -> as("Gumbel")
       [] d.fam = "inverse_gamma" -> as("Inv-Gamma")
       [] d.fam = "inverse_normal" -> as("IG")
       [] d.fam = "kumaraswamy" -> as("Kumaraswamy")
       [] d.fam = "laplace" -> as("Laplace")
       [] d.fam = "levy" -> as("Levy")
       [] d.fam = "logistic" -> as("Logistic")
       [] d.fam = "lognormal" -> as("LogNormal")
       [] d.fam = "normal" -> as("N")
       [] d.fam = "pareto" -> as("Pareto")
       [] d.fam = "poisson" -> as("Poi")
       [] d.fam = "rayleigh" -> as("Rayleigh")
       [] d.fam = "student_t" -> as("StudentT")
       [] d.fam = "triangular" -> << "Triangular(#, #, #)", <<p[1], (p[1] ++ p[2]) ++ p[3], p[1] ++ p[2]>> >>
       [] d.fam = "uniform" -> << "U(#, #)", <<p[1], p[1] ++ p[2]>> >>
       [] d.fam = "uniform_int" -> << "U{#, #}", <<p[1], p[1] ++ p[2]>> >>
       [] d.fam = "weibull" -> as("Weibull")
       [] OTHER -> << "-", p >>
Rounded(v, x, most) == RNear(v, x, 0, "2e-16" ** most)
ShowLaws(e) ==
  LET P == Printed(law)
      most == RSum([i \in 1..Len(law.p) |-> RAbs(law.p[i])])
  IN { <<"printed", Site("fmt"), law.fam = "categorical" \/ e.text = P[1]>>,
       <<"printed", Site("fmt"), /\ Len(e.nums) = Len(P[2])
                                 /\ \A i \in 1..Len(P[2]) : LET v == e.nums[i] IN
                                      IF i <= Len(law.p) /\ P[2][i] = law.p[i] THEN REq(RFloat(v), P[2][i]) ELSE Rounded(v, P[2][i], most ** 4)>> }
Reading(d, name, x) ==
  LET p == d.p IN
  CASE d.fam = "arcsine" /\ name = "b" -> p[1] ++ p[2]
    [] d.fam = "cauchy" /\ name = "fwhm" -> 2 ** p[2]
    [] d.fam = "erlang" /\ name = "mu" -> 1 // p[2]
    [] d.fam = "folded_normal" /\ name = "precision" -> 1 // Sq(p[2])
    [] d.fam = "gumbel" /\ name = "z" -> (x -- p[1]) // p[2]
    [] d.fam = "normal" /\ name = "z" -> (x -- p[1]) // RSqrt(p[2])
    [] d.fam = "normal" /\ name = "precision" -> 1 // p[2]
    [] d.fam = "normal" /\ name = "width" -> 2 // p[2]
    [] d.fam = "triangular" /\ name = "c" -> p[1] ++ p[2]
    [] d.fam = "triangular" /\ name = "b" -> (p[1] ++ p[2]) ++ p[3]
    [] d.fam \in {"uniform", "uniform_int"} /\ name = "lb" -> p[1]
    [] d.fam \in {"uniform", "uniform_int"} /\ name = "width" -> p[2]
    [] d.fam = "uniform_int" /\ name = "span" -> p[2] ++ 1
    [] OTHER -> "NaN"
AccLaws(e) ==
  LET v == Reading(law, e.name, e.x)
      lose == CASE e.name \in {"b", "c"} -> "1e-15" ** RSum([i \in 1..Len(law.p) |-> RAbs(law.p[i])])
                [] e.name = "z" -> ("1e-15" ** (RAbs(e.x) ++ RAbs(law.p[1]))) // (IF law.fam = "normal" THEN RSqrt(law.p[2]) ELSE law.p[2])
                [] OTHER -> "0"
  IN { <<"reading", Site(e.name), RNear(e.v, v, "1e-14", lose)>> }
ProbLaws(e) == { <<"printed", "Probability.fmt", e.text = "#" /\ Len(e.nums) = 1 /\ REq(RFloat(e.nums[1]), RFloat(e.p))>> }

Laws(e) ==
  CASE e.ev = "begin" -> IF Prop = "C14" THEN BeginLaws(e) ELSE {}
    [] e.ev = "prob" -> ProbLaws(e)
    [] ~ok -> {}
    [] e.ev = "show" -> ShowLaws(e)
    [] e.ev = "acc" -> AccLaws(e)
    [] e.ev = "pt" -> LET x == [e EXCEPT !.x = IF law.fam \in Discrete THEN @ ELSE RFloat(@)] IN IF Prop = "C08" THEN PtLaws08(x) ELSE PtLaws09(x)
    [] ~Narrow(law) /\ e.ev \in {"mom", "modes", "ent", "fisher"} -> {}
    [] e.ev = "mom" -> MomLaws(e)
    [] e.ev = "q" -> QLaws([e EXCEPT !.qs = [i \in 1..Len(@) |-> [f \in DOMAIN @[i] |-> RFloatOr(@[i][f])]]])
    [] e.ev = "quart" -> QuartLaws([e EXCEPT !.v = [f \in DOMAIN @ |-> RFloatOr(@[f])]])
    [] e.ev = "modes" -> ModesLaws([e EXCEPT !.xs = Exact(@), !.at = IF RIsSeq(@) THEN Exact(@) ELSE @])
    [] e.ev = "sup" -> SupLaws([e EXCEPT !.inf = RFloat(@), !.sup = RFloat(@), !.has = [i \in 1..Len(@) |-> <<IF law.fam \in Discrete THEN @[i][1] ELSE RFloat(@[i][1]), @[i][2]>>]])
    [] e.ev = "twin" -> TwinLaws([e EXCEPT !.inf = RFloat(@), !.sup = RFloat(@)])
    [] e.ev = "ent" -> EntLaws(e)
    [] e.ev = "fisher" -> FisherLaws(e)
Init == l = 1 /\ law = [fam |-> "-", p |-> << >>] /\ ok = FALSE /\ last = [seen |-> FALSE, F |-> "0"]
Next == /\ Consume(Broken(Laws(Ev)))
        /\ IF Ev.ev = "begin"
           THEN law' = [fam |-> Ev.fam, p |-> Exact(Ev.p)] /\ ok' = (Ev.made = "ok") /\ last' = [seen |-> FALSE, F |-> "0"]
           ELSE UNCHANGED <<law, ok>> /\ last' = (IF Ev.ev = "pt" THEN [seen |-> TRUE, F |-> Ev.cdf] ELSE last)
=============================================================================
