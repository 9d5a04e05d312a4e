---------------------------- MODULE TraceMixture ----------------------------
(* The implementation's mixtures against Mixture, Sampling.                  *)
EXTENDS Mixture, TraceBase
S == INSTANCE Sampling
VARIABLES mix, ok
Site(f) == "mixture." \o f
Z0(v) == REq(v, 0)
E7 == "1e-7"
Said(v) == RIsFin(v) \/ v \in {"inf", "-inf"}
NotOfferedCdf == {"poisson", "beta_binomial"}
NoCdf == mix.c[1].fam \in NotOfferedCdf
EdgeOf(x) == \E i \in Live(mix) : OnEdge(mix.c[i], x)
PtLaws(e) ==
  LET F == MCdf(mix, e.x)
      f == MDen(mix, e.x)
  IN (IF NoCdf THEN {} ELSE
      { <<"cumulative", Site("cdf"), RNear(e.cdf, F, 0, E7)>>,
        <<"probability", Site("cdf"), RLe(0, e.cdf) /\ RLe(e.cdf, 1)>>,
        <<"complement", Site("ccdf"), RNear(e.ccdf, 1 -- e.cdf, 0, "1e-14") /\ RLe(0, e.ccdf)>>,
        <<"logarithm", Site("log_cdf"), RNear(RExp(e.lcdf), e.cdf, "1e-9", "1e-12")>> })
     \cup (IF e.den = "-" \/ EdgeOf(e.x) THEN {} ELSE
      { <<"density", Site("pdf"), RLe(0, e.den) /\ RNear(e.den, f, E7, "1e-250")>>,
        <<"logarithm", Site("log_pdf"), IF RLt("1e-280", e.den) THEN RNear(e.lden, RLn(e.den), "1e-9", "1e-9") ELSE RLt(e.lden, "-600")>> })
MomLaws(e) ==
  LET m == MMoments(mix)
      sd == RSqrt(m.var)
  IN (IF Ready(mix, 1) THEN {<<"moment", Site("mean"), RNear(e.mean, m.mean, E7, IF Ready(mix, 2) THEN "1e-8" ** sd ELSE "1e-9")>>}
      ELSE {<<"moment", Site("mean"), e.mean # "NaN" /\ (Finite(mix, 1) \/ ~RIsFin(e.mean))>>})
     \cup (IF Ready(mix, 2) THEN {<<"moment", Site("variance"), RNear(e.variance, m.var, "1e-6", "1e-300")>>,
                                  <<"moment", Site("standard_deviation"), RNear(e.sd, sd, "1e-6", "1e-300")>>}
           ELSE {<<"moment", Site("variance"), e.variance # "NaN" /\ (Finite(mix, 2) \/ ~RIsFin(e.variance))>>})
NearTo(x, b) == REq(x, b) \/ RNear(x, b, "1e-15", "4e-16" ** RAbs(mix.c[1].p[1])) \/ (RIsFin(x) /\ RIsFin(b) /\ NearHullEdge(mix, x) /\ RNear(x, b, "1e-14", "1e-14"))
SupLaws(e) == { <<"hull", Site("support"), NearTo(e.inf, MInf(mix)) /\ NearTo(e.sup, MSup(mix))>>,
                <<"contains", Site("support"), \A i \in 1..Len(e.has) : LET x == e.has[i][1] IN NearHullEdge(mix, x) \/ (e.has[i][2] <=> InHull(mix, x))>> }
SameNums(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
\* (weights need not be kept to the last bit, parameters do)
ParLaws(e) == LET s == Site(e.how) IN
  { <<"weights", s, Len(e.w) = Len(mix.w) /\ \A i \in 1..Len(e.w) : RNear(e.w[i], mix.w[i], 0, "1e-15")>>,
    <<"components", s, Len(e.ps) = Len(mix.c) /\ \A i \in 1..Len(e.ps) : SameNums(e.ps[i], mix.c[i].p)>>,
    <<"same-mixture", s, \A i \in 1..Len(e.same) : LET r == e.same[i] IN (r[2] = r[3]) /\ (r[4] = r[5])>>,
    <<"same-support", s, e.bounds[1] = e.bounds[2]>> }
Near(c, n, q) == LET p == c // n
                     v == RMax(p ** (1 -- p), q ** (1 -- q))
                 IN RLe(RAbs(p -- q), (8 ** RSqrt(v // n)) ++ (60 // n))
Possible(x) == \E i \in Live(mix) : InSupport(mix.c[i], x) \/ (mix.c[i].fam \notin Discrete /\ OnEdge(mix.c[i], x))
SampleLaws(e) ==
  { <<"in-support", Site("sample"), e.outside = "0" /\ e.nan = "0" /\ \A i \in 1..Len(e.ranks) : Possible(e.ranks[i][1])>>,
    <<"distributed", Site("sample"), \A i \in 1..Len(e.ranks) : LET r == e.ranks[i] IN
         /\ Near(r[3], e.n, MCdf(mix, r[1])) /\ Near(r[2], e.n, MCdfBelow(mix, r[1]))>>,
    <<"independent", Site("sample"), Near(e.both, RFloor(e.n // 2), Sq(MCdf(mix, e.med)))>> }
HistLaws(e) ==
  LET want == S!Returned(e.ops, e.stream)
  IN { <<"one-at-a-time", Site("sample_n"), Len(e.got) = Len(want) /\ \A i \in 1..Len(want) : e.got[i] = want[i]>>,
       <<"generator", Site("sample_n"), e.rng[1] = e.rng[2]>>, <<"unaltered", Site("sample"), e.par[1] = e.par[2]>> }
Given(e) == [w |-> e.w, c |-> [i \in 1..Len(e.ps) |-> [fam |-> e.fam, p |-> e.ps[i]]]]
BeginLaws(e) == { <<"admits", Site("new"), e.made = (IF e.kind = "raw" \/ ValidMix(Given(e)) THEN "ok" ELSE "err")>>,
                  <<"components", Site("n_components"), e.made = "ok" => e.n = ToString(Len(e.w))>> }
Laws(e) ==
  CASE e.ev = "begin" -> BeginLaws(e)
    [] ~ok -> {}
    [] e.ev = "pt" -> PtLaws(e)
    [] e.ev = "mom" -> MomLaws(e)
    [] e.ev = "sup" -> SupLaws(e)
    [] e.ev = "par" -> ParLaws(e)
    [] e.ev = "mismatch" -> { <<"rejects-mismatch", Site("from"), e.made # "ok">> }
    [] e.ev = "samples" -> SampleLaws(e)
    [] e.ev = "hist" -> HistLaws(e)
    [] e.ev = "nosample" -> { <<"offered", Site("sample"), FALSE>> }
Init == l = 1 /\ mix = [w |-> << >>, c |-> << >>] /\ ok = FALSE
Next == /\ Consume(Broken(Laws(Ev)))
        /\ IF Ev.ev = "begin" THEN mix' = Given(Ev) /\ ok' = (Ev.made = "ok") ELSE UNCHANGED <<mix, ok>>
=============================================================================
