--------------------------- MODULE TraceSampling ---------------------------
(* Samples drawn from the implementation, against the law they should follow *)
(* (Families) and the reading of the generator (Sampling).  Statistical laws *)
(* allow eight standard deviations.                                          *)
EXTENDS Expect, TraceBase, SequencesExt
S == INSTANCE Sampling
VARIABLES law, ok
Site(f) == law.fam \o "." \o f
NoSampler == {"arcsine", "beta_prime", "chi", "cosine", "erlang", "gev", "gpd", "gumbel", "inverse_gamma", "levy", "logistic",
              "rayleigh", "beta_binomial", "multinomial"}
Said(v) == RIsFin(v) \/ v \in {"inf", "-inf"}
Near(c, n, q) == LET p == c // n
                     v == RMax(p ** (1 -- p), q ** (1 -- q))
                 IN RLe(RAbs(p -- q), (8 ** RSqrt(v // n)) ++ (60 // n))
Below(d, x) == IF d.fam \in Discrete THEN CdfBelow(d, x) ELSE Cdf(d, x)
\* r = <<x, number of samples < x, number of samples <= x>>
RankOk(d, n, r) == /\ Near(r[3], n, Cdf(d, r[1]))
                   /\ d.fam \in Discrete => Near(r[2], n, CdfBelow(d, r[1]))
Possible(d, x) == InSupport(d, x) \/ (d.fam \notin Discrete /\ OnEdge(d, x))
MassOk(d, x) == d.fam \in Discrete \ {"degenerate_f"} => RLt(0, Mass(d, x))
SampleLaws(e) ==
  LET d == law IN
  { <<"in-support", Site("sample"), /\ e.outside = "0" /\ e.nan = "0"
                                    /\ \A i \in 1..Len(e.ranks) : Possible(d, e.ranks[i][1]) /\ MassOk(d, e.ranks[i][1])>>,
    <<"distributed", Site("sample"), \A i \in 1..Len(e.ranks) : RankOk(d, e.n, e.ranks[i])>>,
    <<"independent", Site("sample"), LET F == Cdf(d, e.med) IN Near(e.both, RFloor(e.n // 2), Sq(F))>> }
HistLaws(e) ==
  LET want == S!Returned(e.ops, e.stream)
      same == Len(e.got) = Len(want) /\ \A i \in 1..Len(want) : e.got[i] = want[i]
  IN { <<"count", Site("sample_n"), Len(e.got) = Len(e.ops) /\ \A i \in 1..Len(e.ops) : RIsSeq(e.got[i]) /\ Len(e.got[i]) = S!Size(e.ops[i])>>,
       <<"one-at-a-time", Site("sample_n"), same>>,
       <<"generator", Site("sample_n"), e.rng[1] = e.rng[2]>>,
       <<"unaltered", Site("sample"), e.par[1] = e.par[2]>> }
ExtremeLaws(e) == { <<"in-support", Site("sample"), e.inside /\ RIsFin(e.x) /\ Possible(law, e.x)>> }
Laws(e) ==
  CASE e.ev = "begin" -> {}
    [] ~ok -> {}
    [] e.ev = "samples" -> SampleLaws(e)
    [] e.ev = "hist" -> HistLaws(e)
    [] e.ev = "extreme" -> ExtremeLaws(e)
    [] e.ev = "nosample" -> { <<"offered", Site("sample"), law.fam \in NoSampler>> }
Init == l = 1 /\ law = [fam |-> "-", p |-> << >>] /\ ok = FALSE
Next == /\ Consume(Broken(Laws(Ev)))
        /\ IF Ev.ev = "begin" THEN law' = [fam |-> Ev.fam, p |-> Ev.p] /\ ok' = (Ev.made = "ok") ELSE UNCHANGED <<law, ok>>
=============================================================================
