---------------------------- MODULE TraceFitting ----------------------------
(* Likelihoods, scores and fits of the implementation against Fitting.       *)
EXTENDS Fitting, TraceBase
VARIABLE law
Site(f) == law.fam \o "." \o f
Flat2(d) == d.fam \in {"bernoulli"} /\ (REq(d.p[1], 0) \/ REq(d.p[1], 1))
LikLaws(e) ==
  LET d == law
      terms == LnTerms(d, e.xs)
      ll == RSum(terms)
      in == RIsFin(ll)
      tol == "1e-10" ** Weight(terms)
      S == ScoreOf(d, e.xs)
  IN { <<"log-likelihood", Site("log_likelihood"), IF in THEN RNear(e.ll, ll, 0, tol) ELSE e.ll = "-inf">>,
       <<"log-likelihood", Site("log_likelihood.reversed"), IF in THEN RNear(e.rev, ll, 0, tol) ELSE e.rev = "-inf">>,
       <<"likelihood", Site("likelihood"), IF in /\ RLt("-700", ll) /\ RLt(ll, 700)
                                           THEN RLt(0, e.lik) /\ RNear(RLn(e.lik), ll, 0, tol)
                                           ELSE IF RLt(ll, 0) THEN RLe(e.lik, "1e-300") /\ RLe(0, e.lik) ELSE RLe("1e300", e.lik)>> }
     \cup (IF ~in \/ Flat2(d) THEN {} ELSE
           { <<"score", Site("score"), Len(e.score) = Len(S) /\ \A i \in 1..Len(S) : RNear(e.score[i], S[i][1], 0, "1e-9" ** (S[i][2] ++ "1e-3"))>> })
FitLaws(e) ==
  LET fam == law.fam
      xs == e.xs
      n == Len(xs)
      exists == HasFit(fam, xs)
      got == [fam |-> fam, p |-> e.p]
  IN { <<"fit", Site("fit_mle"), (e.made = "ok") <=> exists>>,
       <<"admissible", Site("fit_mle"), e.made = "ok" => Valid(got)>>,
       <<"best", Site("fit_mle"), (e.made = "ok" /\ Valid(got)) =>
            LET best == LogLik(got, xs)
                tol == "1e-9" ** Weight(LnTerms(got, xs))
            IN \A r \in Rivals(got) \cup (IF exists THEN {Fit(fam, xs)} ELSE {}) : RLe(LogLik(r, xs), best ++ tol)>> }
Laws(e) ==
  CASE e.ev = "begin" -> { <<"admits", Site("new"), e.made = "ok">> }
    [] e.ev = "lik" -> LikLaws(e)
    [] e.ev = "fit" -> FitLaws(e)
Init == l = 1 /\ law = [fam |-> "-", p |-> << >>]
Next == /\ Consume(Broken(Laws(Ev)))
        /\ law' = (IF Ev.ev = "begin" THEN [fam |-> Ev.fam, p |-> Ev.p] ELSE law)
=============================================================================
