----------------------------- MODULE MC_Fitting -----------------------------
(* Observations arrive one at a time; the running log-likelihood is that of  *)
(* the whole list in any order, the score is its slope, and no rival does    *)
(* better than the fit.                                                      *)
EXTENDS Catalogue, Fitting, Json
CONSTANTS Depth, NLong
VARIABLES law, seen, ll
Paired == { D("paired_normal", <<"0", "0", "1", "1">>), D("paired_normal", <<"-3", "20", "0.25", "9">>), D("paired_normal", <<"1.5", "-0.5", "4", "100">>) }
LawSet == TLCEval({d \in Usual : d.fam \in Scored} \cup Paired)
FarPaired == { D("paired_normal", <<"1e8", "-1e8", "1e-10", "1e10">>), D("paired_normal", <<"0", "0", "1e50", "1e-50">>) }
AllLaws == TLCEval({d \in Laws : d.fam \in Scored /\ ~(d.fam = "gamma" /\ RLt("1e20", d.p[2]))} \cup Paired \cup FarPaired)
NormalPool == <<"-3", "0", "0.5", "2.25", "1000", "-1e-7">>
Pool == [bernoulli |-> <<"0", "1">>,
         beta |-> <<"1e-12", "1e-250", "0.01", "0.3", "0.77", "0.9999999", "-0.5", "1.5">>,
         gamma |-> <<"1e-30", "1e-10", "0.05", "1", "3.7", "40", "-1">>,
         poisson |-> <<"0", "1", "2", "7", "30", "170", "1000">>,
         normal |-> NormalPool,
         paired_normal |-> << <<"0", "0">>, <<"-3", "20">>, <<"0.5", "-100">>, <<"1e-7", "3">> >>]
LongOf(k, n, f) == LET us == Uniforms(k, n) IN [i \in 1..n |-> Pool[f][1 + (us[i] % Len(Pool[f]))]]
Long == TLCEval(UNION {{[fam |-> f, xs |-> LongOf(31 * j + 7, 4 + j, f)] : j \in 1..NLong} : f \in Scored})
InPool(d) == IF d.fam = "paired_normal" THEN Pool[d.fam] ELSE SelectSeq(Pool[d.fam], LAMBDA x : InSupport(d, x))
Init == law \in LawSet /\ seen = << >> /\ ll = "0"
Observe(x) == /\ Len(seen) < Depth
              /\ seen' = Append(seen, x)
              /\ ll' = ll ++ LnObs(law, x)
              /\ UNCHANGED law
Next == \E i \in 1..Len(InPool(law)) : Observe(InPool(law)[i])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == RNear(LogLik(law, Rev(seen)), ll, "1e-40", "1e-40")
\* slope over a finite step
Coarse(i) == LET e == "1e-6" ** RMax(RAbs(law.p[i]), "1e-3")
                 up == LogLik(Moved(law, i, e), seen)
                 dn == LogLik(Moved(law, i, RNeg(e)), seen)
             IN (up -- dn) // (2 ** e)
ScoreIsSlope == (Len(seen) = Depth /\ ~(law.fam = "bernoulli" /\ law.p[1] \in {"0", "1"})) =>
                LET s == ScoreOf(law, seen) IN \A i \in 1..Len(law.p) : RNear(s[i][1], Coarse(i), "1e-6", "1e-4" ** (1 ++ s[i][2]))
FitIsBest == (law.fam \in Fitted /\ HasFit(law.fam, seen)) =>
             LET d == Fit(law.fam, seen)
                 best == LogLik(d, seen)
             IN \A r \in Rivals(d) \cup {law} : RLe(LogLik(r, seen), best ++ "1e-30")
RECURSIVE Lists(_, _)
Lists(S, n) == IF n = 0 THEN {<< >>} ELSE Lists(S, n - 1) \cup {Append(s, x) : s \in {t \in Lists(S, n - 1) : Len(t) = n - 1}, x \in S}
ListsOf(f) == Lists({Pool[f][i] : i \in 1..Len(Pool[f])}, 2) \cup {e.xs : e \in {q \in Long : q.fam = f}}
Inputs == SetToSeq({[fam |-> d.fam, p |-> d.p, lists |-> SetToSeq(ListsOf(d.fam))] : d \in AllLaws})
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/fit.in", Inputs)
=============================================================================
