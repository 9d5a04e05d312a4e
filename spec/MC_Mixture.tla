----------------------------- MODULE MC_Mixture -----------------------------
(* Walks every mixture of the catalogue along its probe points from the      *)
(* left; acc accumulates the density (mass).                                 *)
EXTENDS Catalogue, Mixture, Json
CONSTANTS Share, Many, Step
VARIABLES mix, k, acc
Weights == << <<"1">>, <<"0.3", "0.7">>, <<"0", "1">>, <<"0.2", "0.5", "0.3">>, <<"0.5", "0", "0.5">>, <<"0.1", "0.2", "0.3", "0.15", "0.25">>, <<"0.1", "0.7", "0.2">> >>
MFams == {"normal", "uniform", "uniform_int", "exponential", "gamma", "beta", "triangular", "pareto", "cauchy", "laplace", "gpd", "student_t",
          "weibull", "poisson", "binomial", "bernoulli", "geometric", "degenerate_f", "cosine", "levy", "lognormal", "chi_sq"}
FamLaws(f) == TLCEval([i \in 1..Len(Grid[f]) |-> D(f, Grid[f][i])] \o [j \in 1..3 |-> RandLaw(CHOOSE t \in 1..Len(FamSeq) : FamSeq[t] = f, j)])
Build(f, L, w, o) == [fam |-> f, w |-> w, c |-> [i \in 1..Len(w) |-> L[1 + ((o + 2 * i) % Len(L))]]]
RandW(j) == LET us == Uniforms(500 + j, 4)
                a == Dec((1 + (us[1] % 50)) // 200, 3)
                b == Dec((1 + (us[2] % 50)) // 200, 3)
            IN << a, b, 1 -- (a ++ b) >>
MixesOf(f) == LET L == FamLaws(f) IN
              {Build(f, L, Weights[i], i + o) : i \in 1..Len(Weights), o \in 0..(Many - 1)} \cup {Build(f, L, RandW(j), 3 * j) : j \in 1..Many}
Mixes == TLCEval(UNION {MixesOf(f) : f \in MFams}
         \cup {[fam |-> "normal", w |-> <<"0.5", "0.5">>, c |-> <<D("normal", <<"1e8", "1">>), D("normal", <<"100000001", "4">>)>>],
               [fam |-> "beta", w |-> <<"0", "1">>, c |-> <<D("beta", <<"0.5", "0.5">>), D("beta", <<"2", "3">>)>>],
               [fam |-> "pareto", w |-> <<"0", "1">>, c |-> <<D("pareto", <<"1", "0.5">>), D("pareto", <<"2", "5">>)>>],
               [fam |-> "pareto", w |-> <<"0.5", "0.5">>, c |-> <<D("pareto", <<"1", "1.5">>), D("pareto", <<"2", "5">>)>>]})
Bad == UNION {{[fam |-> f, w |-> w, c |-> [i \in 1..Len(w) |-> D(f, Grid[f][1])]] :
          w \in {<<"0.3", "0.6">>, <<"-0.5", "1.5">>, <<"NaN", "1">>, <<"0.5", "0.501">>, <<"0.9">>, <<"1.1">>, <<"0", "0">>, <<"1", "1">>, <<"inf", "0">>}} : f \in {"normal", "poisson"}}
N(a, b) == D("normal", <<a, b>>)
Nested == { [w |-> <<"0.4", "0.6">>, ms |-> << [w |-> <<"0.5", "0.5">>, c |-> << N("0", "1"), N("3", "0.25") >>], [w |-> <<"0.1", "0.9">>, c |-> << N("-5", "2"), N("10", "9") >>] >>],
            [w |-> <<"1", "0">>, ms |-> << [w |-> <<"0.25", "0.75">>, c |-> << N("1", "1"), N("-1", "4") >>], [w |-> <<"0.5", "0.5">>, c |-> << N("100", "1"), N("200", "1") >>] >>] }
PtsOf(m) == TLCEval(SetToSortSeq(UNION {{RNorm(x) : x \in {y \in {Probes(m.c[i])[t] : t \in 1..Len(Probes(m.c[i]))} : RIsFin(y)}} : i \in Idx(m)}, LAMBDA x, y : RLt(x, y)))
MixSeq == TLCEval(SetToSeq(Mixes))
Walked == TLCEval({MixSeq[i] : i \in {j \in 1..Len(MixSeq) : j % Share = Seed % Share}})
Between(d, a, b) ==
  IF RLe(b, a) THEN "0"
  ELSE LET t == PieceTab(d, LnC(d), [k |-> "fin", a |-> a, s |-> b -- a, fine |-> FALSE]) IN RSum(TLCEval([i \in 1..Len(t) |-> t[i][2]]))
Inside(m, x) == InHull(m, x) /\ RLt(RAbs(x), "1e12")
Spread(s) == [i \in 1..((Len(s) + Step - 1) \div Step) |-> s[1 + (Step * (i - 1))]]
Pts == TLCEval([m \in Walked |-> Spread(SelectSeq(PtsOf(m), LAMBDA x : Inside(m, x)))])
Clip(d, a, b) == LET lo == RMax(a, Inf(d))
                     hi == RMin(b, Sup(d))
                 IN IF d.fam \in Discrete THEN Cdf(d, b) -- Cdf(d, a) ELSE Between(d, lo, hi)
Init == mix \in Walked /\ k = 0 /\ acc = "0"
X == Pts[mix][k]
Advance == /\ k < Len(Pts[mix])
           /\ k' = k + 1
           /\ acc' = (IF k = 0 THEN MCdf(mix, Pts[mix][1])
                      ELSE LET F(d) == Clip(d, Pts[mix][k], Pts[mix][k + 1]) IN acc ++ Over(mix, F))
           /\ UNCHANGED mix
Next == Advance
IsCdf == k > 0 => LET F == MCdf(mix, X) IN
                  /\ RNear(acc, F, 0, "1e-6") /\ RLe(0, F) /\ RLe(F, 1)
                  /\ k > 1 => RLe(MCdf(mix, Pts[mix][k - 1]), F)
Hull == k > 0 => /\ \A i \in Idx(mix) : InSupport(mix.c[i], X) => InHull(mix, X)
                 /\ InHull(mix, X) => (RLe(MInf(mix), X) /\ RLe(X, MSup(mix)))
Moments1 == (k = 1 /\ Finite(mix, 2) /\ Ready(mix, 2)) => RLe(0, MMoments(mix).var)
\* the flat mixture is the mixture of the mixtures
ASSUME \A n \in Nested : \A x \in {"-4", "0", "2.5", "11"} :
         RNear(MCdf(Flatten(n.w, n.ms), x), RSum([i \in 1..Len(n.w) |-> n.w[i] ** MCdf(n.ms[i], x)]), 0, "1e-30")
In(kind, m, xs) == [kind |-> kind, fam |-> m.fam, w |-> m.w, ps |-> [i \in 1..Len(m.c) |-> m.c[i].p], xs |-> xs]
Thin(s) == [i \in 1..((Len(s) + 1) \div 2) |-> s[2 * i - 1]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/mix.in",
   SetToSeq({In("mix", m, Thin(PtsOf(m))) : m \in Mixes}) \o SetToSeq({In("bad", m, << >>) : m \in Bad})
   \o SetToSeq({[kind |-> "nested", fam |-> "normal", w |-> n.w, inner |-> [i \in 1..2 |-> [w |-> n.ms[i].w, ps |-> [j \in 1..2 |-> n.ms[i].c[j].p]]],
                 xs |-> PtsOf(Flatten(n.w, n.ms))] : n \in Nested}))
=============================================================================
