-------------------------- MODULE MC_Convolution --------------------------
(* A pool of independent variables.  A step takes two of them, adds them up  *)
(* and puts the sum in the place of the first; or adds several to one.       *)
(* However the pool is brought down to a single variable, its law is the     *)
(* same, means and variances have added up, and (checked once per pair)      *)
(* the law of a sum is the convolution of the two densities.                 *)
EXTENDS Catalogue, Convolution, Json
VARIABLES start, pool, steps, refused
S(fs) == [i \in 1..Len(fs) |-> D(fs[i][1], fs[i][2])]
Starts == {
  S(<< <<"bernoulli", <<"0.3">>>>, <<"bernoulli", <<"0.3">>>> >>),
  S(<< <<"bernoulli", <<"0.3">>>>, <<"bernoulli", <<"0.30000001">>>> >>),
  S(<< <<"bernoulli", <<"1">>>>, <<"bernoulli", <<"1">>>>, <<"bernoulli", <<"1">>>> >>),
  S(<< <<"bernoulli", <<"0.7">>>>, <<"bernoulli", <<"0.7">>>>, <<"bernoulli", <<"0.7">>>>, <<"bernoulli", <<"0.7">>>> >>),
  S(<< <<"binomial", <<"3", "0.25">>>>, <<"bernoulli", <<"0.25">>>>, <<"binomial", <<"5", "0.25">>>>, <<"bernoulli", <<"0.25">>>> >>),
  S(<< <<"binomial", <<"3", "0.25">>>>, <<"bernoulli", <<"0.75">>>>, <<"binomial", <<"5", "0.25">>>> >>),
  S(<< <<"binomial", <<"3", "0.25">>>>, <<"binomial", <<"3", "0.26">>>>, <<"binomial", <<"4", "0.26">>>> >>),
  S(<< <<"binomial", <<"40", "0.04">>>>, <<"binomial", <<"300", "0.04">>>>, <<"binomial", <<"2", "0.04">>>> >>),
  S(<< <<"cauchy", <<"0", "1">>>>, <<"cauchy", <<"-3", "0.25">>>>, <<"cauchy", <<"7.5", "4">>>> >>),
  S(<< <<"cauchy", <<"5", "0.5">>>>, <<"cauchy", <<"-20", "3">>>> >>),
  S(<< <<"chi_sq", <<"1">>>>, <<"chi_sq", <<"4">>>>, <<"chi_sq", <<"2">>>>, <<"chi_sq", <<"9">>>> >>),
  S(<< <<"gamma", <<"0.5", "2">>>>, <<"gamma", <<"3.25", "2">>>>, <<"exponential", <<"2">>>> >>),
  S(<< <<"gamma", <<"0.5", "2">>>>, <<"gamma", <<"3.25", "2.5">>>>, <<"exponential", <<"2">>>> >>),
  S(<< <<"gamma", <<"3", "2">>>>, <<"exponential", <<"0.5">>>>, <<"exponential", <<"3">>>> >>),
  S(<< <<"gamma", <<"0.4", "0.1">>>>, <<"exponential", <<"0.1">>>>, <<"exponential", <<"0.1">>>>, <<"gamma", <<"2", "0.1">>>> >>),
  S(<< <<"normal", <<"0", "1">>>>, <<"normal", <<"-3", "0.25">>>>, <<"normal", <<"20", "9">>>> >>),
  S(<< <<"normal", <<"0.1", "0.2">>>>, <<"normal", <<"0.7", "1e-4">>>>, <<"normal", <<"-0.8", "50">>>>, <<"normal", <<"1000", "3">>>> >>),
  S(<< <<"poisson", <<"1">>>>, <<"poisson", <<"0.3">>>>, <<"poisson", <<"30">>>> >>),
  S(<< <<"poisson", <<"2.5">>>>, <<"poisson", <<"4">>>>, <<"poisson", <<"0.01">>>>, <<"poisson", <<"11">>>> >>) }
\* seeded: three variables each
RandP(f, j) == RandLaw(CHOOSE k \in 1..Len(FamSeq) : FamSeq[k] = f, j).p
RandStart(f) == LET a == RandP(f, 1)
                    tie(p) == IF f \in {"gamma", "binomial"} THEN <<p[1], a[2]>> ELSE IF f = "bernoulli" THEN a ELSE p
                IN << D(f, a), D(f, tie(RandP(f, 2))), D(f, tie(RandP(f, 3))) >>
AllStarts == Starts \cup {RandStart(f) : f \in {"bernoulli", "binomial", "cauchy", "chi_sq", "gamma", "normal", "poisson"}}
Init == start \in AllStarts /\ pool = start /\ steps = << >> /\ refused = FALSE
Drop(s, J) == LET keep == {i \in 1..Len(s) : i \notin J}
              IN [k \in 1..Cardinality(keep) |-> s[CHOOSE i \in keep : Cardinality({t \in keep : t <= i}) = k]]
Put(i, js, r) == /\ steps' = Append(steps, [i |-> i, js |-> js])
                 /\ IF r = Refused THEN refused' = TRUE /\ UNCHANGED pool
                    ELSE /\ refused' = FALSE
                         /\ pool' = Drop([pool EXCEPT ![i] = r], {js[t] : t \in 1..Len(js)})
                 /\ UNCHANGED start
Add(i, j) == /\ ~refused /\ i # j /\ Offered(pool[i].fam, pool[j].fam)
             /\ Put(i, << j >>, SumAll(pool[i], << pool[j] >>))
Others(i) == SelectSeq([t \in 1..Len(pool) |-> t], LAMBDA t : t # i)
Backward(s) == [t \in 1..Len(s) |-> s[Len(s) + 1 - t]]
\* all the others at once, in two orders; they are of one family
AddAll(i) == /\ ~refused /\ Len(pool) > 2
             /\ LET o == Others(i)
                    g == pool[o[1]].fam
                    f == IF pool[i].fam = "bernoulli" THEN "binomial" ELSE pool[i].fam
                IN /\ \A t \in 1..Len(o) : pool[o[t]].fam = g
                   /\ Offered(pool[i].fam, g) /\ Offered(f, g)
                   /\ \E js \in {o, Backward(o)} : Put(i, js, SumAll(pool[i], [t \in 1..Len(js) |-> pool[js[t]]]))
Next == \/ \E i, j \in 1..Len(pool) : Add(i, j)
        \/ \E i \in 1..Len(pool) : AddAll(i)
Sum(F(_), ds) == RSum([i \in 1..Len(ds) |-> F(ds[i])])
HasMean == \A i \in 1..Len(start) : start[i].fam # "cauchy"
MomentsAdd == HasMean => /\ RNear(Sum(MeanOf, pool), Sum(MeanOf, start), "1e-40", "1e-40")
                         /\ RNear(Sum(VarOf, pool), Sum(VarOf, start), "1e-40", "1e-40")
\* any way of adding everything up gives the law of adding one at a time from the left
Straight == LET F == {i \in 1..Len(start) : Offered(start[i].fam, start[i].fam)}
                i == IF F = {} THEN 1 ELSE CHOOSE t \in F : \A u \in F : t <= u
                rest == SelectSeq([t \in 1..Len(start) |-> t], LAMBDA t : t # i)
            IN SumAll(start[i], [t \in 1..Len(rest) |-> start[rest[t]]])
Confluent == (Len(pool) = 1 /\ Straight # Refused) => SameLaw(pool[1], Straight)
\* P(X + Y <= z) by convolution, against the law of the sum
Direct(d, e, z) ==
  IF d.fam \in Discrete THEN LET T == DiscTab(d) IN RSum([i \in 1..Len(T) |-> T[i][2] ** Cdf(e, z -- T[i][1])])
  ELSE LET T == Table(d) IN RSum([i \in 1..Len(T.x) |-> T.w[i] ** Cdf(e, z -- T.x[i])])
Spread(d) == IF d.fam = "cauchy" THEN d.p[2] ELSE RSqrt(VarOf(d))
Mid(d) == IF d.fam = "cauchy" THEN d.p[1] ELSE MeanOf(d)
TwoOf(s) == {<< s[1], s[2] >>}
PairStarts == UNION {TwoOf(s) : s \in {t \in AllStarts : Closed(t[1], t[2])}}
ASSUME \A s \in PairStarts :
         LET r == SumLaw(s[1], s[2])
         IN \A k \in {-2, -1, 0, 1, 3} :
              LET z0 == Mid(r) ++ (k ** Spread(r))
                  z == IF r.fam \in Discrete THEN RFloor(z0) ELSE z0
              IN RNear(Direct(s[1], s[2], z), Cdf(r, z), 0, "2e-3")
Empties == {[start |-> s, steps |-> << [i |-> 1, js |-> << >>] >>] : s \in AllStarts}
\* every maximal history is written out from here (the state graph is a forest: steps is part of the state)
RECURSIVE Hist(_, _, _)
Red(p, i, js) == LET r == SumAll(p[i], [t \in 1..Len(js) |-> p[js[t]]]) IN
                 IF r = Refused THEN << >> ELSE Drop([p EXCEPT ![i] = r], {js[t] : t \in 1..Len(js)})
Moves(p) == {<<i, << j >> >> : i, j \in 1..Len(p)} \cup
            {<<i, js>> : i \in 1..Len(p), js \in IF Len(p) > 2 THEN {q \in [1..(Len(p) - 1) -> 1..Len(p)] : Cardinality({q[t] : t \in DOMAIN q}) = Len(p) - 1} ELSE {}}
Legal(p, m) == LET i == m[1]
                   js == m[2]
                   f == IF p[i].fam = "bernoulli" THEN "binomial" ELSE p[i].fam
               IN /\ \A t \in 1..Len(js) : js[t] # i /\ p[js[t]].fam = p[js[1]].fam
                  /\ Offered(p[i].fam, p[js[1]].fam) /\ (Len(js) > 1 => Offered(f, p[js[1]].fam))
Hist(p, h, s) == LET M == {m \in Moves(p) : Legal(p, m)} IN
  IF M = {} THEN {[start |-> s, steps |-> h]}
  ELSE UNION {LET r == Red(p, m[1], m[2])
                  h2 == Append(h, [i |-> m[1], js |-> m[2]])
              IN IF r = << >> THEN {[start |-> s, steps |-> h2]} ELSE Hist(r, h2, s) : m \in M}
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/conv.in", SetToSeq(UNION {Hist(s, << >>, s) : s \in AllStarts} \cup Empties))
=============================================================================
