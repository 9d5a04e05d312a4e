----------------------------- MODULE Catalogue -----------------------------
(* The laws that are explored: a fixed grid per family that covers every     *)
(* branch of its formulas, seeded random parameters, and parameter tuples    *)
(* that must be refused.  And for each law the points at which it is probed. *)
EXTENDS Expect, IOUtils, SequencesExt
CONSTANTS NRand      \* random laws per family

D(f, p) == [fam |-> f, p |-> p]
Grid == [
  arcsine |-> << <<"0", "1">>, <<"-2.5", "4">>, <<"100", "0.5">> >>,
  beta |-> << <<"1", "1">>, <<"2", "3">>, <<"0.5", "0.5">>, <<"0.5", "2">>, <<"3", "0.7">>, <<"1", "4">>, <<"5", "1">>,
              <<"0.4", "1">>, <<"1", "0.4">>, <<"30", "12">>, <<"150", "200">>, <<"600", "500">> >>,
  beta_prime |-> << <<"1", "1">>, <<"2", "3">>, <<"0.5", "0.5">>, <<"3", "5.5">>, <<"0.7", "4.5">>, <<"1", "2">>, <<"20", "30">>, <<"2", "1.5">>, <<"600", "500">> >>,
  cauchy |-> << <<"0", "1">>, <<"-3", "0.25">>, <<"40", "12">> >>,
  chi |-> << <<"1">>, <<"2">>, <<"3">>, <<"4">>, <<"7">>, <<"30">>, <<"400">> >>,
  chi_sq |-> << <<"1">>, <<"2">>, <<"3">>, <<"4">>, <<"9">>, <<"50">>, <<"400">> >>,
  cosine |-> << <<"0", "1">>, <<"3", "2.5">>, <<"-7", "0.2">> >>,
  erlang |-> << <<"1", "1">>, <<"2", "0.5">>, <<"5", "3">>, <<"25", "10">>, <<"250", "2">> >>,
  exponential |-> << <<"1">>, <<"0.2">>, <<"7.5">> >>,
  f_dist |-> << <<"1", "1">>, <<"2", "2">>, <<"2", "5">>, <<"3", "7">>, <<"5", "9">>, <<"10", "12">>, <<"1", "10">>, <<"30", "40">>, <<"8", "4">>, <<"6", "3">>, <<"4", "8">>, <<"9", "6">>, <<"500", "700">> >>,
  folded_normal |-> << <<"0", "1">>, <<"1", "2">>, <<"-1.5", "0.5">>, <<"5", "1">>, <<"0.9", "1">>, <<"2", "2">>, <<"-6", "1.5">> >>,
  frechet |-> << <<"1">>, <<"0.5">>, <<"2">>, <<"3">>, <<"4">>, <<"5">>, <<"8.5">>, <<"12">> >>,
  gamma |-> << <<"1", "1">>, <<"0.5", "2">>, <<"3", "0.5">>, <<"9", "4">>, <<"80", "2">>, <<"300", "20">> >>,
  gev |-> << <<"0", "1", "0.5">>, <<"2", "3", "0.1">>, <<"-1", "0.5", "0.3">>, <<"0", "2", "1">>, <<"5", "1", "2">>, <<"0", "1", "0.2">>, <<"0", "1", "0.25">> >>,
  gpd |-> << <<"0", "1", "0.5">>, <<"2", "3", "0.1">>, <<"-1", "0.5", "0.3">>, <<"0", "2", "1">>, <<"5", "1", "2">>, <<"0", "1", "0.2">>, <<"0", "1", "0.25">> >>,
  gumbel |-> << <<"0", "1">>, <<"-4", "2.5">>, <<"10", "0.3">> >>,
  inverse_gamma |-> << <<"1", "1">>, <<"0.5", "2">>, <<"2", "1">>, <<"3", "0.5">>, <<"4", "2">>, <<"5.5", "3">>, <<"40", "80">>, <<"250", "100">> >>,
  inverse_normal |-> << <<"1", "1">>, <<"2", "0.5">>, <<"0.5", "3">>, <<"3", "20">>, <<"1", "200">> >>,
  kumaraswamy |-> << <<"1", "1">>, <<"2", "3">>, <<"0.5", "0.5">>, <<"0.5", "2">>, <<"3", "0.7">>, <<"1", "4">>, <<"5", "1">>, <<"0.4", "1">>, <<"1", "0.4">>, <<"12", "9">> >>,
  laplace |-> << <<"0", "1">>, <<"-3", "0.25">>, <<"20", "6">> >>,
  levy |-> << <<"0", "1">>, <<"-3", "0.25">>, <<"20", "6">> >>,
  logistic |-> << <<"0", "1">>, <<"-3", "0.25">>, <<"20", "6">> >>,
  lognormal |-> << <<"0", "1">>, <<"1", "0.25">>, <<"-2", "0.04">>, <<"0.5", "2.5">> >>,
  normal |-> << <<"0", "1">>, <<"-3", "0.25">>, <<"20", "9">>, <<"0", "100">>, <<"1e6", "1">> >>,
  pareto |-> << <<"1", "1">>, <<"2", "0.5">>, <<"0.5", "2">>, <<"3", "3">>, <<"1", "4">>, <<"1.5", "4.5">>, <<"10", "20">>, <<"1", "2.5">>, <<"1", "1.5">> >>,
  rayleigh |-> << <<"1">>, <<"0.2">>, <<"9">> >>,
  student_t |-> << <<"1">>, <<"2">>, <<"3">>, <<"4">>, <<"0.5">>, <<"2.5">>, <<"4.5">>, <<"10">>, <<"60">>, <<"400">>, <<"1.5">>, <<"3.5">> >>,
  triangular |-> << <<"0", "0.5", "0.5">>, <<"-2", "3", "1">>, <<"10", "0.25", "4">>, <<"0", "2", "1">> >>,
  uniform |-> << <<"0", "1">>, <<"-2.5", "4">>, <<"100", "0.125">> >>,
  weibull |-> << <<"1", "1">>, <<"2", "0.5">>, <<"0.5", "2">>, <<"3", "3.6">>, <<"1", "8">>, <<"0.2", "1.5">>, <<"3", "1">> >>,
  degenerate_f |-> << <<"0">>, <<"-2.5">>, <<"7">> >>,
  degenerate_i |-> << <<"0">>, <<"-2">>, <<"7">> >>,
  bernoulli |-> << <<"0.5">>, <<"0.25">>, <<"0.9">>, <<"0">>, <<"1">> >>,
  beta_binomial |-> << <<"5", "1", "1">>, <<"1", "2", "3">>, <<"10", "0.5", "0.5">>, <<"20", "3", "7">>, <<"12", "600", "400">>, <<"200", "2", "5">> >>,
  binomial |-> << <<"5", "0.5">>, <<"1", "0.25">>, <<"9", "0.3">>, <<"4", "0.2">>, <<"7", "0.875">>, <<"50", "0.04">>, <<"300", "0.5">>, <<"6", "0">>, <<"6", "1">>, <<"1500", "0.5">> >>,
  categorical |-> << <<"1">>, <<"0.5", "0.5">>, <<"0.2", "0", "0.8">>, <<"0.25", "0.25", "0.25", "0.25">>, <<"0", "0.3", "0.3", "0.4", "0">>, <<"0.1", "0.4", "0.4", "0.1">>, <<"0.14", "0.132", "0.279", "0.341", "0.108">> >>,
  geometric |-> << <<"0.5">>, <<"0.1">>, <<"0.9">>, <<"1">>, <<"0.03">>, <<"0.75">> >>,
  poisson |-> << <<"1">>, <<"0.3">>, <<"4">>, <<"2.5">>, <<"30">>, <<"60">>, <<"150.5">> >>,
  uniform_int |-> << <<"0", "1">>, <<"-3", "5">>, <<"10", "20">>, <<"-100", "9">>, <<"7", "255">> >> ]

(*------------------------- seeded random parameters ----------------------*)
Seed == TLCEval(RToInt(RRem(RNorm(IOEnv.VERIF_SEED), "30000")))
RECURSIVE Lcg(_, _)
Lcg(x, n) == IF n = 0 THEN << >> ELSE LET y == TLCEval((75 * x + 74) % 65537) IN << y >> \o Lcg(y, n - 1)
Uniforms(k, n) == LET s == TLCEval(Lcg((Seed * 997 + k * 211 + 13) % 65537, n + 3)) IN TLCEval([i \in 1..n |-> s[i + 3]])
Dec(x, digits) == LET m == IF digits = 0 THEN 1 ELSE IF digits = 1 THEN 10 ELSE IF digits = 2 THEN 100 ELSE 1000
                  IN RFloor((x ** m) ++ Half) // m
IntFams == [chi |-> {1}, chi_sq |-> {1}, erlang |-> {1}, f_dist |-> {1, 2}, beta_binomial |-> {1}, binomial |-> {1},
            degenerate_i |-> {1}, uniform_int |-> {1, 2}]
IsInt(f, i) == f \in DOMAIN IntFams /\ i \in IntFams[f]
\* a parameter of the given kind from u in 0..65536
Draw(f, i, u) ==
  LET kind == Kinds[f][i]
      x == RNorm(u // 65537) IN
  CASE IsInt(f, i) /\ kind = "loc" -> RFloor((x ** 200) -- 100)
    [] IsInt(f, i) -> RFloor(RExp(x ** "3.8"))
    [] kind = "loc" -> Dec((x ** 20) -- 10, 3)
    [] kind = "prob" -> Dec("0.05" ++ (x ** "0.9"), 3)
    [] f = "weibull" /\ i = 2 -> Dec(RExp(("2.8" ** x) -- "0.8"), 2)
    [] f \in {"gev", "gpd"} /\ i = 3 -> Dec(RExp(("2.8" ** x) -- "2.1"), 2)
    [] f \in {"kumaraswamy", "frechet"} -> Dec(RExp(("3.2" ** x) -- "1"), 2)
    [] f = "student_t" -> Dec(RExp(("4" ** x) -- "0.7"), 2)
    [] f = "lognormal" /\ i = 2 -> Dec(RExp(("3.4" ** x) -- "2.5"), 3)
    [] f = "inverse_normal" -> Dec(RExp(("3.2" ** x) -- "1"), 2)
    [] f = "folded_normal" /\ i = 2 -> Dec(RExp(("3" ** x) -- "0.7"), 2)
    [] kind \in {"shape", "dof"} -> Dec(RExp(("4" ** x) -- "1"), 2)
    [] OTHER -> Dec(RExp(("5" ** x) -- "2.3"), 3)
FamSeq == TLCEval(SetToSeq(Fams))
RandLaw(k, j) ==
  LET f == FamSeq[k]
      n == IF f = "categorical" THEN 2 + ((k + j) % 4) ELSE Len(Kinds[f])
      us == Uniforms(97 * k + j, n)
      ws == [i \in 1..n |-> 1 + (us[i] % 50)]
      tot == RSum(ws)
  IN IF f = "categorical" THEN D(f, [i \in 1..n |-> IF i = n THEN 1 -- RSum([t \in 1..(n - 1) |-> Dec(ws[t] // tot, 3)]) ELSE Dec(ws[i] // tot, 3)])
     ELSE D(f, [i \in 1..n |-> RNorm(Draw(f, i, us[i]))])
GridLaws == UNION {{D(f, Grid[f][i]) : i \in 1..Len(Grid[f])} : f \in Fams}
RandLaws == {RandLaw(k, j) : k \in 1..Len(FamSeq), j \in 1..NRand}
Usual == TLCEval({d \in GridLaws \cup RandLaws : Valid(d)})

\* parameters far from the usual, one at a time
Far(f, i) ==
  LET kind == IF f = "categorical" THEN "simplex" ELSE Kinds[f][i] IN
  CASE f = "uniform_int" -> <<"-5000000", "1000000", "3000">>
    [] f = "degenerate_i" -> <<"-4000000000", "9007199254740992">>
    [] f \in {"erlang", "chi", "chi_sq", "beta_binomial", "binomial"} /\ IsInt(f, i) -> <<"700">>
    [] f = "f_dist" -> <<"3", "4", "1000">>
    [] kind = "prob" -> <<"1e-6", "0.005", "0.995", "0.999999">>
    [] f = "lognormal" /\ i = 1 -> <<"-30", "30">>
    [] kind = "loc" -> <<"1e8", "-1e-10", "-1e5">>
    [] f = "poisson" -> <<"1e-6", "0.01", "999.5">>
    [] kind = "rate" -> <<"1e-8", "1e8", "1e50">>
    [] f = "lognormal" -> <<"1e-8", "0.001", "9">>
    [] f = "folded_normal" -> <<"0.05", "1e4">>
    [] f = "triangular" -> <<"1e-6", "1e6">>
    [] kind = "scale" -> <<"1e-10", "1e10", "1e-50", "1e50">>
    [] f = "student_t" -> <<"0.1", "1.000001", "1.999999", "2.000001", "2.999999", "3.000001", "3.999999", "4.000001", "2000">>
    [] f \in {"gev", "gpd"} /\ i = 2 -> <<"1e-10", "1e10">>
    [] f \in {"gev", "gpd"} -> <<"1e-9", "1e-6", "0.0001", "0.009", "0.249999", "0.250001", "0.333333", "0.333334", "0.499999", "0.500001", "0.999999", "1.000001", "4">>
    [] f \in {"gamma", "inverse_gamma"} /\ i = 2 -> <<"1e-8", "1e8", "1e50">>
    [] f = "inverse_gamma" -> <<"0.1", "0.999999", "1.000001", "1.999999", "2.000001", "2.999999", "3.000001", "3.999999", "4.000001">>
    [] f = "inverse_normal" -> <<"0.01", "50">>
    [] f \in {"pareto", "frechet", "beta_prime"} -> <<"0.1", "0.999999", "1.000001", "1.999999", "2.000001", "2.999999", "3.000001", "3.999999", "4.000001", "200">>
    [] f = "categorical" -> << >>
    [] f \in {"beta", "kumaraswamy"} -> <<"0.1", "0.25", "0.999999", "1.000001", "40">>
    [] OTHER -> <<"0.1", "0.999999", "1.000001", "40">>
\* not narrower than the gaps between the numbers around its location
Tame(f, k, i, j) == \/ IF f = "categorical" THEN FALSE ELSE Kinds[f][1] # "loc" \/ f = "folded_normal"
                    \/ REq(Grid[f][k][1], 0)
                    \/ ~(Kinds[f][i] = "scale" /\ RLt(Far(f, i)[j], "1e-10"))
FarOf(f, i, k) == {D(f, [Grid[f][k] EXCEPT ![i] = Far(f, i)[j]]) : j \in {h \in 1..Len(Far(f, i)) : Tame(f, k, i, h)}}
FarLaws == UNION {UNION {UNION {FarOf(f, i, k) : k \in {1, 2} \cap DOMAIN Grid[f]} : i \in 1..Len(Grid[f][2])} : f \in Fams \ {"categorical"}}

\* every parameter at once from a wide range, from two uniforms u and v in 0..65536
NWide == IF IOEnv.VERIF_TIER = "thorough" THEN 60 ELSE 16
Ten(k) == IF k >= 0 THEN RPow(10, k) ELSE 1 // RPow(10, -k)
WideDraw(f, i, u, v) ==
  LET kind == Kinds[f][i]
      x == RNorm(u // 65537)
      Exp(a, b, digits) == Dec(RExp((a ** x) -- b), digits) IN
  CASE f = "uniform_int" /\ i = 2 -> RFloor(RExp(x ** 8))
    [] IsInt(f, i) /\ kind = "loc" -> RFloor((x ** 20000) -- 10000)
    [] f = "beta_binomial" /\ i = 1 -> RFloor(RExp(x ** "5.3"))
    [] IsInt(f, i) -> RFloor(RExp(x ** "6.3"))
    [] f = "lognormal" /\ i = 1 -> Dec((x ** 24) -- 12, 3)
    [] f = "lognormal" -> Exp(6, 4, 3)
    [] f = "folded_normal" /\ i = 1 -> Dec((x ** 60) -- 30, 3)
    [] f = "folded_normal" -> Exp(5, "2.5", 3)
    [] kind = "loc" -> Dec(((x ** 2) -- 1) ** Ten((v % 5) - 1), 3)
    [] kind = "prob" -> Dec(1 // (1 ++ RExp(7 -- (14 ** x))), 3)
    [] f = "poisson" -> Exp(8, 4, 3)
    [] f = "inverse_normal" -> Exp(6, 3, 3)
    [] f \in {"gev", "gpd"} /\ i = 3 -> Exp(4, "3.5", 3)
    [] f = "student_t" -> Exp(6, "1.6", 2)
    [] kind \in {"shape", "dof"} -> Exp("6.3", "1.6", 2)
    [] OTHER -> Dec((9 ** x) ++ 1, 3) ** Ten((v % 7) - 3)
WideLaw(k, j) ==
  LET f == FamSeq[k]
      n == Len(Kinds[f])
      us == Uniforms(89 * k + 1013 * j + 7, 2 * n)
  IN D(f, [i \in 1..n |-> RNorm(WideDraw(f, i, us[2 * i - 1], us[2 * i]))])
WideLaws == {WideLaw(k, j) : k \in {h \in 1..Len(FamSeq) : FamSeq[h] # "categorical"}, j \in 1..NWide}
Laws == TLCEval({d \in Usual \cup FarLaws \cup WideLaws : Valid(d)})

(*--------------------------- parameters to refuse ------------------------*)
Odd(f, i) == IF f = "categorical" THEN {"-0.1", "1.5", "NaN"}
             ELSE IF Kinds[f][i] = "prob" THEN {"-0.1", "-1e-300", "1.1", "NaN", "1.0000000000000002", "0", "1", "-0.0", "inf"}
             ELSE IF IsInt(f, i) /\ Kinds[f][i] = "loc" THEN {"0", "-1"}
             ELSE IF IsInt(f, i) THEN {"0", "1"}
             ELSE {"0", "-0.0", "-1", "NaN", "-inf", "inf", "-1e-300", "1e-300"}
Makes == UNION {UNION {{D(f, [Grid[f][2] EXCEPT ![i] = v]) : v \in Odd(f, i)} : i \in 1..Len(Grid[f][2])} : f \in Fams}

(*------------------------------ probe points -----------------------------*)
UpMul == <<"0", "1e-3", "0.02", "0.1", "0.2", "0.35", "0.5", "0.65", "0.8", "0.9", "1", "1.1", "1.25", "1.5", "2", "2.7", "4", "7", "15",
           "60", "1e3", "1e6", "1e12", "1e100", "1e290">>
FinMul == <<"0", "1e-3", "0.01", "0.05", "0.1", "0.2", "0.3", "0.4", "0.5", "0.6", "0.7", "0.8", "0.9", "0.95", "0.99", "0.999">>
PiecePts(q) == CASE q.k = "fin" -> [i \in 1..Len(FinMul) |-> q.a ++ (q.s ** FinMul[i])]
                 [] q.k = "up" -> [i \in 1..Len(UpMul) |-> q.a ++ (q.s ** UpMul[i])]
                 [] q.k = "down" -> [i \in 1..Len(UpMul) |-> q.a -- (q.s ** UpMul[i])]
Ends(d) == SelectSeq(<<Inf(d), Sup(d)>>, RIsFin)
Around(d) == << "inf", "-inf", "0", "1", "-1", "0.5", "-0.3", "1.5", "-1e-9", "-1e300", "1e300", "-25", "3.7" >>
             \o Ends(d) \o [i \in 1..Len(Ends(d)) |-> Ends(d)[i] -- "0.75"] \o [i \in 1..Len(Ends(d)) |-> Ends(d)[i] ++ "0.75"]
DiscPts(d) ==
  LET m == RFloor(CASE d.fam = "poisson" -> RNorm(d.p[1]) [] d.fam = "geometric" -> 1 // d.p[1]
                    [] OTHER -> (Inf(d) ++ Sup(d)) // 2)
      near == {m ++ i : i \in -6..6} \cup {Inf(d) ++ i : i \in -3..4}
              \cup (IF RIsFin(Sup(d)) THEN {Sup(d) ++ i : i \in -4..3} ELSE {})
              \cup {m ++ (i ** RFloor(1 ++ RSqrt(m ++ 1))) : i \in {-5, -3, -2, 2, 3, 5, 9}}
  IN SetToSeq(near \cup {"100", "1000", "2147483648", "4294967297"})
Probes(d) == IF d.fam = "degenerate_f" THEN <<"0", "-2.5", "7", "1", "-1e300", "1e300", "-2.4999999999999996">>
             ELSE IF d.fam \in Discrete THEN DiscPts(d)
             ELSE LET P == Pieces(d) IN Around(d) \o Flat([i \in 1..Len(P) |-> PiecePts(P[i])])
=============================================================================
