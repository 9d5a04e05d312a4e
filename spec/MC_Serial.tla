----------------------------- MODULE MC_Serial -----------------------------
(* Every document of the shapes below, under every history of up to Depth    *)
(* changes: reordering the fields of a record leaves what is read unchanged; *)
(* once entries or fields went missing or came on top, or a leaf is of       *)
(* another kind, the document is refused, however its fields are ordered.    *)
(* The module also writes the values the implementation has to write & read. *)
EXTENDS Serial, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, NRand, MaxDim
W == { Num("0.5"), Arr(<<>>), Arr(<<Num("1"), Num("2")>>), Obj(<<"p">>, <<Num("0.5")>>),
       Obj(<<"a", "b">>, <<Num("1"), Num("2")>>),
       Obj(<<"n", "ps">>, <<Num("3"), Arr(<<Num("0.25"), Num("0.75")>>)>>),
       Obj(<<"mu", "Sigma">>, <<Arr(<<Num("1"), Num("2")>>), Arr(<<Arr(<<Num("1"), Num("0")>>), Arr(<<Num("0"), Num("2")>>)>>)>>),
       Obj(<<"mu", "Sigma">>, <<Arr(<<Num("1"), Num("2")>>), Arr(<<Arr(<<Num("3"), Num("4")>>), Num("0.5")>>)>>),
       Obj(<<"ps", "component_params">>, <<Arr(<<Num("0.25"), Num("0.75")>>),
            Arr(<<Obj(<<"lambda">>, <<Num("1")>>), Obj(<<"lambda">>, <<Num("2")>>)>>)>>) }
VARIABLES w, doc, hurt, steps
vars == <<w, doc, hurt, steps>>
Init == w \in W /\ doc = w /\ hurt = FALSE /\ steps = 0
Hurt == /\ steps < Depth /\ ~hurt /\ doc' \in Anywhere(Damage, doc) /\ hurt' = TRUE
Turn == /\ steps < Depth /\ doc' \in Anywhere(Reorder, doc) /\ hurt' = hurt
Next == (Hurt \/ Turn) /\ steps' = steps + 1 /\ w' = w
Refused == hurt => Verdict(w, doc) = "reject"
Kept == ~hurt => Verdict(w, doc) = "read" /\ Leaves(w, doc) = Leaves(w, w)

\* ---- values to write: type, dimension, arguments
Vals == [real |-> <<"0.1", "-0.0", "5e-324", "1.7976931348623157e308", "-2.5", "0.3333333333333333", "-1e22", "123456789.12345679", "0", "inf", "-1.0000000000000002">>,
         pos |-> <<"0.1", "5e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "0.30000000000000004", "1e22", "1", "7.000000000000001">>,
         prob |-> <<"0.1", "0", "1", "0.5", "5e-324", "0.9999999999999999", "0.30000000000000004">>,
         corr |-> <<"-0.25", "1", "-1", "0", "0.1", "0.9999999999999999">>,
         count |-> <<"7", "0", "1", "9007199254740993", "18446744073709551615">>,
         dof |-> <<"7", "1", "2", "9007199254740993", "18446744073709551615">>,
         int |-> <<"-42", "9223372036854775807", "-9223372036854775808", "0", "1">>,
         posint |-> <<"42", "9223372036854775807", "1">>]
\* types of a fixed number of arguments
Fixed == << <<"Probability", <<"prob">>>>, <<"Corr", <<"corr">>>>, <<"Loc", <<"real">>>>, <<"Loc<i64>", <<"int">>>>, <<"Scale", <<"pos">>>>,
            <<"Rate", <<"pos">>>>, <<"Shape", <<"pos">>>>, <<"DOF", <<"dof">>>>, <<"Count", <<"count">>>>, <<"Covariance", <<"pos">>>>,
            <<"arcsine", <<"real", "pos">>>>, <<"bernoulli", <<"prob">>>>, <<"beta", <<"pos", "pos">>>>, <<"beta_binomial", <<"count", "pos", "pos">>>>,
            <<"beta_prime", <<"pos", "pos">>>>, <<"binomial", <<"count", "prob">>>>, <<"cauchy", <<"real", "pos">>>>, <<"chi", <<"dof">>>>,
            <<"chi_sq", <<"dof">>>>, <<"cosine", <<"real", "pos">>>>, <<"erlang", <<"dof", "pos">>>>, <<"exponential", <<"pos">>>>,
            <<"f_dist", <<"dof", "dof">>>>, <<"folded_normal", <<"real", "pos">>>>, <<"frechet", <<"pos">>>>, <<"gamma", <<"pos", "pos">>>>,
            <<"geometric", <<"prob">>>>, <<"gev", <<"real", "pos", "pos">>>>, <<"gpd", <<"real", "pos", "pos">>>>, <<"gumbel", <<"real", "pos">>>>,
            <<"inverse_gamma", <<"pos", "pos">>>>, <<"inverse_normal", <<"pos", "pos">>>>, <<"kumaraswamy", <<"pos", "pos">>>>,
            <<"laplace", <<"real", "pos">>>>, <<"levy", <<"real", "pos">>>>, <<"logistic", <<"real", "pos">>>>, <<"lognormal", <<"real", "pos">>>>,
            <<"normal", <<"real", "pos">>>>, <<"pareto", <<"pos", "pos">>>>, <<"poisson", <<"pos">>>>, <<"rayleigh", <<"pos">>>>,
            <<"student_t", <<"pos">>>>, <<"triangular", <<"real", "pos", "pos">>>>, <<"uniform", <<"real", "pos">>>>,
            <<"uniform<i64>", <<"int", "posint">>>>, <<"weibull", <<"pos", "pos">>>>, <<"degenerate", <<"real">>>>, <<"degenerate<i64>", <<"int">>>>,
            <<"normal.Grad", <<"real", "real">>>>, <<"bivariate", <<"real", "real", "pos", "pos", "corr">>>>, <<"paired", <<"real", "real", "pos", "pos">>>>,
            <<"mixture.exponential", <<"prob", "pos", "pos">>>>, <<"mixture.cauchy", <<"prob", "real", "pos", "real", "pos", "real", "pos">>>> >>
Dims == {n \in {0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 40, 64} : n <= MaxDim}
SmallDims == {n \in Dims : n >= 1 /\ n <= 5}
Seed == RToInt(RRem(RNorm(IOEnv.VERIF_SEED), "30000"))
\* a linear congruential stream; which value a slot takes in the j-th case of the k-th type
Draw(k, j, i) == ((((Seed * 7919 + k * 104729 + j * 1299 + i * 15485) % 65537) * 75 + 74) % 65537)
Take(s, n) == Vals[s][1 + (n % Len(Vals[s]))]
Slots(k, slots, j) == [i \in 1..Len(slots) |->
    IF j < 11 THEN Take(slots[i], j + (i - 1) * 3) ELSE Take(slots[i], Draw(k, j, i))]
FixedInputs == {[type |-> Fixed[k][1], n |-> 0, args |-> Slots(k, Fixed[k][2], j)] : k \in 1..Len(Fixed), j \in 0..(10 + NRand)}
Weights(n) == [i \in 1..n |-> RNorm(RDiv(RFloor(RDiv(2 * i, n * (n + 1)) ** "1e14"), "1e14"))]
RealsOf(k, n, j) == [i \in 1..n |-> Take("real", Draw(k, j, i))]
PosOf(k, n, j) == [i \in 1..n |-> Take("pos", Draw(k + 50, j, i))]
Turned(s, j) == IF j % 2 = 0 THEN s ELSE Reversed(s)
DimInputs ==
  LET at(type, n, args) == [type |-> type, n |-> n, args |-> args]
  IN UNION {UNION {{at("Concentrations", n, PosOf(1, n, j)), at("SimplexVector", n, Turned(Weights(n), j)),
                    at("categorical", n, Turned(Weights(n), j)),
                    at("multinomial", n, <<Take("count", j)>> \o Turned(Weights(n), j)),
                    at("dirichlet", n, PosOf(2, n, j))} : n \in Dims} : j \in 0..(2 + NRand)}
     \cup UNION {UNION {{at("diagonal", n, RealsOf(3, n, j) \o PosOf(3, n, j)), at("isotropic", n, RealsOf(4, n, j) \o PosOf(4, 1, j)),
                    at("Loc<array>", n, RealsOf(5, n, j)), at("full", n, RealsOf(6, n, j) \o [i \in 1..(n * n) |->
                        IF (i - 1) % (n + 1) = 0 THEN Take("pos", Draw(7, j, i)) ELSE Take("real", Draw(7, j, i))]),
                    at("full.Grad", n, RealsOf(8, n, j) \o RealsOf(9, n * n, j))} : n \in SmallDims} : j \in 0..(2 + NRand)}
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/serial.in", SetToSeq(FixedInputs \cup DimInputs))
=============================================================================
