----------------------------- MODULE MC_Simplex -----------------------------
(* Every weight vector over multiples of 1/4 up to MaxLen entries, under     *)
(* every uniform draw k/16 or just below it: the selected index is unique,   *)
(* has a positive weight, and index i is selected by a set of draws of       *)
(* length ws[i].                                                             *)
EXTENDS Simplex, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANT MaxLen
Vals == {"-0.25", "0", "0.25", "0.5", "0.75", "1", "1.25", "NaN"}
Quarters == {"0", "0.25", "0.5", "0.75", "1"}
Vectors(S, n) == [1..n -> S]
SetOfAll(S) == UNION {Vectors(S, n) : n \in 1..MaxLen}
Near1 == {<<"0.5", RNorm(RAdd("0.5", d))>> : d \in {"9.9e-6", "-9.9e-6", "1.02e-5", "-1.02e-5", "1e-7", "-3e-5", "1e-4"}}
         \cup {<<RNorm(RAdd(1, d)), "0">> : d \in {"-9e-6", "-1.1e-5"}}
         \cup {<<"0.1", "0.2", "0.3", "0.4">>, <<"0.333333", "0.333333", "0.333333">>, <<"0.333333", "0.333333", "0.33333">>,
               <<"-0.0", "1">>, <<"1e-320", "1">>, <<"0.7", "0.1", "0.2">>, <<"0", "0.99999999", "0">>, <<"0.3", "0", "0.7", "0">>}
Draws == {RDiv(i, 16) : i \in 0..15}
VARIABLES ws, u, idx, below
Init == /\ ws \in {x \in SetOfAll(Quarters) : MustAccept(x)} /\ u \in Draws /\ idx = {} /\ below \in BOOLEAN
Draw == idx = {} /\ idx' = Pick(ws, IF below THEN u ++ "0.0624999999" ELSE u) /\ UNCHANGED <<ws, u, below>>
Next == Draw
Laws == /\ idx # {} => /\ Cardinality(idx) = 1 /\ idx \subseteq Positive(ws)
        /\ (idx = {} /\ u = "0") => \A i \in 1..Len(ws) :
              REq(Cardinality({d \in Draws : Pick(ws, d) = {i}}), 16 ** ws[i])
Inputs == SetToSeq({[ws |-> x] : x \in SetOfAll(Vals) \cup Near1})
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/simplex.in", Inputs)
\* the law of a uniform point: complement symmetry, and the elementary one-coordinate case
ASSUME \A k \in 2..6 : \A t \in {"0.1", "0.25", "0.5", "0.8"} :
         /\ RNear(SumLaw(k, 1, t), 1 -- RPow(1 -- t, k - 1), "1e-30", "0")
         /\ \A m \in 1..(k - 1) : RNear(SumLaw(k, m, t) ++ SumLaw(k, k - m, 1 -- t), 1, "1e-30", "0")
=============================================================================
