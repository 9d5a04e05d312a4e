---------------------------- MODULE MC_Families ----------------------------
(* Walks every law of the catalogue along its probe points from the left.    *)
(* acc accumulates the density (or the mass) on the way, so that the         *)
(* densities and the cumulative functions of Families, written down          *)
(* independently of each other, are checked against each other, and the      *)
(* quadrature of Expect with them.                                           *)
EXTENDS Catalogue, Json
CONSTANTS Share,     \* walk one law in Share (all are written out as inputs)
          Fine       \* resolution of the integrals between points
VARIABLES law, k, acc
LawSeq == TLCEval(SetToSeq(Usual))
Walked == TLCEval({LawSeq[i] : i \in {j \in 1..Len(LawSeq) : j % Share = Seed % Share}})
Sorted(d) ==
  LET in == SelectSeq(Probes(d), LAMBDA x : InSupport(d, x) /\ RIsFin(x) /\ (d.fam \in Discrete \/ RLt(RAbs(x), "1e13")))
      s == SetToSortSeq({RNorm(in[i]) : i \in 1..Len(in)}, LAMBDA x, y : RLt(x, y))
  IN s
\* integral of the density between two points, the second not left of the first
Between(d, a, b) ==
  IF RLe(b, a) THEN "0"
  ELSE IF d.fam \in Discrete THEN
    LET n == RToInt(RMin(b -- a, 3000)) IN
    RSum([i \in 1..n |-> Mass(d, b -- (i - 1))])
  ELSE LET t == PieceTab(d, LnC(d), [k |-> "fin", a |-> a, s |-> b -- a, fine |-> Fine])
       IN RSum(TLCEval([i \in 1..Len(t) |-> t[i][2]]))
Pts == TLCEval([d \in Walked |-> Sorted(d)])
Init == law \in Walked /\ k = 0 /\ acc = "0"
\* up to the first point the increment is the cumulative function's own
Advance == /\ k < Len(Pts[law])
           /\ k' = k + 1
           /\ acc' = (IF k = 0 THEN Cdf(law, Pts[law][1]) ELSE acc ++ Between(law, Pts[law][k], Pts[law][k + 1]))
           /\ UNCHANGED law
Next == Advance
X == Pts[law][k]
F == Cdf(law, X)
IsCdf == k > 0 => /\ RNear(acc, F, "0", "1e-10")
                  /\ RLe(0, F) /\ RLe(F, 1)
                  /\ k > 1 => RLe(Cdf(law, Pts[law][k - 1]), F)
TotalOne == k = 1 => RNear(Total(Table(law)), 1, "0", "1e-9")
Tails == (k = Len(Pts[law]) /\ law.fam \notin Discrete) =>
            /\ RLt(Cdf(law, "-1e300"), "1e-100") /\ RLt(1 -- Cdf(law, "1e300"), "1e-80")
Inputs == SetToSeq({[kind |-> "law", fam |-> d.fam, p |-> d.p, xs |-> Probes(d)] : d \in Laws})
          \o SetToSeq({[kind |-> "make", fam |-> d.fam, p |-> d.p, xs |-> << >>] : d \in Makes})
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/laws.in", Inputs)
=============================================================================
