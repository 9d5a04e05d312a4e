------------------------------ MODULE Simplex ------------------------------
(* Probability vectors: acceptance, index selection by cumulative weight,    *)
(* and the uniform law over the simplex.                                     *)
EXTENDS Real, Sequences
Tol == "1e-5"
Entries(ws) == \A i \in 1..Len(ws) : RLe(0, ws[i]) /\ RLe(ws[i], 1)
Total(ws) == RSum(ws)
\* accepted; only rounding may decide within a tenth of the tolerance of the limit
MustAccept(ws) == Entries(ws) /\ RLe(RAbs(Total(ws) -- 1), "0.99e-5")
MustReject(ws) == ~Entries(ws) \/ RLe("1.01e-5", RAbs(Total(ws) -- 1))
Cum(ws, i) == RSum(SubSeq(ws, 1, i))
Exact(ws) == \A i \in 1..Len(ws) : RIsInt(ws[i] ** 4096)
Slack(ws) == IF Exact(ws) THEN "0" ELSE "3e-16"
Positive(ws) == {i \in 1..Len(ws) : RLt(0, ws[i])}
LastPos(ws) == CHOOSE i \in Positive(ws) : \A j \in Positive(ws) : j <= i
\* the indices a uniform draw u of [0, 1) may select
Pick(ws, u) ==
  LET s == Slack(ws) IN
  {i \in Positive(ws) : RLe(Cum(ws, i - 1) -- s, u) /\ RLt(u, Cum(ws, i) ++ s)}
  \cup (IF Positive(ws) # {} /\ RLe(Cum(ws, Len(ws)) -- s, u) THEN {LastPos(ws)} ELSE {})
\* uniform over the simplex of k coordinates: the sum of m of them is at most t with probability
SumLaw(k, m, t) == IF m = k THEN (IF RLe(1, t) THEN "1" ELSE "0") ELSE RBetaI(t, m, k - m)
=============================================================================
