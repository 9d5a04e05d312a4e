------------------------------ MODULE Mixture ------------------------------
(* A mixture m = [w, c]: weights and as many laws of Families.               *)
EXTENDS Expect
Idx(m) == 1..Len(m.w)
ValidMix(m) == /\ Len(m.w) = Len(m.c)
               /\ \A i \in Idx(m) : RLe(0, m.w[i]) /\ RLe(m.w[i], 1)
               /\ RLe(RAbs(RSum(m.w) -- 1), "1e-5")
Live(m) == {i \in Idx(m) : RLt(0, m.w[i])}
Over(m, F(_)) == RSum([i \in Idx(m) |-> IF i \in Live(m) THEN m.w[i] ** F(m.c[i]) ELSE "0"])
MCdf(m, x) == LET F(d) == Cdf(d, x) IN Over(m, F)
MCdfBelow(m, x) == LET F(d) == CdfBelow(d, x) IN Over(m, F)
Den(d, x) == IF ~InSupport(d, x) THEN "0" ELSE IF d.fam \in Discrete THEN Mass(d, x) ELSE RExp(LnF(d, x))
MDen(m, x) == LET F(d) == Den(d, x) IN Over(m, F)
Least(S, Le(_, _)) == CHOOSE x \in S : \A y \in S : Le(x, y)
MInf(m) == Least({Inf(m.c[i]) : i \in Idx(m)}, RLe)
MSup(m) == Least({Sup(m.c[i]) : i \in Idx(m)}, LAMBDA x, y : RLe(y, x))
\* the smallest interval that covers the supports
InHull(m, x) == /\ RLe(MInf(m), x) /\ RLe(x, MSup(m))
                /\ (RLt(MInf(m), x) \/ \E i \in Idx(m) : REq(Inf(m.c[i]), x) /\ InSupport(m.c[i], x))
                /\ (RLt(x, MSup(m)) \/ \E i \in Idx(m) : REq(Sup(m.c[i]), x) /\ InSupport(m.c[i], x))
                /\ (m.c[1].fam \in (Discrete \ {"degenerate_f"}) => RIsInt(x))
NearHullEdge(m, x) == \E i \in Idx(m) : OnEdge(m.c[i], x) /\ RoundedEdge(m.c[i])
\* what a mixture of mixtures comes to
Flatten(w, ms) == [w |-> Flat([i \in 1..Len(ms) |-> [j \in 1..Len(ms[i].w) |-> w[i] ** ms[i].w[j]]]),
                   c |-> Flat([i \in 1..Len(ms) |-> ms[i].c])]
Finite(m, k) == \A i \in Live(m) : HasMoment(m.c[i], k)
Ready(m, k) == \A i \in Live(m) : Computable(m.c[i], k)
MMoments(m) ==
  LET T == TLCEval([i \in Idx(m) |-> IF i \in Live(m) THEN Table(m.c[i]) ELSE << >>])
      mean == RSum([i \in Idx(m) |-> IF i \in Live(m) THEN m.w[i] ** RDot(T[i].w, T[i].x) ELSE "0"])
      dev(i) == LET y == TLCEval(RSubSeq(T[i].x, mean)) IN RDot(T[i].w, RMulSeq(y, y))
  IN [mean |-> mean,
      var |-> IF Ready(m, 2) THEN RSum([i \in Idx(m) |-> IF i \in Live(m) THEN m.w[i] ** dev(i) ELSE "0"]) ELSE "NaN"]
=============================================================================
