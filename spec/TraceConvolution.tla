-------------------------- MODULE TraceConvolution --------------------------
(* Histories of additions performed by the implementation, against           *)
(* Convolution.                                                              *)
EXTENDS Convolution, TraceBase
VARIABLES pool, over
Name(e) == pool[e.i].fam \o (IF Len(e.js) = 1 /\ e.k = "one" THEN ".convolve" ELSE ".convolve_many")
Want(e) == IF Len(e.js) = 0 THEN Refused ELSE SumAll(pool[e.i], [t \in 1..Len(e.js) |-> pool[e.js[t]]])
PtOk(d, r) == /\ (d.fam = "poisson" /\ ~RIsFin(r[2]) /\ r[2] # "NaN") \/ RNear(r[2], Cdf(d, r[1]), "1e-7", "1e-9")   \* (its cumulative function is not offered)
              /\ IF d.fam \in Discrete THEN RNear(r[3], Mass(d, r[1]), "1e-7", "1e-12")
                 ELSE OnEdge(d, r[1]) \/ ~InSupport(d, r[1]) \/ RNear(r[3], RExp(LnF(d, r[1])), "1e-7", "1e-12")
AddLaws(e) ==
  LET w == Want(e) IN
  IF over THEN {} ELSE
  { <<"succeeds", Name(e), e.res = (IF w = Refused THEN "err" ELSE "ok")>> }
  \cup (IF w = Refused \/ e.res # "ok" THEN {} ELSE
  { <<"law-of-the-sum", Name(e), SameLaw([fam |-> e.fam, p |-> e.p], w)>>,
    <<"cumulative", Name(e), \A i \in 1..Len(e.pts) : PtOk(w, e.pts[i])>>,
    <<"moments-add", Name(e), w.fam = "cauchy" \/
        LET js == <<e.i>> \o e.js
            s(F(_)) == RSum([t \in 1..Len(js) |-> F(pool[js[t]])])
        IN RNear(e.mean, s(MeanOf), "1e-9", "1e-9") /\ RNear(e.var, s(VarOf), "1e-9", "1e-12")>> })
Laws(e) == CASE e.ev = "begin" -> { <<"admits", "operands", e.made = "ok">> } [] OTHER -> AddLaws(e)
Drop(s, J) == LET keep == SelectSeq([t \in 1..Len(s) |-> t], LAMBDA t : t \notin J) IN [k \in 1..Len(keep) |-> s[keep[k]]]
Init == l = 1 /\ pool = << >> /\ over = FALSE
Next == /\ Consume(Broken(Laws(Ev)))
        /\ IF Ev.ev = "begin" THEN pool' = Ev.start /\ over' = FALSE
           ELSE IF Ev.ev = "try" THEN UNCHANGED <<pool, over>>     \* the same sum asked for in another way
           ELSE LET w == IF over THEN Refused ELSE Want(Ev) IN
                IF w = Refused THEN over' = TRUE /\ UNCHANGED pool
                ELSE over' = FALSE /\ pool' = Drop([pool EXCEPT ![Ev.i] = w], {Ev.js[t] : t \in 1..Len(Ev.js)})
=============================================================================
