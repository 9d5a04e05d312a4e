---------------------------- MODULE TraceSimplex ----------------------------
(* Recorded uses of probability vectors against Simplex.  cur is the vector  *)
(* being drawn from.                                                         *)
EXTENDS Simplex, TraceBase
VARIABLE cur
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i]) \/ (RIsNaN(a[i]) /\ b[i] = a[i])
BeginLaws(e) ==
  LET good(o) == /\ MustAccept(e.ws) => o.r = "ok"
                 /\ MustReject(e.ws) => o.r = "err"
                 /\ o.r \in {"ok", "err"}
                 /\ o.r = "ok" => \A k \in 1..Len(o.views) : Same(o.views[k], e.ws)
  IN { <<"accepts", "SimplexVector::new", good(e.new)>>, <<"accepts", "SimplexVector::try_from", good(e.try)>>,
       <<"unchanged", "SimplexVector::new_unchecked", Same(e.unchecked, e.ws)>> }
DrawLaws(e) == { <<"selects", "SimplexVector::sample_index", e.idx \in {i - 1 : i \in Pick(cur, e.u)}>>,
                 <<"unaltered", "SimplexVector::sample_index", e.same>> }
CentreLaws(e) == { <<"centre", "SimplexVector::centre",
                     Len(e.ws) = e.k /\ \A i \in 1..e.k : RNear(e.ws[i], RDiv(1, e.k), "2e-16", 0)>> }
PointLaws(e) == { <<"on-simplex", "SimplexVector::sample",
                    /\ Len(e.ws) = e.k /\ \A i \in 1..e.k : RLe(0, e.ws[i])
                    /\ RNear(RSum(e.ws), 1, "1e-12", 0)>> }
Z == "7"
Freq(count, n, p) == RLe(RAbs(RDiv(count, n) -- p), (Z ** RSqrt((p ** (1 -- p)) // n)) ++ RDiv(2, n))
SpreadLaws(e) ==
  { <<"on-simplex", "SimplexVector::sample", e.bad = 0>>,
    <<"uniform", "SimplexVector::sample",
       \A i \in 1..Len(e.cells) : LET c == e.cells[i] IN Freq(c.count, e.n, SumLaw(e.k, c.m, c.t))>>,
    <<"exchangeable", "SimplexVector::sample", \A i \in 1..Len(e.order) : Freq(e.order[i], e.n, "0.5")>> }
Laws(e) == CASE e.ev = "begin" -> BeginLaws(e) [] e.ev = "draw" -> DrawLaws(e) [] e.ev = "centre" -> CentreLaws(e)
             [] e.ev = "point" -> PointLaws(e) [] e.ev = "spread" -> SpreadLaws(e)
Init == l = 1 /\ cur = <<>>
Next == /\ Consume(Broken(Laws(Ev)))
        /\ cur' = IF Ev.ev = "begin" THEN Ev.ws ELSE cur
=============================================================================
