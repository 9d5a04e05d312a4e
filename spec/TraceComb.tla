----------------------------- MODULE TraceComb -----------------------------
(* The implementation's table, row by row, against the walk of Comb.         *)
EXTENDS Comb, TraceBase

LfTol(v) == RAdd("2e-10", RMul("1e-13", RAbs(v)))
LfOk(got, want) == RLe(RAbs(RSub(got, want)), LfTol(want))

RowLaws(e) ==
  { <<"choose", "utils.choose",
      \A k \in 0..(Len(e.choose) - 1) :
         LET want == Choose(row, k) IN RLe(want, U64) => REq(e.choose[k + 1], want)>>,
    <<"log-factorial", "utils.log_factorial", LfOk(e.lf, lf)>>,
    <<"factorial", "utils.factorial", Has(e, "fact") => REq(e.fact, fact)>>,
    <<"factorial", "utils.factorial_exact", Has(e, "exact") => REq(e.exact, fact)>> }

Init == CombInit /\ l = 1
Row == /\ l <= Len(Trace) /\ Ev.ev = "row" /\ Ev.n = n
       /\ Consume(Broken(RowLaws(Ev)))
       /\ Down
Lf == /\ l <= Len(Trace) /\ Ev.ev = "lf" /\ Ev.n = n        \* beyond the rows: only the logarithm walks on
      /\ Consume(Broken({<<"log-factorial", "utils.log_factorial", LfOk(Ev.lf, lf)>>}))
      /\ n' = n + 1 /\ lf' = RAdd(lf, RLn(n + 1)) /\ UNCHANGED <<row, fact>>
LfBig == /\ l <= Len(Trace) /\ Ev.ev = "lfbig"
         /\ Consume(Broken({<<"log-factorial", "utils.log_factorial", LfOk(Ev.lf, RLnGamma(RAdd(Ev.n, 1)))>>}))
         /\ UNCHANGED combVars
Big == /\ l <= Len(Trace) /\ Ev.ev = "big"
       /\ LET want == ChooseAt(Ev.n, Ev.m)
          IN Consume(Broken({<<"choose", "utils.choose", RLe(want, U64) => REq(Ev.c, want)>>}))
       /\ UNCHANGED combVars
Next == Row \/ Lf \/ LfBig \/ Big
=============================================================================
