-------------------------------- MODULE Comb --------------------------------
(* Combinatorial quantities, as a walk down Pascal's triangle: one step adds *)
(* a row, multiplies the factorial and adds to its logarithm.  Exact: rows   *)
(* are sequences of decimal integers.                                        *)
EXTENDS Real, Sequences
VARIABLES n, row, fact, lf

U64 == "18446744073709551615"

CombInit == n = 0 /\ row = <<"1">> /\ fact = "1" /\ lf = "0"
NextRow(r) == [i \in 1..(Len(r) + 1) |->
                 IF i = 1 \/ i = Len(r) + 1 THEN "1" ELSE RAdd(r[i - 1], r[i])]
Down == /\ n' = n + 1
        /\ row' = NextRow(row)
        /\ fact' = RMul(fact, n + 1)
        /\ lf' = RAdd(lf, RLn(n + 1))
combVars == <<n, row, fact, lf>>

(* C(n, k); zero beyond the row *)
Choose(r, k) == IF k + 1 \in 1..Len(r) THEN r[k + 1] ELSE "0"

(* What the walk guarantees about itself *)
RECURSIVE Weighted(_, _)
Weighted(r, i) == IF i > Len(r) THEN "0" ELSE RAdd(RMul(i - 1, r[i]), Weighted(r, i + 1))
CombInv ==
  /\ Len(row) = n + 1
  /\ \A i \in 1..Len(row) : row[i] = row[Len(row) + 1 - i]          \* symmetry
  /\ REq(RSum(row), RPow(2, n))                                     \* subsets
  /\ n > 0 => REq(Weighted(row, 1), RMul(n, RPow(2, n - 1)))
  /\ \A i \in 1..(Len(row) - 1) : REq(RMul(row[i + 1], i), RMul(row[i], n - i + 1))
  /\ RNear(RExp(lf), fact, "1e-40", "0")
  /\ RNear(lf, RLnGamma(n + 1), "1e-38", "1e-38")

(* C(n, k) directly, for n far below the rows that can be walked: the        *)
(* product of (n - m + j)/j over j = 1..m, every partial product exact.      *)
RECURSIVE UpTo(_, _, _)
UpTo(nn, m, j) == IF j = 0 THEN "1"
                  ELSE RDiv(RMul(UpTo(nn, m, j - 1), RAdd(RSub(nn, m), j)), j)
ChooseAt(nn, m) == UpTo(nn, m, m)
=============================================================================
