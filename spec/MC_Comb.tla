------------------------------ MODULE MC_Comb ------------------------------
EXTENDS Comb
CONSTANT Max
Init == CombInit
Next == n < Max /\ Down
Agree == \A k \in 0..n : k <= 12 => REq(ChooseAt(n, k), Choose(row, k))
=============================================================================
