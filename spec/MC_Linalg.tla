----------------------------- MODULE MC_Linalg -----------------------------
(* Every lower triangle of order up to 3 with small integer entries, built   *)
(* one entry at a time.                                                      *)
EXTENDS Linalg, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Diag, Off
D == {RNorm(d) : d \in Diag}
O == {RNorm(d - 1) : d \in Off}
Lower1 == {<<<<d>>>> : d \in D}
Lower2 == {<<<<d, "0">>, <<o, e>>>> : d \in D, e \in D, o \in O}
Lower3 == {<<<<d, "0", "0">>, <<o, e, "0">>, <<p, q, f>>>> : d \in D, e \in D, f \in D, o \in O, p \in O, q \in O}
Shift(lo) == [i \in 1..Len(lo) |-> [j \in 1..Len(lo) |-> RAdd(lo[i][j], RSub(j, RMul(2, i)))]]
All == SetToSeq(Lower1) \o SetToSeq(Lower2) \o SetToSeq(Lower3)
VARIABLE k, lo
Init == k = 1 /\ lo = All[1]
Next == k < Len(All) /\ k' = k + 1 /\ lo' = All[k + 1]
Laws == LET a == MatMul(lo, Transpose(lo))
            inv == InvLower(lo)
            prec == MatMul(Transpose(inv), inv)
            n == Len(lo)
        IN /\ Cholesky(a, lo)
           /\ a = Transpose(a)
           /\ IsLower(inv)
           /\ MatNear(MatMul(lo, inv), Ident(n), "0", "1e-40")
           /\ MatNear(MatMul(a, prec), Ident(n), "0", "1e-40")
           /\ n = 2 => RNear(RMul(DetLower(lo, n), DetLower(lo, n)),
                             RSub(RMul(a[1][1], a[2][2]), RMul(a[1][2], a[2][1])), "1e-40", "1e-40")
           /\ LET v == [i \in 1..n |-> RSub(i, 2)] IN
                RNear(QuadForm(lo, v), RDot(v, MatVec(prec, v)), "1e-40", "1e-40")
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/lin.in",
          [i \in 1..Len(All) |-> [n |-> Len(All[i]), l |-> All[i], m |-> Shift(All[i]),
                                  v |-> [j \in 1..Len(All[i]) |-> RSub(RMul(j, j), 3)]]])
=============================================================================
