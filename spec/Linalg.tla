------------------------------- MODULE Linalg -------------------------------
(* Dense matrices over Real as sequences of rows, and the relations that     *)
(* define a Cholesky factor, a triangular inverse, a Gram product and a      *)
(* triangular matrix-vector product.                                         *)
EXTENDS Real, Sequences, TLC
Col(m, j) == TLCEval([i \in 1..Len(m) |-> m[i][j]])
Transpose(m) == TLCEval([j \in 1..Len(m) |-> Col(m, j)])
MatMul(p, q) == LET c == Transpose(q) IN TLCEval([i \in 1..Len(p) |-> [j \in 1..Len(q) |-> RDot(p[i], c[j])]])
MatVec(m, v) == TLCEval([i \in 1..Len(m) |-> RDot(m[i], v)])
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
IsLower(m) == \A i \in 1..Len(m) : \A j \in (i + 1)..Len(m) : REq(m[i][j], 0)
MatNear(p, q, rel, abs) == /\ Len(p) = Len(q)
                           /\ \A i \in 1..Len(p) : \A j \in 1..Len(p) : RNear(p[i][j], q[i][j], rel, abs)
VecNear(p, q, rel, abs) == /\ Len(p) = Len(q) /\ \A i \in 1..Len(p) : RNear(p[i], q[i], rel, abs)
MatMax(m) == LET row(i) == [j \in 1..Len(m) |-> RAbs(m[i][j])]
                 RECURSIVE Mx(_, _)
                 Mx(s, i) == IF i = 0 THEN "0" ELSE RMax(s[i], Mx(s, i - 1))
             IN Mx([i \in 1..Len(m) |-> Mx(row(i), Len(m))], Len(m))

Cholesky(a, lo) == /\ IsLower(lo) /\ \A i \in 1..Len(lo) : RLt(0, lo[i][i])
                   /\ MatMul(lo, Transpose(lo)) = a
RECURSIVE DetLower(_, _)
DetLower(lo, i) == IF i = 0 THEN "1" ELSE RMul(lo[i][i], DetLower(lo, i - 1))

(* Forward substitution: column j of the inverse of a lower triangle. *)
RECURSIVE Fwd(_, _, _)
Fwd(lo, j, i) ==   \* sequence of the first i entries
  IF i = 0 THEN <<>>
  ELSE LET p == TLCEval(Fwd(lo, j, i - 1))
           acc == RSum([k \in 1..(i - 1) |-> RMul(lo[i][k], p[k])])
       IN Append(p, RDiv(RSub(IF i = j THEN "1" ELSE "0", acc), lo[i][i]))
InvLower(lo) == Transpose(TLCEval([j \in 1..Len(lo) |-> Fwd(lo, j, Len(lo))]))

(* v^T A^{-1} v for A = lo lo^T *)
QuadForm(lo, v) == LET w == MatVec(InvLower(lo), v) IN RDot(w, w)
=============================================================================
