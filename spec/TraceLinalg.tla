---------------------------- MODULE TraceLinalg ----------------------------
(* The implementation's factorisations and products against Linalg.          *)
EXTENDS Linalg, TraceBase
LinLaws(e) ==
  LET n == e.n
      inv == InvLower(e.l)
      big == RMax(MatMax(inv), 1)
      scale == RMul(RMul(big, big), RMax(MatMax(e.a), 1))   \* crude condition bound
      tol == RMul("1e-13", RMul(scale, n))
  IN { <<"cholesky-lower", "linalg.cholesky", IsLower(e.chol)>>,
       <<"cholesky-factor", "linalg.cholesky", MatNear(MatMul(e.chol, Transpose(e.chol)), e.a, "0", RMul("1e-13", RMul(n, MatMax(e.a))))>>,
       <<"cholesky", "linalg.cholesky", MatNear(e.chol, e.l, "0", tol)>>,
       <<"inverse-lower", "linalg.inverse_lt", IsLower(e.inv)>>,
       <<"inverse", "linalg.inverse_lt", MatNear(e.inv, inv, "0", tol)>>,
       <<"gram", "linalg.mm_square", MatNear(e.sq, MatMul(Transpose(e.m), e.m), "0", RMul("1e-14", RMul(n, RAdd(1, RMul(MatMax(e.m), MatMax(e.m))))))>>,
       <<"precision", "linalg.precision", MatNear(MatMul(e.a, e.prec), Ident(n), "0", RMul(tol, 10))>>,
       <<"product", "linalg.mv_mult", VecNear(e.mv, MatVec(e.l, e.v), "1e-13", "1e-12")>> }
Init == l = 1
Next == l <= Len(Trace) /\ Consume(Broken(LinLaws(Ev)))
=============================================================================
