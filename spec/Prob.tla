-------------------------------- MODULE Prob --------------------------------
(* Arithmetic of probabilities.  A probability is a real of [0, 1]; an       *)
(* operation on two of them either yields a probability or fails.            *)
EXTENDS Real
Valid(x) == RLe(0, x) /\ RLe(x, 1)
Ops == {"add", "sub", "mul", "div", "rem"}
RealOp(op, a, b) == CASE op = "add" -> RAdd(a, b)
                      [] op = "sub" -> RSub(a, b)
                      [] op = "mul" -> RMul(a, b)
                      [] op = "div" -> IF b = "-0.0" THEN RNeg(RDiv(a, b)) ELSE RDiv(a, b)
                      [] op = "rem" -> RRem(a, b)
Fails == [r |-> "err"]
Apply(op, p, q) == LET r == RealOp(op, p, q) IN IF Valid(r) THEN [r |-> "ok", v |-> r] ELSE Fails
=============================================================================
