------------------------------ MODULE Sampling ------------------------------
(* One generator, read by several ways of drawing.  A draw consumes the next *)
(* position of the stream of samples the generator determines; drawing n,    *)
(* or iterating, is drawing one at a time.                                   *)
EXTENDS Naturals, Sequences
Kinds == {"one", "n", "iter"}
Size(op) == IF op.k = "one" THEN 1 ELSE op.n
RECURSIVE Total(_)
Total(ops) == IF Len(ops) = 0 THEN 0 ELSE Size(Head(ops)) + Total(Tail(ops))
\* what each request of a history returns, given the stream
Returned(ops, stream) ==
  [i \in 1..Len(ops) |-> LET from == Total(SubSeq(ops, 1, i - 1)) IN SubSeq(stream, from + 1, from + Size(ops[i]))]
=============================================================================
