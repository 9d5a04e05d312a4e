------------------------------ MODULE MC_Prob ------------------------------
(* Every chain of up to Depth operations on the probabilities of a grid, in  *)
(* exact arithmetic; the chains, and every pair of edge values under every   *)
(* operation, become the executor's inputs.                                  *)
EXTENDS Prob, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth
Start == {"0", "0.25", "0.5", "0.75", "1"}
Edges == {"-inf", "-1", "-5e-324", "-0.0", "0.0", "5e-324", "1e-300", "1e-17", "0.1", "0.25", "0.3333333333333333",
          "0.5", "0.7", "0.9", "0.9999999999999999", "1.0", "1.0000000000000002", "1.5", "2.0", "inf", "NaN"}
Good == {x \in Edges : Valid(x)}
Reals == {"-inf", "-2.5", "-1", "-0.0", "0.0", "1e-300", "0.25", "1.0", "1.5", "3", "1.7976931348623157e308", "inf", "NaN"}
VARIABLES v, h
Init == v \in Start /\ h = <<>>
Do(op, q) == LET r == Apply(op, v, q) IN
             /\ v' = IF r.r = "ok" THEN RNorm(r.v) ELSE "failed"
             /\ h' = Append(h, [op |-> op, q |-> q])
Not == v' = RNorm(1 -- v) /\ h' = Append(h, [op |-> "not", q |-> "0"])
Next == /\ v # "failed" /\ Len(h) < Depth
        /\ (Not \/ \E op \in Ops, q \in Start : Do(op, q))
Laws ==
  /\ v = "failed" \/ Valid(v)
  /\ v # "failed" =>
      /\ RNear(1 -- (1 -- v), v, "1e-45", "0")
      /\ \A q \in Start :
           /\ Apply("mul", v, q).r = "ok"
           /\ (Apply("add", v, q).r = "ok") = RLe(v, 1 -- q)
           /\ (Apply("sub", v, q).r = "ok") = RLe(q, v)
           /\ Apply("div", v, q).r = "ok" => RLe(v, q) /\ RNear(Apply("div", v, q).v ** q, v, "1e-45", "0")
           /\ Apply("rem", v, q).r = "ok" => RLt(Apply("rem", v, q).v, q)
           /\ Apply("add", v, q) = Apply("add", q, v)
           /\ Apply("sub", v, q).r = "ok" => RNear(Apply("add", Apply("sub", v, q).v, q).v, v, "1e-45", "0")
Step == {[op |-> op, q |-> q] : op \in Ops, q \in Start} \cup {[op |-> "not", q |-> "0"]}
Inputs ==
  SetToSeq({[ev |-> "grid", vs |-> SetToSeq(Edges)]})
  \o SetToSeq({[ev |-> "chain", v |-> x, steps |-> <<>>] : x \in Edges})
  \o SetToSeq({[ev |-> "chain", v |-> p, steps |-> <<[op |-> op, q |-> q]>>] : p \in Good, op \in Ops \cup {"not"}, q \in Good})
  \o SetToSeq({[ev |-> "chain", v |-> p, steps |-> <<s, t>>] : p \in Start, s \in Step, t \in Step})
  \o SetToSeq({[ev |-> "real", op |-> op, p |-> p, y |-> y] : op \in Ops, p \in Good, y \in Reals})
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/prob.in", Inputs)
=============================================================================
