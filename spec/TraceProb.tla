----------------------------- MODULE TraceProb -----------------------------
(* Recorded probability arithmetic against Prob.  cur is the probability the *)
(* chain has reached.                                                        *)
EXTENDS Prob, TraceBase
VARIABLE cur
Tiny == "5e-324"
Big == "1.7976931348623158e308"
\* a binary64 result of the real r, for operands no larger than s
Is(obs, r, s) ==
  IF RIsNaN(r) THEN obs = "NaN"
  ELSE IF RIsFin(r) /\ RLt(Big, RAbs(r)) THEN obs = (IF RLt(0, r) THEN "inf" ELSE "-inf")
  ELSE IF ~RIsFin(r) THEN REq(obs, r)
  ELSE RNear(obs, r, "2.3e-16", Tiny ++ ("2.3e-17" ** s))
Scale(op, a, b) == IF op \in {"add", "sub"} /\ RIsFin(a) /\ RIsFin(b) THEN RMax(RAbs(a), RAbs(b)) ELSE "0"
\* an outcome of p op q; a sum that only rounding separates from one may go either way
IsOutcome(o, op, p, q) ==
  LET r == RealOp(op, p, q)
      close == RLt(1, r) /\ RLe(r, "1.00000000000000023")
  IN CASE o.r = "ok" -> (Valid(r) \/ close) /\ Is(o.v, r, Scale(op, p, q)) /\ Valid(o.v)
       [] o.r = "err" -> op # "mul" /\ (~Valid(r) \/ close)
       [] OTHER -> FALSE
BeginLaws(e) ==
  LET ok == Valid(e.v)
      good(o) == IF ok THEN o.r = "ok" /\ REq(o.v, e.v) ELSE o.r = "err"
  IN { <<"accepts", "Probability::new", good(e.new)>>, <<"accepts", "Probability::try_from", good(e.try)>>,
       <<"accepts", "Probability::constraints", e.cons = ok>>, <<"accepts", "Probability::is_valid", e.valid = ok>>,
       <<"unchanged", "Probability::new_unchecked", e.unchecked = e.v>>,
       <<"constant", "Probability", REq(e.zero, 0) /\ REq(e.half, "0.5") /\ REq(e.one, 1) /\ REq(e.default, 0)>> }
StepLaws(e) ==
  { <<"continues", "chain", REq(e.p, cur)>>,
    IF e.op = "not"
    THEN <<"complement", "op.not", \A i \in 1..Len(e.pp) : e.pp[i].r = "ok" /\ Is(e.pp[i].v, 1 -- e.p, 1) /\ Valid(e.pp[i].v)>>
    ELSE <<"result", "op." \o e.op, \A i \in 1..Len(e.pp) : IsOutcome(e.pp[i], e.op, e.p, e.q)>>,
    <<"same-in-every-form", "op." \o e.op, \A i \in 1..Len(e.pp) : e.pp[i] = e.pp[1]>>,
    <<"with-real", "op." \o e.op, \A i \in 1..Len(e.mixed) : Is(e.mixed[i], RealOp(e.op, e.p, e.q), Scale(e.op, e.p, e.q))>> }
RealLaws(e) ==
  { <<"real-left", "op." \o e.op, \A i \in 1..Len(e.fp) : Is(e.fp[i], RealOp(e.op, e.y, e.p), Scale(e.op, e.p, e.y))>>,
    <<"real-right", "op." \o e.op, \A i \in 1..Len(e.pf) : Is(e.pf[i], RealOp(e.op, e.p, e.y), Scale(e.op, e.p, e.y))>> }
Ln2 == RLn(2)
FunLaws(e) ==
  LET p == e.p IN
  { <<"ln", "Probability::ln", RNear(e.ln, RLn(p), "4e-16", "1e-17")>>,
    <<"log2", "Probability::log2", RNear(e.log2, RLn(p) // Ln2, "4e-16", "1e-17")>>,
    <<"powf", "Probability::powf", \A i \in 1..Len(e.powf) :
         IF REq(p, 0) THEN REq(RAbs(e.powf[i][2]), RPow(0, e.powf[i][1]))
         ELSE LET r == RPow(p, e.powf[i][1]) IN
              IF RLt(Big, r) THEN e.powf[i][2] = "inf" ELSE RNear(e.powf[i][2], r, "1e-14", Tiny)>>,
    <<"powi", "Probability::powi", \A i \in 1..Len(e.powi) :
         IF REq(p, 0) THEN REq(RAbs(e.powi[i][2]), RPow(0, e.powi[i][1]))
         ELSE LET r == RPow(p, e.powi[i][1]) IN
              IF RLt("1e307", r) THEN e.powi[i][2] = "inf" \/ RNear(e.powi[i][2], r, "1e-14", 0)
              \* a reciprocal of an underflowed power may overflow early
              ELSE RNear(e.powi[i][2], r, "1e-14", Tiny)>>,
    <<"value", "Probability::unwrap", e.unwrap = p /\ e.into = p /\ e.value = p /\ e.into_value = p /\ e.clone = p /\ e.valid>>,
    <<"display", "Probability::fmt", RNear(e.disp, p, "1.2e-16", Tiny)>> }
CmpLaws(e) ==
  LET a == e.p
      b == e.q IN
  { <<"compare", "Probability::cmp",
      /\ e.eq = REq(a, b) /\ e.ne = ~REq(a, b) /\ e.lt = RLt(a, b) /\ e.le = RLe(a, b)
      /\ e.gt = RLt(b, a) /\ e.ge = RLe(b, a)
      /\ e.pc = (CASE RLt(a, b) -> "Less" [] REq(a, b) -> "Equal" [] RLt(b, a) -> "Greater" [] OTHER -> "None")>>,
    <<"compare-real", "Probability::eq", e.eqf = REq(a, b) /\ e.nef = ~REq(a, b)>> }
SumLaws(e) ==
  { <<"sum", "Probability::sum", RNear(e.refs, RSum(e.xs), "1e-15", Tiny) /\ RNear(e.owned, RSum(e.xs), "1e-15", Tiny)>> }
Laws(e) == CASE e.ev = "begin" -> BeginLaws(e) [] e.ev = "step" -> StepLaws(e) [] e.ev = "real" -> RealLaws(e)
             [] e.ev = "fun" -> FunLaws(e) [] e.ev = "cmp" -> CmpLaws(e) [] e.ev = "sum" -> SumLaws(e)
Reached(o) == IF o.r = "ok" THEN o.v ELSE "failed"
Init == l = 1 /\ cur = "none"
Next == /\ Consume(Broken(Laws(Ev)))
        /\ cur' = CASE Ev.ev = "begin" -> Reached(Ev.new) [] Ev.ev = "step" -> Reached(Ev.pp[1]) [] OTHER -> cur
=============================================================================
