-------------------------- MODULE TraceConstraints --------------------------
(* Recorded constraint checks and parameter admissions against Constraints.  *)
EXTENDS Constraints, TraceBase

(* One observation of a check of t on v: o.sat is the predicate's answer,    *)
(* o.res/o.back what check returned, o.culprit whether the value satisfies   *)
(* the constraint that the error blames.                                     *)
CheckLaws(t, v, o, site) ==
  LET want == Sat(t, v) IN
  { <<"sat", site, o.sat = want>>,
    <<"check", site, o.res = (IF want THEN "ok" ELSE "err")>>,
    <<"value-kept", site, Has(o, "back") /\ o.back = v>>,
    <<"culprit", site, o.res = "err" => ~o.culprit>>,
    <<"message", site, o.res = "err" => o.says /\ o.named>> }

TermLaws(e) == UNION {CheckLaws(e.term, e.obs[i].v, e.obs[i], "constraint." \o e.term.op) : i \in 1..Len(e.obs)}

(* Same value up to the spelling of a numeral (NaN is itself). *)
SameReal(a, b) == REq(a, b) \/ (RIsNaN(a) /\ RIsNaN(b))
SameValue(a, b) == IF a = b THEN TRUE
                   ELSE IF RIsSeq(a) THEN /\ Len(a) = Len(b)
                                           /\ \A i \in 1..Len(a) : SameReal(a[i], b[i])
                   ELSE SameReal(a, b)

IsSeq(e) == e.ty \in {"vec", "arr"}
AdmitLaws(e) ==
  LET o == e.obs
      site == "param." \o e.kind
      want == Sat(Guard(e.kind, IsSeq(e)), e.v)
      given == e.v
      \* the executor echoes -0.0, 0.0 etc. exactly; the value must be the one given
  IN { <<"admit", site, o.res = (IF want THEN "ok" ELSE "err")>>,
       <<"value", site, o.res = "ok" => /\ o.value = o.unchecked /\ o.field = o.unchecked
                                        /\ o.into = o.unchecked /\ o.same = o.unchecked>>,
       <<"display", site, Has(o, "disp") => o.disp>>,
       <<"rejected-value", site, o.res = "err" => o.back = o.unchecked /\ ~o.culprit /\ o.says /\ o.named>>,
       <<"declared-constraints", site, o.cons = want>>,
       <<"unchecked", site, SameValue(o.unchecked, e.v)>> }

SetLaws(e) ==
  LET o == e.obs
      ks == Sets[e.kind]
      good(i) == Sat(Guard(ks[i], FALSE), e.v[i])
      want == \A i \in 1..Len(ks) : good(i)
  IN { <<"admit-set", "params." \o e.kind, o.res = (IF want THEN "ok" ELSE "err")>>,
       <<"set-values", "params." \o e.kind,
          /\ SameValue(o.unchecked, e.v)
          /\ o.res = "ok" => o.value = o.unchecked
          /\ o.res = "err" => \E i \in 1..Len(ks) : ~good(i) /\ o.names[i]>> }

SquareLaws(e) == { <<"square", "constraint.square", e.sat>>, <<"all-matrix", "constraint.all", e.pos /\ ~e.bad>> }

Laws(e) == CASE e.ev = "term" -> TermLaws(e)
             [] e.ev = "admit" -> AdmitLaws(e)
             [] e.ev = "paramset" -> SetLaws(e)
             [] e.ev = "square" -> SquareLaws(e)

Init == l = 1
Next == Consume(Broken(Laws(Ev)))
=============================================================================
