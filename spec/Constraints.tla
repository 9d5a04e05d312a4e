---------------------------- MODULE Constraints ----------------------------
(* What a parameter constraint means.  A constraint is a term; a value is a  *)
(* real (see Real.tla) or a sequence of values.  Sat is the whole semantics: *)
(* everything rstat does with constraints (checking, composing, guarding the *)
(* construction of a parameter) is stated in terms of it.                    *)
EXTENDS Real, Sequences, FiniteSets

Nullary == {"neg", "nonpos", "pos", "nonneg", "natural", "empty", "square", "true"}

RECURSIVE Sat(_, _)
Sat(t, v) ==
  CASE t.op = "true"    -> TRUE
    [] t.op = "eq"      -> REq(v, t.c)
    [] t.op = "lt"      -> RLt(v, t.c)
    [] t.op = "le"      -> RLe(v, t.c)
    [] t.op = "gt"      -> RLt(t.c, v)
    [] t.op = "ge"      -> RLe(t.c, v)
    [] t.op = "in"      -> RLe(t.lb, v) /\ RLe(v, t.ub)
    [] t.op = "neg"     -> RLt(v, 0)
    [] t.op = "nonpos"  -> RLe(v, 0)
    [] t.op = "pos"     -> RLt(0, v)
    [] t.op = "natural" -> RLt(0, v)
    [] t.op = "nonneg"  -> RLe(0, v)
    [] t.op = "not"     -> ~Sat(t.a, v)
    [] t.op = "and"     -> Sat(t.a, v) /\ Sat(t.b, v)
    [] t.op = "or"      -> Sat(t.a, v) \/ Sat(t.b, v)
    [] t.op = "all1"    -> Sat(t.a, v)                     \* All over one scalar
    [] t.op = "all"     -> \A i \in 1..Len(v) : Sat(t.a, v[i])
    [] t.op = "empty"   -> Len(v) = 0
    [] t.op = "square"  -> \A i \in 1..Len(v) : Len(v[i]) = Len(v)

(* The constraint guarding each kind of parameter. *)
T0(op) == [op |-> op]
Guard(kind, seq) ==
  LET all(t) == [op |-> (IF seq THEN "all" ELSE "all1"), a |-> t]
  IN CASE kind = "loc" -> T0("true")
       [] kind \in {"scale", "rate", "shape", "dof"} -> all(T0("pos"))
       [] kind = "count" -> all(T0("nonneg"))
       [] kind = "corr" -> all([op |-> "in", lb |-> "-1", ub |-> "1"])
       [] kind = "conc" -> [op |-> "and", a |-> all(T0("pos")), b |-> [op |-> "not", a |-> T0("empty")]]

(* The kinds of the members of the parameter sets the executor builds. *)
Sets == [ locscale |-> <<"loc", "scale">>,
          shapes   |-> <<"shape", "shape", "shape">>,
          mixed    |-> <<"dof", "loc", "count", "rate">> ]

(*-------------------------------------------------------------------------*)
(* A value travelling through a pipeline of checks: every stage hands on     *)
(* the value it was given, the first violated constraint stops it, and the   *)
(* error carries the value back.                                             *)
(*-------------------------------------------------------------------------*)
Run(ts, v) ==
  LET bad == {i \in 1..Len(ts) : ~Sat(ts[i], v)}
  IN IF bad = {} THEN [res |-> "ok", stage |-> Len(ts), value |-> v]
     ELSE [res |-> "err", stage |-> CHOOSE i \in bad : \A j \in bad : i <= j, value |-> v]
=============================================================================
