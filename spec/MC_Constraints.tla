--------------------------- MODULE MC_Constraints ---------------------------
(* Exhaustive instance: every term to depth two over a set of atoms, every   *)
(* value of a grid of extended reals.  Its states are (term, value) pairs;   *)
(* its invariants are the Boolean laws the constraint algebra must obey; and *)
(* it writes the terms, values and parameter inputs that the executor then   *)
(* runs through the implementation.                                          *)
EXTENDS Constraints, TLC, Json, IOUtils, SequencesExt
CONSTANT Deep

Consts == IF Deep THEN {"-1", "0", "1.5"} ELSE {"0", "1.5"}
C(op, c) == [op |-> op, c |-> c]
Atoms == {T0(op) : op \in {"neg", "nonpos", "pos", "nonneg"}}
         \cup {C(op, c) : op \in {"eq", "lt", "le", "gt", "ge"}, c \in Consts}
         \cup {[op |-> "in", lb |-> "-1", ub |-> "1.5"], [op |-> "in", lb |-> "0", ub |-> "0"]}
Few == {T0("pos"), T0("nonneg"), C("lt", "1.5"), C("ge", "0"), C("eq", "0"),
        [op |-> "in", lb |-> "-1", ub |-> "1.5"]}
Not(S) == {[op |-> "not", a |-> t] : t \in S}
Bin(S, U) == {[op |-> o, a |-> t, b |-> u] : o \in {"and", "or"}, t \in S, u \in U}
All1(S) == {[op |-> "all1", a |-> t] : t \in S}
D1 == Not(Atoms) \cup Bin(Atoms, Atoms) \cup All1(Atoms)
Mid == Not(Few) \cup Bin(Few, Few) \cup All1(Few)
D2 == Not(Mid) \cup Bin(Few, Mid) \cup Bin(Mid, Few) \cup All1(Mid)
Terms == Atoms \cup D1 \cup D2

Values == {"NaN", "-inf", "-1.7976931348623157e308", "-1.0", "-0.9999999999999999", "-5e-324",
           "-0.0", "0.0", "5e-324", "1.0", "1.0000000000000002", "1.5", "1.4999999999999998",
           "1.7976931348623157e308", "inf"}
IntValues == {"-9223372036854775808", "-1", "0", "1", "2", "9223372036854775807"}
NatValues == {"0", "1", "2", "18446744073709551615"}

(* Sequence-valued inputs *)
Elems == {"NaN", "-1.0", "-0.0", "0.5", "1.5", "inf"}
Seqs == {<<>>} \cup {<<x>> : x \in Elems} \cup {<<x, y>> : x \in Elems, y \in Elems}
        \cup {<<x, y, z>> : x \in Elems, y \in Elems, z \in Elems}
SeqTerms ==
  LET base == {[op |-> "all", a |-> t] : t \in Few \cup Not({T0("pos"), C("lt", "1.5")})} \cup {T0("empty")}
  IN base \cup Not(base) \cup Bin(base, base) \cup Not(Not(base))

Kinds == {"loc", "scale", "rate", "shape", "dof", "count"}
Inputs ==
  SetToSeq({[ev |-> "term", ty |-> "f64", term |-> t, vs |-> SetToSeq(Values)] : t \in Terms})
  \o SetToSeq({[ev |-> "term", ty |-> ty, term |-> t,
                vs |-> SetToSeq(IF ty = "i64" THEN IntValues ELSE NatValues)] :
                 ty \in {"i64", "usize"},
                 t \in {T0("natural"), T0("pos"), T0("nonneg")} \cup Not({T0("natural")})
                       \cup All1({T0("natural"), T0("pos"), T0("nonneg")})})
  \o SetToSeq({[ev |-> "term", ty |-> ty, term |-> t, vs |-> SetToSeq(Seqs)] :
                 ty \in {"vec", "arr"}, t \in SeqTerms})
AdmitInputs ==
  SetToSeq({[ev |-> "admit", kind |-> k, ty |-> "f64", v |-> v] : k \in Kinds \cup {"corr"}, v \in Values})
  \o SetToSeq({[ev |-> "admit", kind |-> k, ty |-> "i64", v |-> v] : k \in Kinds, v \in IntValues})
  \o SetToSeq({[ev |-> "admit", kind |-> k, ty |-> "usize", v |-> v] : k \in Kinds, v \in NatValues})
  \o SetToSeq({[ev |-> "admit", kind |-> k, ty |-> "vec", v |-> v] : k \in Kinds, v \in Seqs})
  \o SetToSeq({[ev |-> "admit", kind |-> k, ty |-> "arr", v |-> v] : k \in Kinds \cup {"conc"}, v \in Seqs})
  \o SetToSeq({[ev |-> "paramset", kind |-> "locscale", v |-> <<x, y>>] : x \in Elems, y \in Elems})
  \o SetToSeq({[ev |-> "paramset", kind |-> "shapes", v |-> <<x, y, z>>] : x \in Elems, y \in Elems, z \in Elems})
  \o SetToSeq({[ev |-> "paramset", kind |-> "mixed", v |-> <<x, y, z, w>>] :
                 x \in Elems, y \in {"NaN", "0.5"}, z \in {"0", "3"}, w \in Elems})

VARIABLES t, v
Init == t \in Terms /\ v \in Values
Next == UNCHANGED <<t, v>>

N(x) == [op |-> "not", a |-> x]
A(x, y) == [op |-> "and", a |-> x, b |-> y]
O(x, y) == [op |-> "or", a |-> x, b |-> y]
Laws ==
  /\ Sat(t, v) \in BOOLEAN
  /\ Sat(N(N(t)), v) = Sat(t, v)
  /\ ~Sat(A(t, N(t)), v) /\ Sat(O(t, N(t)), v)
  /\ t.op = "and" => /\ Sat(t, v) = Sat(A(t.b, t.a), v)
                     /\ Sat(N(t), v) = Sat(O(N(t.a), N(t.b)), v)
                     /\ Sat(t, v) => Sat(O(t.a, t.b), v)
  /\ t.op = "or" => Sat(N(t), v) = Sat(A(N(t.a), N(t.b)), v)
  /\ t.op = "in" => Sat(t, v) = Sat(A(C("ge", t.lb), C("le", t.ub)), v)
  /\ t.op = "pos" => Sat(t, v) = Sat(C("gt", "0"), v)
  /\ t.op = "nonneg" => Sat(t, v) = Sat(C("ge", "0"), v)
  /\ (t.op \in {"lt", "le", "gt", "ge", "in", "pos", "neg", "nonneg", "nonpos", "eq"} /\ v = "NaN") => ~Sat(t, v)
  /\ (t.op = "lt" /\ v # "NaN") => Sat(t, v) = ~Sat(C("ge", t.c), v)
  /\ Run(<<t, N(t)>>, v) = [res |-> "err", stage |-> IF Sat(t, v) THEN 2 ELSE 1, value |-> v]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/constraints.in", Inputs)
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/admit.in", AdmitInputs)
=============================================================================
