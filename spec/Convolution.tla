---------------------------- MODULE Convolution ----------------------------
(* Sums of independent random variables within the families of Families:     *)
(* which pairs of families promise a family for the sum, when it delivers    *)
(* it, and which law that is.                                                *)
EXTENDS Expect
LOCAL L(f, p) == [fam |-> f, p |-> p]
Pairs == { <<"bernoulli", "bernoulli">>, <<"binomial", "bernoulli">>, <<"binomial", "binomial">>, <<"cauchy", "cauchy">>,
           <<"chi_sq", "chi_sq">>, <<"gamma", "gamma">>, <<"gamma", "exponential">>, <<"normal", "normal">>, <<"poisson", "poisson">> }
Offered(f, g) == <<f, g>> \in Pairs
\* the parameter that has to be shared
Shared(d) == CASE d.fam \in {"bernoulli", "exponential"} -> d.p[1] [] d.fam \in {"binomial", "gamma"} -> d.p[2] [] OTHER -> "0"
Closed(d, e) == Offered(d.fam, e.fam) /\ REq(Shared(d), Shared(e))
SumLaw(d, e) ==
  LET p == d.p
      q == e.p
  IN CASE d.fam = "bernoulli" -> L("binomial", <<"2", p[1]>>)
       [] d.fam = "binomial" /\ e.fam = "bernoulli" -> L("binomial", <<p[1] ++ 1, p[2]>>)
       [] d.fam = "binomial" -> L("binomial", <<p[1] ++ q[1], p[2]>>)
       [] d.fam \in {"cauchy", "normal"} -> L(d.fam, <<p[1] ++ q[1], p[2] ++ q[2]>>)
       [] d.fam \in {"chi_sq", "poisson"} -> L(d.fam, <<p[1] ++ q[1]>>)
       [] d.fam = "gamma" /\ e.fam = "gamma" -> L("gamma", <<p[1] ++ q[1], p[2]>>)
       [] d.fam = "gamma" -> L("gamma", <<p[1] ++ 1, p[2]>>)
Refused == L("refused", << >>)
SameLaw(d, e) == d.fam = e.fam /\ Len(d.p) = Len(e.p) /\ \A i \in 1..Len(d.p) : RNear(d.p[i], e.p[i], "1e-12", "1e-12")
\* d plus every law of the sequence es, one at a time; refused if one of the sums is not promised
RECURSIVE SumAll(_, _)
SumAll(d, es) == IF d = Refused \/ Len(es) = 0 THEN d
                 ELSE SumAll(IF Closed(d, Head(es)) THEN SumLaw(d, Head(es)) ELSE Refused, Tail(es))
MeanOf(d) == LET p == d.p IN
  CASE d.fam \in {"bernoulli", "chi_sq", "poisson", "normal"} -> RNorm(p[1]) [] d.fam = "binomial" -> p[1] ** p[2]
    [] d.fam = "gamma" -> p[1] // p[2] [] d.fam = "exponential" -> 1 // p[1] [] OTHER -> "NaN"
VarOf(d) == LET p == d.p IN
  CASE d.fam = "bernoulli" -> p[1] ** (1 -- p[1]) [] d.fam = "binomial" -> p[1] ** (p[2] ** (1 -- p[2]))
    [] d.fam = "chi_sq" -> 2 ** p[1] [] d.fam = "poisson" -> RNorm(p[1]) [] d.fam = "normal" -> RNorm(p[2])
    [] d.fam = "gamma" -> p[1] // Sq(p[2]) [] d.fam = "exponential" -> 1 // Sq(p[1]) [] OTHER -> "NaN"
=============================================================================
