---------------------------- MODULE TraceVectors ----------------------------
(* The implementation's distributions over vectors, against Vectors.         *)
EXTENDS Vectors, TraceBase
S == INSTANCE Sampling
CONSTANT Prop
VARIABLES law, w, ok
Site(f) == law.fam \o "." \o f
Absent(v) == v = "-"
Z0(v) == REq(v, 0)
SameNums(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : REq(p[i], q[i])
SameRows(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameNums(p[i], q[i])
\* entries of the covariance are known only relative to the spreads they combine
CovNear(c, s, rel) == Len(c) = Len(s) /\ \A i \in 1..Len(s) : Len(c[i]) = Len(s) /\ \A j \in 1..Len(s) :
                         RLe(RAbs(c[i][j] -- s[i][j]), (rel ** RSqrt(s[i][i] ** s[j][j])) ++ "1e-300")
Degenerate == (law.fam = "dirichlet" /\ law.n = 1) \/ (law.fam = "multinomial" /\ (Z0(law.m[1][1]) \/ \E i \in 1..law.n : Z0(law.a[i]) \/ RLe(1, law.a[i])))

(*--------------------------- C16, C18: densities --------------------------*)
Close(l1, l2) == RLe(RAbs(l1 -- l2), "1e-8" ** (1 ++ RAbs(l2)))
Name == IF law.fam = "multinomial" THEN "pmf" ELSE "pdf"
PtLaws(e) ==
  LET lf == LnDen(law, w, e.x)
      d2 == IF law.fam \in Plain THEN Dist2(w, e.x) ELSE "0"
  IN (IF OnFace(law, e.x) THEN {<<"non-negative", Site(Name), RLe(0, e.den)>>} ELSE
      { <<"non-negative", Site(Name), RLe(0, e.den) /\ (Name = "pmf" => RLe(e.den, 1))>>,
        <<"outside", Site(Name), lf = "-inf" => Z0(e.den)>>,
        <<"value", Site(Name), lf # "-inf" => (IF RLe(lf, "-690") THEN RLe(e.den, "1e-295") ELSE IF RLe("700", lf) THEN RLe("1e300", e.den)
                                               ELSE RLt(0, e.den) /\ RIsFin(e.den) /\ Close(RLn(e.den), lf))>>,
        <<"logarithm", Site("log_" \o Name), IF lf = "-inf" THEN e.lden = "-inf"
                                             ELSE IF RLe(RAbs(lf), "690") THEN RIsFin(e.lden) /\ Close(e.lden, lf)
                                             ELSE IF RLt(0, lf) THEN RLt("600", e.lden) ELSE RLt(e.lden, "-600")>>,
        <<"univariate-case", Site(Name), (~Absent(e.uni) /\ (law.fam = "dirichlet" => AllIn(e.x, LAMBDA v : RLt("1e-6", v)))) => (IF RLt("1e-290", e.den) THEN RNear(e.uni, e.den, "1e-7", 0) ELSE RLe(e.uni, "1e-280"))>> })
     \cup { <<"mahalanobis", Site("z"), ~Absent(e.d2) => RNear(e.d2, d2, "1e-8", "1e-300")>>,
            <<"mahalanobis", Site("d_mahalanobis"), ~Absent(e.d) => RNear(e.d, RSqrt(d2), "1e-8", "1e-150")>>,
            <<"square", Site("d_mahalanobis_squared"), ~Absent(e.d) => RNear(Sq(e.d), e.d2, "1e-12", "1e-300")>> }
MomLaws(e) ==
  LET c == TLCEval(VCov(law, w))
      m == TLCEval(VMean(law, w))
      r == TLCEval(Corr(c))
  IN { <<"dimension", Site("dimensionality"), e.dim = ToString(law.n)>>,
       <<"moment", Site("mean"), VecNear(e.mean, m, "1e-10", "1e-300")>>,
       <<"moment", Site("variance"), Len(e.var) = law.n /\ \A i \in 1..law.n : RNear(e.var[i], c[i][i], "1e-9", "1e-300")>>,
       <<"moment", Site("covariance"), CovNear(e.cov, c, "1e-9")>>,
       <<"symmetric", Site("covariance"), \A i, j \in 1..law.n : RNear(e.cov[i][j], e.cov[j][i], "1e-12", 0)>>,
       <<"diagonal", Site("covariance"), \A i \in 1..law.n : RNear(e.cov[i][i], e.var[i], "1e-12", "1e-300")>>,
       <<"correlation", Site("correlation"), Degenerate \/ MatNear(e.corr, r, 0, "1e-9")>>,
       <<"unit-diagonal", Site("correlation"), Degenerate \/ \A i \in 1..law.n : RNear(e.corr[i][i], 1, "1e-12", 0)>> }
ModeLaws(ms) ==
  IF law.fam = "dirichlet"
  THEN IF \A i \in 1..law.n : RLt(1, law.a[i])
       THEN Len(ms) = 1 /\ VecNear(ms[1], [i \in 1..law.n |-> IF law.n = 1 THEN "1" ELSE (law.a[i] -- 1) // (A0(law) -- law.n)], "1e-9", 0)
       ELSE Len(ms) = 0
  ELSE Len(ms) = 1 /\ SameNums(ms[1], w.mu)
InfoLaws(e) ==
  { <<"entropy", Site("shannon_entropy"), ~Absent(e.h) => RNear(e.h, VEntropy(law, w), "1e-9", "1e-9")>>,
    <<"mode", Site("modes"), ~RIsSeq(e.modes) \/ ModeLaws(e.modes)>>,
    <<"precision", Site("precision"), ~Absent(e.prec) => RNear(e.prec, 1 // w.s[1][1], "1e-12", 0)>>,
    <<"categories", Site("n_categories"), Has(e, "cats") => e.cats = ToString(law.n)>> }
TotalLaws(e) == { <<"total", Site(Name), RLe(law.m[1][1], 6) => RNear(RSum(e.masses), 1, 0, "1e-9")>> }

(*------------------------------ C07: samples ------------------------------*)
Near(c, n, q) == LET p == c // n
                     v == RMax(p ** (1 -- p), q ** (1 -- q))
                 IN RLe(RAbs(p -- q), (8 ** RSqrt(v // n)) ++ (60 // n))
Between(c, n, q0, q1) == LET p == c // n IN (RLe(q0, p) /\ RLe(p, q1)) \/ Near(c, n, q0) \/ Near(c, n, q1)
\* (a sum computed in floating point is known up to this much)
Blur(u) == IF Gaussian(law) THEN "1e-14" ** RSum([i \in 1..law.n |-> RAbs(u[i]) ** (RAbs(w.mu[i]) ++ (10 ** RSqrt(w.s[i][i])))]) ELSE "1e-15"
Tiny == law.fam = "dirichlet" /\ \E i \in 1..law.n : RLt(law.a[i], "0.05")
Whole(u) == law.fam = "dirichlet" /\ \A i \in 1..law.n : ~Z0(u[i])
SampleLaws(e) ==
  LET p == TLCEval(Project(law, w, e.w))
      b == Blur(e.w)
      C(x) == IF Gaussian(law) THEN Cdf(p, x) ELSE IF RLe(x, 0) THEN "0" ELSE IF RLe(1, x) THEN "1" ELSE Cdf(p, x)
  IN { <<"in-support", Site("sample"), e.outside = "0" /\ e.nan = "0" /\ (law.fam = "dirichlet" => RLe(e.off, "1e-9"))>>,
       <<"distributed", Site("sample"), Tiny \/ Whole(e.w) \/ \A i \in 1..Len(e.ranks) : LET r == e.ranks[i] IN
          Between(r[3], e.n, C(r[1] -- b), C(r[1] ++ b))>>,
       <<"independent", Site("sample"), Tiny \/ Whole(e.w) \/ Near(e.both, RFloor(e.n // 2), Sq(C(e.med)))>> }
HistLaws(e) ==
  LET want == S!Returned(e.ops, e.stream) IN
  { <<"count", Site("sample_n"), Len(e.got) = Len(e.ops) /\ \A i \in 1..Len(e.ops) : RIsSeq(e.got[i]) /\ Len(e.got[i]) = S!Size(e.ops[i])>>,
    <<"one-at-a-time", Site("sample_n"), Len(e.got) = Len(want) /\ \A i \in 1..Len(want) : e.got[i] = want[i]>>,
    <<"generator", Site("sample_n"), e.rng[1] = e.rng[2]>>, <<"unaltered", Site("sample"), e.par[1] = e.par[2]>> }

(*------------------------- C14: making, parameters ------------------------*)
Given(e) == VLaw(e.fam, e.n, e.a, e.m)
\* a matrix whose diagonal is positive but which is no covariance matrix
NoCovariance(d) == Under(d.fam) = "full" /\ (\A i \in 1..d.n : Pos(d.m[i][i])) /\ ~PosDef(d.m)
BeginLaws(e) ==
  LET d == Given(e)
  IN { <<"admits", e.fam \o ".new", e.made = (IF e.kind \in {"raw", "default"} \/ VValid(d) THEN "ok" ELSE "err"),
         IF NoCovariance(d) THEN "no-covariance-matrix" ELSE "-">> }
SupLaws(e) == { <<"bounds", Site("support"), SameNums(e.inf, Rep(VInf(law), law.n)) /\ SameNums(e.sup, Rep(VSup(law), law.n))>>,
                <<"contains", Site("support"), \A i \in 1..Len(e.has) : e.has[i][2] <=> InBox(law, e.has[i][1])>> }
ParLaws(e) == LET s == Site(e.how)
                  k == Canon(law)
                  weights == law.fam = "multinomial" IN
  { <<"parameters", s, IF weights THEN VecNear(e.a, k.a, 0, "1e-15") ELSE SameNums(e.a, k.a)>>,
    <<"parameters", s, SameRows(e.m, k.m)>>,
    <<"same-law", s, \A i \in 1..Len(e.same) : LET r == e.same[i] IN r[2] = r[3]>>,
    <<"same-moments", s, e.mom[1] = e.mom[2]>>,
    <<"same-support", s, e.bounds[1] = e.bounds[2]>> }

RECURSIVE Flatten(_)
Flatten(m) == IF Len(m) = 0 THEN << >> ELSE Head(m) \o Flatten(Tail(m))
\* <<opening of the printed form, its numbers>>
VPrinted == CASE law.fam = "dirichlet" -> << "Dir(", law.a >>
              [] law.fam = "multinomial" -> << "Mult(", <<law.m[1][1]>> \o law.a >>
              [] law.fam \in {"ln_isotropic", "ln_homogeneous", "ln_standard"} -> LET k == Canon(law) IN << "LogNormal(", k.a \o k.m[1] >>
              [] law.fam = "scalar" -> << "N(", law.a \o law.m[1] >>
              [] OTHER -> << "N(", VMean(law, w) \o Flatten(VCov(law, w)) >>
ShowLaws(e) == LET P == VPrinted IN
  { <<"printed", Site("fmt"), SubSeq(e.text, 1, Len(P[1])) = P[1] /\ VecNear(e.nums, P[2], "1e-15", "1e-300")>> }
Laws(e) ==
  CASE e.ev = "show" -> IF ok THEN ShowLaws(e) ELSE {}
    [] e.ev = "begin" -> IF Prop = "C14" THEN BeginLaws(e) ELSE { <<"made", e.fam \o ".new", e.made = "ok">> }
    [] ~ok -> {}
    [] e.ev = "pt" -> PtLaws(e)
    [] e.ev = "mom" -> MomLaws(e)
    [] e.ev = "info" -> InfoLaws(e)
    [] e.ev = "total" -> TotalLaws(e)
    [] e.ev = "samples" -> SampleLaws(e)
    [] e.ev = "hist" -> HistLaws(e)
    [] e.ev = "sup" -> SupLaws(e)
    [] e.ev = "par" -> ParLaws(e)
    [] e.ev = "nosample" -> { <<"offered", Site("sample"), law.fam = "multinomial">> }
Named(ls) == {IF Len(p) = 4 /\ p[4] # "-" THEN <<p[1], p[2], p[4]>> ELSE <<p[1], p[2]>> : p \in {q \in ls : ~q[3]}}
None0 == VLaw("-", 0, << >>, << >>)
Init == l = 1 /\ law = None0 /\ w = Work(None0) /\ ok = FALSE
Next == /\ Consume(Named(Laws(Ev)))
        /\ IF Ev.ev = "begin" THEN /\ law' = Given(Ev) /\ ok' = (Ev.made = "ok" /\ VValid(Given(Ev)))
                                   /\ w' = (IF ok' THEN Work(Given(Ev)) ELSE Work(None0))
           ELSE UNCHANGED <<law, w, ok>>
=============================================================================
