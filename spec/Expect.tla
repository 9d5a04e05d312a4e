------------------------------- MODULE Expect -------------------------------
(* Expectations under a law: sums over the mass function, and integrals of   *)
(* the density by double-exponential quadrature (tanh-sinh on a bounded      *)
(* piece, exp-sinh on an unbounded one).  MC_Families checks, for every law  *)
(* used, that the total probability comes out as one and that partial        *)
(* integrals agree with the cumulative function.                             *)
EXTENDS Families
LOCAL HPi == RPi // 2
Sinh(t) == (RExp(t) -- RExp(RNeg(t))) // 2
Cosh(t) == (RExp(t) ++ RExp(RNeg(t))) // 2
\* [u, w] on (0, 1)
LOCAL FinNode(t, h) == LET e == RExp(RNeg(2 ** (HPi ** Sinh(t))))
                           u == 1 // (1 ++ e)
                       IN [u |-> u, w |-> ((h ** RPi) ** Cosh(t)) ** (u ** (e // (1 ++ e)))]
\* [u, w] on (0, inf)
LOCAL UpNode(t, h) == LET u == RExp(HPi ** Sinh(t)) IN [u |-> u, w |-> ((h ** HPi) ** Cosh(t)) ** u]
LOCAL Nodes(F(_, _), t, n) == TLCEval([i \in 1..(2 * n + 1) |-> F((t ** (i - n - 1)) // n, RNorm(t // n))])
Fin1 == TLCEval(Nodes(FinNode, "4.125", 132))
Fin2 == TLCEval(Nodes(FinNode, "4.125", 264))
Up1 == TLCEval(Nodes(UpNode, "5.625", 180))
Up2 == TLCEval(Nodes(UpNode, "5.625", 360))

\* A piece of the line: k = "fin": [a, a + s]; "up": [a, inf); "down": (-inf, a]; s is the scale, fine its resolution.
Fin(a, s, fine) == [k |-> "fin", a |-> a, s |-> s, fine |-> fine]
Up(a, s, fine) == [k |-> "up", a |-> a, s |-> s, fine |-> fine]
Down(a, s, fine) == [k |-> "down", a |-> a, s |-> s, fine |-> fine]
PieceNodes(q) == IF q.k = "fin" THEN (IF q.fine THEN Fin2 ELSE Fin1) ELSE (IF q.fine THEN Up2 ELSE Up1)
Big(x) == RLt(20, x)
Pieces(d) ==
  LET p == d.p
      two(c, s) == << Down(c, s, FALSE), Up(c, s, FALSE) >>
  IN CASE d.fam \in {"arcsine", "uniform"} -> << Fin(RNorm(p[1]), RNorm(p[2]), FALSE) >>
       [] d.fam = "cosine" -> << Fin(p[1] -- p[2], 2 ** p[2], FALSE) >>
       [] d.fam = "triangular" -> << Fin(RNorm(p[1]), RNorm(p[2]), FALSE), Fin(p[1] ++ p[2], RNorm(p[3]), FALSE) >>
       [] d.fam \in {"beta", "kumaraswamy"} -> << Fin("0", "1", Big(p[1]) \/ Big(p[2])) >>
       [] d.fam = "cauchy" -> two(p[1], p[2])
       [] d.fam \in {"gumbel", "laplace", "logistic"} -> two(p[1], p[2])
       [] d.fam = "normal" -> two(p[1], RSqrt(p[2]))
       [] d.fam = "student_t" -> two("0", "1")
       [] d.fam = "folded_normal" -> IF RLt(p[2], RAbs(p[1]))
                                     THEN IF RLt(15 ** p[2], RAbs(p[1])) THEN two(RAbs(p[1]), p[2])
                                          ELSE << Fin("0", RAbs(p[1]), FALSE), Up(RAbs(p[1]), p[2], FALSE) >>
                                     ELSE << Up("0", p[2], FALSE) >>
       [] d.fam = "beta_prime" -> << Up("0", p[1] // p[2], Big(p[1]) \/ Big(p[2])) >>
       [] d.fam = "chi" -> << Up("0", RSqrt(p[1]), Big(p[1])) >>
       [] d.fam = "chi_sq" -> << Up("0", p[1], Big(p[1])) >>
       [] d.fam \in {"erlang", "gamma"} -> << Up("0", p[1] // p[2], Big(p[1])) >>
       [] d.fam = "exponential" -> << Up("0", 1 // p[1], FALSE) >>
       [] d.fam = "f_dist" -> << Up("0", "1", Big(p[1]) /\ Big(p[2])) >>
       [] d.fam = "frechet" -> IF RLt(12, p[1]) THEN << Fin("0", "1", TRUE), Up("1", 1 // p[1], TRUE) >> ELSE << Up("0", "1", RLt(3, p[1])) >>
       [] d.fam = "gev" -> IF RLt(p[3], "0.2") THEN two(p[1], p[2]) ELSE << Up(p[1] -- (p[2] // p[3]), p[2] // p[3], FALSE) >>
       [] d.fam = "gpd" -> << Up(p[1], p[2], FALSE) >>
       [] d.fam = "inverse_gamma" -> << Up("0", p[2] // p[1], Big(p[1])) >>
       [] d.fam = "inverse_normal" -> << Up("0", p[1], RLt(10, p[2] // p[1])) >>
       [] d.fam = "levy" -> << Up(p[1], p[2], FALSE) >>
       [] d.fam = "lognormal" -> IF RLt(p[2], "0.01") THEN << Fin("0", RExp(p[1]), TRUE), Up(RExp(p[1]), RExp(p[1]) ** RSqrt(p[2]), TRUE) >>
                                 ELSE << Up("0", RExp(p[1]), RLt(p[2], "0.1")) >>
       [] d.fam = "pareto" -> << Up(p[1], p[1], FALSE) >>
       [] d.fam = "rayleigh" -> << Up("0", p[1], FALSE) >>
       [] d.fam = "weibull" -> IF RLt(12, p[2]) THEN << Fin("0", RNorm(p[1]), TRUE), Up(RNorm(p[1]), p[1] // p[2], TRUE) >> ELSE << Up("0", p[1], RLt(4, p[2])) >>

Place(q, u) == CASE q.k = "down" -> q.a -- (q.s ** u) [] OTHER -> q.a ++ (q.s ** u)
\* <<x, weight * density, ln density>> at the nodes of a piece where the density is not negligible
PieceTab(d, c, q) ==
  LET N == PieceNodes(q)
      lo == IF q.k = "down" THEN Inf(d) ELSE "-inf"
      row(i) == LET x == Place(q, N[i].u)
                    lf == IF q.k = "down" /\ ~RLt(lo, x) THEN "-inf" ELSE LnFc(d, c, x)
                IN << x, (q.s ** N[i].w) ** RExp(lf), lf >>
      all == TLCEval([i \in 1..Len(N) |-> row(i)])
  IN TLCEval(SelectSeq(all, LAMBDA r : RLt("-2000", r[3]) /\ RLt(r[3], "inf")))
\* bounds of the window of values that carry all but 1e-20 of a discrete law
Window(d) ==
  LET p == d.p
      up(n) == RToInt(RFloor(n))
  IN CASE d.fam = "poisson" -> LET w == (12 ** RSqrt(p[1])) ++ 40 IN << up(RMax(0, p[1] -- w)), up(p[1] ++ w) >>
       [] d.fam = "geometric" -> << 0, IF REq(p[1], 1) THEN 0 ELSE up("-50" // RLn(1 -- p[1])) + 2 >>
       [] OTHER -> << up(Inf(d)), up(Sup(d)) >>
\* few enough values to be listed
Narrow(d) == IF d.fam \in Discrete \ {"degenerate_f", "degenerate_i"} THEN LET w == Window(d) IN w[2] - w[1] < 4000 ELSE TRUE
DiscTab(d) ==
  IF d.fam \in {"degenerate_f", "degenerate_i"} THEN << << Inf(d), "1", "0" >> >>
  ELSE LET w == Window(d)
           row(k) == << RNorm(k), Mass(d, k), LnMass(d, k) >>
       IN TLCEval(SelectSeq(TLCEval([i \in 1..(w[2] - w[1] + 1) |-> row(w[1] + i - 1)]), LAMBDA r : RLt("-2000", r[3])))
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
\* the table of a law: <<point, probability, ln density>>; columns as sequences
Table(d) ==
  LET c == LnC(d)
      P == Pieces(d)
      T == IF d.fam \in Discrete THEN DiscTab(d) ELSE Flat(TLCEval([i \in 1..Len(P) |-> PieceTab(d, c, P[i])]))
  IN TLCEval([x |-> [i \in 1..Len(T) |-> T[i][1]], w |-> [i \in 1..Len(T) |-> T[i][2]], lf |-> [i \in 1..Len(T) |-> T[i][3]]])
Total(t) == RSum(t.w)

\* E|X|^k exists exactly if k < TailIdx; near the border the integral converges too slowly to be computed
HasMoment(d, k) == RLt(k, TailIdx(d))
Computable(d, k) == RLt(RAdd(k, "0.1"), TailIdx(d))
Moments(d, t) ==
  LET m == IF Computable(d, 1) THEN RDot(t.w, t.x) ELSE "NaN"
      y == TLCEval(RSubSeq(t.x, m))
      y2 == TLCEval(RMulSeq(y, y))
      wy == TLCEval(RMulSeq(t.w, y))
      wy2 == TLCEval(RMulSeq(t.w, y2))
  IN [m1 |-> m,
      c2 |-> IF Computable(d, 2) THEN RDot(t.w, y2) ELSE "NaN",
      c3 |-> IF Computable(d, 3) THEN RDot(wy, y2) ELSE "NaN",
      c4 |-> IF Computable(d, 4) THEN RDot(wy2, y2) ELSE "NaN"]
Entropy(t) == RNeg(RDot(t.w, t.lf))

\* the law with its i-th parameter moved by e
Moved(d, i, e) == [d EXCEPT !.p[i] = @ ++ e]
LnAt(d, x) == IF d.fam \in Discrete THEN LnMass(d, x) ELSE LnF(d, x)
\* derivative of the log density in the i-th parameter, at each x of the sequence xs
ScoreSeq(d, i, xs) ==
  LET e == "1e-13" ** (IF Kinds[d.fam][i] = "loc" THEN Pieces(d)[1].s ELSE RAbs(d.p[i]))
      hi == TLCEval(Moved(d, i, e))
      lo == TLCEval(Moved(d, i, RNeg(e)))
      ch == IF d.fam \in Discrete THEN "0" ELSE LnC(hi)
      cl == IF d.fam \in Discrete THEN "0" ELSE LnC(lo)
      at(x) == IF d.fam \in Discrete THEN LnMass(hi, x) -- LnMass(lo, x) ELSE LnFc(hi, ch, x) -- LnFc(lo, cl, x)
  IN TLCEval([j \in 1..Len(xs) |-> at(xs[j]) // (2 ** e)])
\* E[s s'] for the parameters with the given positions
Fisher(d, t, ps) ==
  LET S == TLCEval([i \in 1..Len(ps) |-> ScoreSeq(d, ps[i], t.x)])
  IN TLCEval([i \in 1..Len(ps) |-> [j \in 1..Len(ps) |-> RDot(t.w, RMulSeq(S[i], S[j]))]])
=============================================================================
