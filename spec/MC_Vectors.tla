----------------------------- MODULE MC_Vectors -----------------------------
(* Walks the catalogue of vector laws, point by point; the laws of vectors   *)
(* are checked against those of numbers they are made of.                    *)
EXTENDS Catalogue, Vectors, Json
CONSTANTS NVec          \* random laws per shape
VARIABLES id, k, seen

(*-------------------------------- catalogue -------------------------------*)
G(f, n, a, m) == VLaw(f, n, a, m)
M2 == << <<"1", "0.5">>, <<"0.5", "1">> >>
M2b == << <<"4", "-1.9">>, <<"-1.9", "1">> >>
M3 == << <<"25", "15", "-5">>, <<"15", "18", "0">>, <<"-5", "0", "11">> >>
M3b == << <<"0.04", "0.01", "0">>, <<"0.01", "9", "-2">>, <<"0", "-2", "1">> >>
M4 == << <<"2", "0.5", "0.25", "0">>, <<"0.5", "1", "-0.5", "0.1">>, <<"0.25", "-0.5", "3", "0.7">>, <<"0", "0.1", "0.7", "0.5">> >>
\* random lower factors
RandLo(j, n) == LET us == Uniforms(700 + 13 * j + n, n * n) IN
  TLCEval([i \in 1..n |-> [t \in 1..n |-> IF t > i THEN "0" ELSE IF t = i THEN Dec("0.3" ++ ((us[n * (i - 1) + t] % 400) // 150), 2)
                                  ELSE Dec(((us[n * (i - 1) + t] % 400) -- 200) // 150, 2)]])
RandVec(j, n) == LET us == Uniforms(900 + 17 * j + n, n) IN TLCEval([i \in 1..n |-> Dec(((us[i] % 2000) -- 1000) // 100, 2)])
RandPos(j, n) == LET us == Uniforms(1100 + 19 * j + n, n) IN TLCEval([i \in 1..n |-> Dec(RExp((us[i] // 13000) -- 2), 2) ++ "0.05"])
RandPs(j, n) == LET us == Uniforms(1300 + 23 * j + n, n)
                    ws == [i \in 1..n |-> 1 + (us[i] % 50)]
                    t == RSum(ws)
                IN TLCEval([i \in 1..n |-> IF i = n THEN 1 -- RSum([q \in 1..(n - 1) |-> Dec(ws[q] // t, 3)]) ELSE Dec(ws[i] // t, 3)])
RandRho(j) == Dec(((Uniforms(1500 + j, 1)[1] % 190) -- 95) // 100, 2)
Full(j, n) == LET lo == RandLo(j, n) IN MatMul(lo, Transpose(lo))
Scaled(v, c) == TLCEval([i \in 1..Len(v) |-> v[i] // c])
Fixed == {
  G("scalar", 1, <<"-3">>, << <<"0.25">> >>), G("scalar", 1, <<"1e6">>, << <<"1">> >>),
  G("full", 1, <<"2">>, << <<"4">> >>), G("full", 2, <<"0", "1">>, M2), G("full", 2, <<"-2", "100">>, M2b), G("full", 2, <<"0.5", "-3">>, << <<"2", "0">>, <<"0", "0.5">> >>),
  G("full", 3, <<"1", "2", "3">>, M3), G("full", 3, <<"0", "-1", "7">>, M3b), G("full", 4, <<"0", "1", "-1", "10">>, M4),
  G("diagonal", 1, <<"2">>, << <<"4">> >>), G("diagonal", 2, <<"0.5", "-3">>, << <<"2", "0.5">> >>), G("diagonal", 4, <<"0", "1", "2", "3">>, << <<"1", "4", "0.01", "25">> >>),
  G("isotropic", 1, <<"2">>, << <<"4">> >>), G("isotropic", 3, <<"1", "-1", "5">>, << <<"0.25">> >>), G("isotropic", 5, <<"1", "2", "3", "4", "5">>, << <<"9">> >>),
  G("isotropic", 5, <<"0", "0", "0", "0", "0">>, << <<"1e-80">> >>), G("diagonal", 3, <<"0", "0", "0">>, << <<"1e-150", "1e-130", "1e-140">> >>), G("isotropic", 4, <<"0", "0", "0", "0">>, << <<"1e90">> >>),
  G("homogeneous", 2, <<"-1.5">>, << <<"3">> >>), G("homogeneous", 4, <<"20">>, << <<"0.5">> >>), G("standard", 1, << >>, << >>), G("standard", 3, << >>, << >>),
  G("paired", 2, <<"0.5", "-3">>, << <<"2", "0.5">> >>), G("paired", 2, <<"0", "0">>, << <<"1e-200", "1e-190">> >>), G("paired_isotropic", 2, <<"1", "4">>, << <<"0.3">> >>), G("paired_standard", 2, << >>, << >>),
  G("bivariate", 2, <<"0", "1">>, << <<"1", "1">>, <<"0.5">> >>), G("bivariate", 2, <<"-2", "100">>, << <<"4", "1">>, <<"-0.95">> >>), G("bivariate", 2, <<"0.5", "-3">>, << <<"2", "0.5">>, <<"0">> >>),
  G("bivariate", 2, <<"0", "0">>, << <<"1e-200", "1e-190">>, <<"0.25">> >>), G("bivariate", 2, <<"3", "-4">>, << <<"9", "0.01">>, <<"0.999">> >>),
  G("bivariate_independent", 2, <<"0.5", "-3">>, << <<"2", "0.5">> >>), G("bivariate_isotropic", 2, <<"1", "4">>, << <<"0.3">> >>), G("bivariate_standard", 2, << >>, << >>),
  G("ln_full", 1, <<"0.5">>, << <<"0.25">> >>), G("ln_full", 2, <<"0", "1">>, << <<"1", "0.5">>, <<"0.5", "1">> >>), G("ln_full", 3, <<"0", "-1", "2">>, M3b), G("ln_full", 2, <<"0", "0.5">>, << <<"1e-10", "3e-11">>, <<"3e-11", "4e-10">> >>),
  G("ln_diagonal", 2, <<"0.5", "-3">>, << <<"0.5", "0.04">> >>), G("ln_isotropic", 3, <<"0", "1", "-1">>, << <<"0.25">> >>), G("ln_homogeneous", 2, <<"0.2">>, << <<"0.3">> >>), G("ln_standard", 3, << >>, << >>),
  G("dirichlet", 1, <<"2">>, << >>), G("dirichlet", 2, <<"1", "1">>, << >>), G("dirichlet", 2, <<"0.5", "3">>, << >>), G("dirichlet", 3, <<"2", "3", "4">>, << >>), G("dirichlet", 3, <<"1", "0.5", "2">>, << >>), G("dirichlet", 4, <<"5", "5", "5", "5">>, << >>),
  G("dirichlet", 5, <<"1", "1", "1", "1", "1">>, << >>), G("dirichlet", 3, <<"200", "30", "1.5">>, << >>), G("dirichlet", 2, <<"0.001", "0.002">>, << >>), G("dirichlet", 3, <<"1.5", "2.5", "1.001">>, << >>),
  G("multinomial", 1, <<"1">>, << <<"4">> >>), G("multinomial", 2, <<"0.25", "0.75">>, << <<"5">> >>), G("multinomial", 3, <<"0.2", "0.5", "0.3">>, << <<"4">> >>), G("multinomial", 4, <<"0.1", "0.2", "0.3", "0.4">>, << <<"6">> >>),
  G("multinomial", 3, <<"0.5", "0", "0.5">>, << <<"3">> >>), G("multinomial", 2, <<"1", "0">>, << <<"2">> >>), G("multinomial", 3, <<"0.2", "0.5", "0.3">>, << <<"0">> >>), G("multinomial", 3, <<"0.2", "0.5", "0.3">>, << <<"400">> >>), G("multinomial", 5, <<"0.1", "0.1", "0.1", "0.1", "0.6">>, << <<"3">> >>) }
Random == UNION {{
  G("scalar", 1, RandVec(j, 1), << RandPos(j, 1) >>),
  G("full", 2, RandVec(j, 2), Full(j, 2)), G("full", 3, RandVec(j, 3), Full(j, 3)), G("full", 5, RandVec(j, 5), Full(j, 5)),
  G("diagonal", 3, RandVec(j + 50, 3), << RandPos(j, 3) >>), G("isotropic", 2, RandVec(j + 60, 2), << RandPos(j + 9, 1) >>), G("homogeneous", 5, RandVec(j, 1), << RandPos(j + 4, 1) >>),
  G("paired", 2, RandVec(j + 70, 2), << RandPos(j + 5, 2) >>), G("paired_isotropic", 2, RandVec(j + 71, 2), << RandPos(j + 6, 1) >>),
  G("bivariate", 2, RandVec(j + 72, 2), << RandPos(j + 7, 2), <<RandRho(j)>> >>), G("bivariate_independent", 2, RandVec(j + 73, 2), << RandPos(j + 8, 2) >>), G("bivariate_isotropic", 2, RandVec(j + 74, 2), << RandPos(j + 11, 1) >>),
  G("ln_full", 2, Scaled(RandVec(j + 80, 2), 5), LET f == Full(j + 20, 2) IN << Scaled(f[1], 10), Scaled(f[2], 10) >>),
  G("ln_diagonal", 3, Scaled(RandVec(j + 81, 3), 5), << Scaled(RandPos(j + 12, 3), 20) >>), G("ln_homogeneous", 3, <<"0.1">>, << <<RandPos(j + 13, 1)[1] // 20>> >>),
  G("dirichlet", 2, RandPos(j + 14, 2), << >>), G("dirichlet", 3, RandPos(j + 15, 3), << >>), G("dirichlet", 5, RandPos(j + 16, 5), << >>),
  G("multinomial", 2, RandPs(j, 2), << <<RNorm(3 + j)>> >>), G("multinomial", 3, RandPs(j, 3), << <<"5">> >>), G("multinomial", 4, RandPs(j, 4), << <<RNorm(30 * j)>> >>) } : j \in 1..NVec}
Norm(d) == TLCEval([d EXCEPT !.a = [i \in 1..Len(d.a) |-> RNorm(d.a[i])], !.m = [i \in 1..Len(d.m) |-> [j \in 1..Len(d.m[i]) |-> RNorm(d.m[i][j])]]])

(*------------------------------ probe points ------------------------------*)
Dirs(n) == << [i \in 1..n |-> "0"], [i \in 1..n |-> "1"], [i \in 1..n |-> IF i = 1 THEN "-0.5" ELSE "0"], [i \in 1..n |-> IF i = n THEN "2" ELSE "0"],
              [i \in 1..n |-> RNorm(i -- 2)], [i \in 1..n |-> IF i % 2 = 0 THEN "-1.3" ELSE "0.7"], [i \in 1..n |-> "-4"], [i \in 1..n |-> IF i = 1 THEN "20" ELSE "-7"],
              [i \in 1..n |-> IF i = n THEN "60" ELSE "0.1"] >>
\* all vectors of counts with a given sum
RECURSIVE Splits(_, _)
Splits(n, t) == IF n = 1 THEN {<<t>>} ELSE UNION {{<<c>> \o r : r \in Splits(n - 1, t - c)} : c \in 0..t}
Small(d) == d.fam = "multinomial" /\ RLe(d.m[1][1], 6)
N0(d) == RToInt(d.m[1][1])
CountsOf(d) == IF Small(d) THEN SetToSeq({[i \in 1..d.n |-> RNorm(c[i])] : c \in Splits(d.n, N0(d))})
               ELSE LET near == [i \in 1..d.n |-> RFloor(d.m[1][1] ** d.a[i])]
                        rest == d.m[1][1] -- RSum(near)
                        at(i) == [near EXCEPT ![i] = @ ++ rest]
                    IN [i \in 1..d.n |-> at(i)] \o << [i \in 1..d.n |-> IF i = 1 THEN d.m[1][1] ELSE "0"] >>
Shares(n) == << [i \in 1..n |-> 1 // n], [i \in 1..n |-> (2 ** i) // (n ** (n + 1))], [i \in 1..n |-> (2 ** ((n + 1) - i)) // (n ** (n + 1))],
                [i \in 1..n |-> IF i = n THEN 1 -- ((n - 1) ** "0.01") ELSE "0.01"], [i \in 1..n |-> IF i = 1 THEN 1 -- ((n - 1) ** "1e-12") ELSE "1e-12"],
                [i \in 1..n |-> IF i = 1 THEN "0" ELSE 1 // (n - 1)] >>
Off(d) == IF d.fam \in Logs THEN << [i \in 1..d.n |-> "-1"], [i \in 1..d.n |-> IF i = 1 THEN "0" ELSE "1"], [i \in 1..d.n |-> IF i = d.n THEN "-0.5" ELSE "2"] >>
          ELSE IF d.fam = "dirichlet" THEN << [i \in 1..d.n |-> IF i = 1 THEN "-0.5" ELSE IF i = 2 THEN "1.5" ELSE "0"], [i \in 1..d.n |-> "0.9"], [i \in 1..d.n |-> "2"], [i \in 1..d.n |-> "0.05"] >>
          ELSE IF d.fam = "multinomial" THEN << [i \in 1..d.n |-> RNorm(N0(d) + i)], [i \in 1..d.n |-> IF i = d.n THEN RNorm(N0(d) + 1) ELSE "0"] >> \o
                   (IF N0(d) > 0 THEN << [i \in 1..d.n |-> IF i = 1 THEN RNorm(N0(d) - 1) ELSE "0"] >> ELSE << >>)
          ELSE << >>
PtsOf(d, w) == TLCEval(
  IF Gaussian(d)
  THEN LET D0 == Dirs(d.n)
           at(z) == LET y == MatVec(w.lo, z) IN [i \in 1..d.n |-> w.mu[i] ++ y[i]]
           out(y) == IF d.fam \in Logs THEN [i \in 1..d.n |-> RExp(y[i])] ELSE y
       IN [i \in 1..Len(D0) |-> out(at(D0[i]))] \o Off(d)
  ELSE IF d.fam = "dirichlet" THEN (IF d.n = 1 THEN << <<"1">> >> ELSE Shares(d.n)) \o Off(d)
  ELSE CountsOf(d) \o Off(d))
\* directions in which samples are projected
Ws(d) == IF Gaussian(d)
         THEN [i \in 1..d.n |-> Ident(d.n)[i]] \o (IF d.n = 1 THEN << >> ELSE << Rep("1", d.n), [i \in 1..d.n |-> IF i = 1 THEN "1" ELSE IF i = 2 THEN "-1" ELSE "0"], [i \in 1..d.n |-> RNorm(i -- "1.5")] >>)
         ELSE [i \in 1..d.n |-> Ident(d.n)[i]] \o (IF d.n < 3 THEN << >> ELSE << [i \in 1..d.n |-> IF i <= 2 THEN "1" ELSE "0"], [i \in 1..d.n |-> IF i = 1 \/ i = d.n THEN "1" ELSE "0"] >>)

\* the catalogue: law, what is worked out once, points
Entry(d) == LET w == Work(d) IN TLCEval([d |-> d, w |-> w, xs |-> PtsOf(d, w)])
MakeBook == TLCEval(LET vs == SetToSeq({d \in {Norm(e) : e \in Fixed \cup Random} : VValid(d)}) IN [i \in 1..Len(vs) |-> Entry(vs[i])])
ASSUME TLCSet(1, MakeBook)     \* (TLC would work it out anew at every use)
Book == TLCGet(1)

(*------------------------------- behaviours -------------------------------*)
Init == id \in 1..Len(Book) /\ k = 0 /\ seen = "0"
law == Book[id].d
w0 == Book[id].w
X == Book[id].xs[k]
L(x) == LnDen(law, w0, x)
Look == /\ k < Len(Book[id].xs)
        /\ k' = k + 1
        /\ seen' = (IF law.fam = "multinomial" THEN seen ++ RExp(L(Book[id].xs[k + 1])) ELSE seen)
        /\ UNCHANGED id
Next == Look
Shown == [law |-> law, k |-> k, point |-> IF k > 0 THEN X ELSE << >>]
\* the first coordinates of a Gaussian law, alone and given those before: cofactors, not factors
RECURSIVE Det(_)
Minor(s, i, j) == TLCEval([p \in 1..(Len(s) - 1) |-> [q \in 1..(Len(s) - 1) |-> s[IF p < i THEN p ELSE p + 1][IF q < j THEN q ELSE q + 1]]])
Det(s) == IF Len(s) = 1 THEN s[1][1] ELSE RSum([j \in 1..Len(s) |-> ((IF j % 2 = 1 THEN 1 ELSE -1) ** s[1][j]) ** Det(Minor(s, 1, j))])
Adj(s) == IF Len(s) = 1 THEN << <<"1">> >> ELSE TLCEval([i \in 1..Len(s) |-> [j \in 1..Len(s) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) ** Det(Minor(s, j, i))]])
FactorOk == (k = 0 /\ Gaussian(law)) => /\ MatNear(MatMul(w0.lo, Transpose(w0.lo)), w0.s, "1e-40", "1e-200")
                                          /\ (law.n <= 4 => RNear(RExp(w0.lndet), Det(w0.s), "1e-35", 0))
                                          /\ MatNear(MatMul(w0.inv, w0.lo), Ident(law.n), 0, "1e-40")
                                          /\ VValid(law) /\ [law EXCEPT !.fam = Under(law.fam)] \in {[law EXCEPT !.fam = f] : f \in Plain \cup {law.fam}}
\* the quadratic form through the adjugate
DistOk == (k > 0 /\ law.fam \in Plain /\ law.n <= 4) =>
  LET y == TLCEval(Minus(X, w0.mu)) IN RNear(Dist2(w0, X), RDot(y, MatVec(Adj(w0.s), y)) // Det(w0.s), "1e-30", "1e-30")
\* a density is the product of the conditional densities
Uni(f, p, x) == LET d == D(f, p) IN IF ~InSupport(d, x) THEN "-inf" ELSE IF f \in Discrete THEN LnMass(d, x) ELSE LnF(d, x)
Chain ==
  k > 0 =>
  CASE law.n = 1 /\ law.fam \in Plain -> RNear(L(X), Uni("normal", <<w0.mu[1], w0.s[1][1]>>, X[1]), "1e-30", "1e-30")
    [] law.n = 1 /\ law.fam \in Logs -> REq(L(X), "-inf") \/ RNear(L(X), Uni("lognormal", <<w0.mu[1], w0.s[1][1]>>, X[1]), "1e-30", "1e-30")
    [] law.n = 2 /\ law.fam \in Plain ->
         LET b == w0.s[1][2] // w0.s[1][1]
             m == w0.mu[2] ++ (b ** (X[1] -- w0.mu[1]))
             v == w0.s[2][2] -- (b ** w0.s[1][2])
         IN RNear(L(X), Uni("normal", <<w0.mu[1], w0.s[1][1]>>, X[1]) ++ Uni("normal", <<m, v>>, X[2]), "1e-30", "1e-30")
    [] law.fam = "dirichlet" /\ law.n >= 2 /\ L(X) # "-inf" /\ AllIn(X, LAMBDA v : RLt(0, v)) ->
         LET left(i) == 1 -- RSum([t \in 1..(i - 1) |-> X[t]])
             tail(i) == RSum([t \in 1..(law.n - i) |-> law.a[i + t]])
         IN RNear(L(X), RSum([i \in 1..(law.n - 1) |-> Uni("beta", <<law.a[i], tail(i)>>, X[i] // left(i)) -- RLn(left(i))]), "1e-9", "1e-9")
    [] law.fam = "multinomial" /\ law.n >= 2 /\ L(X) # "-inf" /\ AllIn(law.a, LAMBDA v : RLt(0, v)) ->
         LET left(i) == law.m[1][1] -- RSum([t \in 1..(i - 1) |-> X[t]])
             tail(i) == 1 -- RSum([t \in 1..(i - 1) |-> law.a[t]])
         IN RNear(L(X), RSum([i \in 1..(law.n - 1) |-> Uni("binomial", <<left(i), law.a[i] // tail(i)>>, X[i])]), "1e-25", "1e-25")
    [] OTHER -> TRUE
TotalOne == (Small(law) /\ k = Len(Book[id].xs)) => RNear(seen, 1, 0, "1e-30")
\* moments, from the laws of the coordinates and of their sums
Table1(d) == TLCEval(Moments(d, Table(d)))
Mild(d) == RLt(d.p[2], "1e6") /\ RLt("1e-6", d.p[2])
MomentsOk ==
  (k = 0 /\ law.n >= 1) =>
  LET m == VMean(law, w0)
      c == VCov(law, w0)
      marg(i) == CASE law.fam \in Logs -> D("lognormal", <<w0.mu[i], w0.s[i][i]>>)
                   [] OTHER -> Project(law, w0, Ident(law.n)[i])
      both == [i \in 1..law.n |-> IF i <= 2 THEN "1" ELSE "0"]
      t1 == Table1(marg(1))
      usable == (law.fam = "dirichlet" => law.n > 1 /\ AllIn(law.a, LAMBDA v : RLt("0.5", v))) /\ (Gaussian(law) => RLt("1e-3", w0.s[1][1]) /\ RLt(w0.s[1][1], 50))
  IN usable =>
     /\ RNear(t1.m1, m[1], "1e-9", "1e-9") /\ RNear(t1.c2, c[1][1], "1e-8", "1e-9")
     /\ (law.n >= 2 /\ law.fam \in {"dirichlet", "multinomial"} /\ (law.fam = "dirichlet" => law.n > 2)) =>
           RNear(Table1(Project(law, w0, both)).c2, (c[1][1] ++ c[2][2]) ++ (2 ** c[1][2]), "1e-8", "1e-9")
     /\ (law.n >= 2 /\ law.fam \in Logs) =>
           RNear(Table1(D("lognormal", <<w0.mu[1] ++ w0.mu[2], (w0.s[1][1] ++ w0.s[2][2]) ++ (2 ** w0.s[1][2])>>)).m1, c[1][2] ++ (m[1] ** m[2]), "1e-8", "1e-9")
     /\ Symmetric(c)
\* one law, many names
Named == (IF law.fam \in Plain \ {"full"} THEN {"full"} ELSE {})
         \cup (IF law.fam \in {"paired_isotropic", "bivariate_independent", "paired_standard"} THEN {"paired"} ELSE {})
         \cup (IF law.fam = "paired" THEN {"bivariate"} ELSE {})
Names == k = 0 => \A f \in Named :
  LET other == CASE f = "full" -> VLaw("full", law.n, w0.mu, w0.s)
                 [] f = "paired" -> VLaw("paired", 2, w0.mu, << <<w0.s[1][1], w0.s[2][2]>> >>)
                 [] f = "bivariate" -> VLaw("bivariate", 2, law.a, << law.m[1], <<"0">> >>)
  IN /\ VecNear(Mu(other), Mu(law), "1e-40", "1e-250") /\ MatNear(Sigma(other), Sigma(law), "1e-40", "1e-250")
                            /\ RNear(VEntropy(other, Work(other)), VEntropy(law, w0), "1e-30", "1e-30")

(*--------------------------- parameters to refuse -------------------------*)
BadV == {"0", "-1", "NaN", "-0.0", "1e-300", "inf"}
At(v, i, x) == [v EXCEPT ![i] = x]
VMakes == UNION {
  {G("full", 2, <<"0", "1">>, [M2 EXCEPT ![i][i] = x]) : i \in 1..2, x \in BadV \ {"1e-300", "inf"}},
  {G("full", 3, <<"0", "1", "2">>, [M3 EXCEPT ![3][3] = x]) : x \in {"-1", "0", "NaN"}},
  {G("full", 2, <<"0", "1">>, << <<"0.5", "2">>, <<"1", "1">> >>), G("full", 2, <<"0", "1">>, << <<"1", "2">>, <<"2", "1">> >>), G("full", 2, <<"0", "1">>, << <<"2", "0.5">>, <<"0.25", "1">> >>)},
  {G("diagonal", 3, <<"0", "1", "2">>, << At(<<"1", "2", "3">>, i, x) >>) : i \in 1..3, x \in BadV},
  {G("isotropic", 2, <<"0", "1">>, << <<x>> >>) : x \in BadV}, {G("homogeneous", 2, <<"0">>, << <<x>> >>) : x \in BadV},
  {G("scalar", 1, <<"0">>, << <<x>> >>) : x \in BadV},
  {G("paired", 2, <<"0", "1">>, << At(<<"1", "2">>, i, x) >>) : i \in 1..2, x \in BadV}, {G("paired_isotropic", 2, <<"0", "1">>, << <<x>> >>) : x \in BadV},
  {G("bivariate", 2, <<"0", "1">>, << At(<<"1", "2">>, i, x), <<"0.5">> >>) : i \in 1..2, x \in BadV},
  {G("bivariate", 2, <<"0", "1">>, << <<"1", "2">>, <<r>> >>) : r \in {"1.0000000000000002", "-1.1", "NaN", "inf", "1", "-1", "-0.0"}},
  {G("bivariate_independent", 2, <<"0", "1">>, << At(<<"1", "2">>, i, x) >>) : i \in 1..2, x \in BadV}, {G("bivariate_isotropic", 2, <<"0", "1">>, << <<x>> >>) : x \in BadV},
  {G("ln_diagonal", 2, <<"0", "1">>, << At(<<"1", "2">>, i, x) >>) : i \in 1..2, x \in BadV}, {G("ln_isotropic", 2, <<"0", "1">>, << <<x>> >>) : x \in BadV}, {G("ln_homogeneous", 2, <<"0">>, << <<x>> >>) : x \in BadV},
  {G("ln_full", 2, <<"0", "1">>, [M2 EXCEPT ![i][i] = x]) : i \in 1..2, x \in {"0", "-1", "NaN"}},
  {G("dirichlet", 3, At(<<"1", "2", "3">>, i, x), << >>) : i \in 1..3, x \in BadV},
  {G("multinomial", 3, w, << <<"3">> >>) : w \in {<<"0.5", "0.5", "0.5">>, <<"-0.5", "1", "0.5">>, <<"0.2", "0.3", "NaN">>, <<"0.2", "0.3", "0.4">>, <<"1.5", "-0.5", "0">>, <<"0", "0", "0">>}} }
In(kind, d, xs) == [kind |-> kind, fam |-> d.fam, n |-> d.n, a |-> d.a, m |-> d.m, xs |-> xs, ws |-> IF kind = "law" THEN Ws(d) ELSE << >>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/mv.in", [i \in 1..Len(Book) |-> In("law", Book[i].d, Book[i].xs)] \o SetToSeq({In("make", d, << >>) : d \in VMakes}))
=============================================================================
