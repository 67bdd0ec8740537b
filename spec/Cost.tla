-------------------------------- MODULE Cost --------------------------------
(* Noise models and robust kernels: what weighting a description stands for.                                   *)
EXTENDS Lin

(* ---------------------------- information matrices ---------------------------- *)
\* the information matrix described by a noise description [n |-> constructor, v |-> numbers or m |-> matrix]
Info(n, nz) ==
  LET diag(f(_)) == MDiag([i \in 1..n |-> f(nz.v[i])]) IN
  CASE nz.n \in {"none", "unit", "identity"} -> MId(n)
    [] nz.n = "scalar_sigma" -> MScale(RDiv(ROne, RSq(nz.v[1])), MId(n))
    [] nz.n = "scalar_cov"   -> MScale(RDiv(ROne, nz.v[1]), MId(n))
    [] nz.n \in {"vec_sigma", "diag_sigmas"} -> LET f(x) == RDiv(ROne, RSq(x)) IN diag(f)
    [] nz.n \in {"vec_cov", "diag_covs"}     -> LET f(x) == RDiv(ROne, x) IN diag(f)
    [] nz.n = "vec_inf"      -> LET f(x) == x IN diag(f)
    [] nz.n = "matrix_cov"   -> MInv(nz.m)
    [] nz.n = "matrix_inf"   -> nz.m
    [] nz.n = "user"         -> MMul(MT(nz.m), nz.m)

\* W'W = Omega, entries compared on the scale of Omega's diagonal
IsRoot(W, Om, tol) ==
  LET n == Rows(Om)   G == MMul(MT(W), W) IN
  /\ IsMat(W, n, n) /\ MFinite(W)
  /\ \A i \in 1..n : \A j \in 1..n : RNear(G[i][j], Om[i][j], tol, RSqrt(RMul(Om[i][i], Om[j][j])))

(* ------------------------------ robust kernels ------------------------------ *)
DefaultParam(k) ==
  CASE k = "Huber" -> RDec(1345, -3) [] k = "Fair" -> RDec(13998, -4) [] k = "Cauchy" -> RDec(23849, -4)
    [] k = "GemanMcClure" -> RDec(13998, -4) [] k = "Welsch" -> RDec(29846, -4) [] k = "Tukey" -> RDec(46851, -4)
    [] OTHER -> ROne
Param(kn) == IF "c" \in DOMAIN kn THEN kn.c ELSE DefaultParam(kn.n)

\* loss and weight as functions of d2 = x^2; the weight is rho'(x)/x
Loss(kn, d2) ==
  LET c == Param(kn)   c2 == RSq(c)   x == RSqrt(d2)   u == RDiv(d2, c2) IN
  CASE kn.n \in {"none", "L2"} -> RDiv(d2, RTwo)
    [] kn.n = "L1"     -> x
    [] kn.n = "Huber"  -> IF RLe(x, c) THEN RDiv(d2, RTwo) ELSE RMul(c, RSub(x, RDiv(c, RTwo)))
    [] kn.n = "Fair"   -> RMul(c2, RSub(RDiv(x, c), RLog1p(RDiv(x, c))))
    [] kn.n = "Cauchy" -> RMul(RDiv(c2, RTwo), RLog1p(u))
    [] kn.n = "GemanMcClure" -> RDiv(RMul(c2, d2), RMul(RTwo, RAdd(c2, d2)))
    [] kn.n = "Welsch" -> RMul(RDiv(c2, RTwo), RSub(ROne, RExp(RNeg(u))))
    [] kn.n = "Tukey"  -> IF RLe(x, c) THEN LET v == RSub(ROne, u) IN RMul(RDiv(c2, RInt(6)), RSub(ROne, RMul(v, RSq(v))))
                          ELSE RDiv(c2, RInt(6))
    [] kn.n = "user"   -> RMul(c, RLn(RAdd(ROne, d2)))
Weight(kn, d2) ==
  LET c == Param(kn)   c2 == RSq(c)   x == RSqrt(d2)   u == RDiv(d2, c2) IN
  CASE kn.n \in {"none", "L2"} -> ROne
    [] kn.n = "L1"     -> IF RLe(d2, RDec(1, -3)) THEN ROne ELSE RDiv(ROne, x)
    [] kn.n = "Huber"  -> IF RLe(x, c) THEN ROne ELSE RDiv(c, x)
    [] kn.n = "Fair"   -> RDiv(ROne, RAdd(ROne, RDiv(x, c)))
    [] kn.n = "Cauchy" -> RDiv(ROne, RAdd(ROne, u))
    [] kn.n = "GemanMcClure" -> RSq(RDiv(c2, RAdd(c2, d2)))
    [] kn.n = "Welsch" -> RExp(RNeg(u))
    [] kn.n = "Tukey"  -> IF RLe(x, c) THEN RSq(RSub(ROne, u)) ELSE RZero
    [] kn.n = "user"   -> RDiv(RMul(RTwo, c), RAdd(ROne, d2))
=============================================================================
