------------------------------- MODULE Resid -------------------------------
(* The library's residuals: prior z - x and between (x1 z) - x2 with the group's ominus, and the user-defined   *)
(* residuals of the harness, each with its derivative along the variables' oplus directions.                   *)
EXTENDS Diff

\* the element whose logarithm is the residual
ResidMat(res, Ms, left) ==
  LET k == res.kind   Z == Mat(k, res.z) IN
  IF res.r = "prior" THEN OminusMat(k, Z, Ms[1], left)
  ELSE OminusMat(k, MMul(Ms[1], Z), Ms[2], left)
\* its rate when variable v moves along e_j
ResidRate(res, Ms, v, j, left) ==
  LET k == res.kind   Z == Mat(k, res.z)
      D == Rate(k, Ms[v], j, left)
      Inv(M) == GInv(k, M)
      dInv(M, dM) == MScale(RInt(-1), MMul(MMul(Inv(M), dM), Inv(M)))
  IN IF res.r = "prior"
     THEN IF left THEN MMul(Z, dInv(Ms[1], D)) ELSE MMul(dInv(Ms[1], D), Z)
     ELSE IF v = 1 THEN (IF left THEN MMul(MMul(D, Z), Inv(Ms[2])) ELSE MMul(Inv(Ms[2]), MMul(D, Z)))
     ELSE (IF left THEN MMul(MMul(Ms[1], Z), dInv(Ms[2], D)) ELSE MMul(dInv(Ms[2], D), MMul(Ms[1], Z)))

\* derivative of log at M = exp(r) along dM: r' = Jr(r)^-1 vee(M^-1 M')
LogRate(k, r, M, dM, fake) ==
  IF fake /\ k \in {"SE2", "SE3"}
  THEN LET kk == IF k = "SE2" THEN "SO2" ELSE "SO3"   n == RotDim(k)
           R == MBlock(M, 0, 0, n, n)   dR == MBlock(dM, 0, 0, n, n)
       IN VSolve(RightJac(kk, RotPart(k, r)), Vee(kk, MMul(MT(R), dR))) \o MCol(MBlock(dM, 0, n, n, 1), 1)
  ELSE VSolve(RightJac(k, r), Vee(k, MMul(GInv(k, M), dM)))

NVars(res) == IF res.r = "prior" THEN 1 ELSE 2
RECURSIVE RCols(_, _, _, _, _, _)
RCols(res, Ms, r, n, left, fake) ==
  IF n = 0 THEN <<>>
  ELSE RCols(res, Ms, r, n - 1, left, fake)
       \o [j \in 1..TanDim(res.kind) |-> LogRate(res.kind, r, ResidMat(res, Ms, left), ResidRate(res, Ms, n, j, left), fake)]
ResidJac(res, Ms, r, left, fake) == MT(RCols(res, Ms, r, NVars(res), left, fake))

\* value and Jacobian of a harness-defined residual
CombVal(res, ks, Ms) == VSub(FVal(ks, Ms, res.a, res.b), res.c)
CombJac(res, ks, Ms, left) == FJac(ks, Ms, res.a, res.b, left)

(* value of any residual; prior and between use a given logarithm r of ResidMat *)
=============================================================================
