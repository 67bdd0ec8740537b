-------------------------------- MODULE Lie --------------------------------
(* The variable types of factrs as matrix groups.  An element is recorded by its raw components                *)
(*    SO2 <<c, s>>   SE2 <<c, s, x, y>>   SO3 <<qx, qy, qz, qw>>   SE3 <<qx, qy, qz, qw, x, y, z>>               *)
(*    V1..V6, V9 <<v1, ..>>   BIAS <<gyro, accel>>                                                                   *)
(* and its meaning is a matrix; vector spaces are translation matrices, so one set of laws covers all kinds.    *)
EXTENDS Lin

LieKinds == {"SO2", "SE2", "SO3", "SE3"}
VecKinds == {"V1", "V2", "V3", "V4", "V5", "V6", "V9", "BIAS"}
Kinds    == LieKinds \cup VecKinds

TanDim(k) == CASE k = "SO2" -> 1 [] k = "SE2" -> 3 [] k = "SO3" -> 3 [] k = "SE3" -> 6
               [] k = "V1" -> 1 [] k = "V2" -> 2 [] k = "V3" -> 3 [] k = "V4" -> 4 [] k = "V5" -> 5
               [] k = "V6" -> 6 [] k = "V9" -> 9 [] k = "BIAS" -> 6
RawDim(k) == CASE k = "SO2" -> 2 [] k = "SE2" -> 4 [] k = "SO3" -> 4 [] k = "SE3" -> 7 [] OTHER -> TanDim(k)
MatDim(k) == CASE k = "SO2" -> 2 [] k = "SE2" -> 3 [] k = "SO3" -> 3 [] k = "SE3" -> 4 [] OTHER -> TanDim(k) + 1
RotDim(k) == CASE k \in {"SO2", "SE2"} -> 2 [] k \in {"SO3", "SE3"} -> 3 [] OTHER -> 0     \* size of rotation block
PtDim(k)  == RotDim(k)                                                                     \* dimension of points acted on
RotTan(k) == CASE k \in {"SO2", "SE2"} -> 1 [] k \in {"SO3", "SE3"} -> 3 [] OTHER -> 0     \* rotation part of a tangent

(* ---------------------------------- rotations ---------------------------------- *)
Rot2(c, s) == << <<c, RNeg(s)>>, <<s, c>> >>
QuatMat(x, y, z, w) ==
  LET q(a, b) == RMul(RTwo, RMul(a, b)) IN
  << << RSub(ROne, RAdd(q(y, y), q(z, z))), RSub(q(x, y), q(w, z)),             RAdd(q(x, z), q(w, y)) >>,
     << RAdd(q(x, y), q(w, z)),             RSub(ROne, RAdd(q(x, x), q(z, z))), RSub(q(y, z), q(w, x)) >>,
     << RSub(q(x, z), q(w, y)),             RAdd(q(y, z), q(w, x)),             RSub(ROne, RAdd(q(x, x), q(y, y))) >> >>
Skew(v) == << <<RZero, RNeg(v[3]), v[2]>>, <<v[3], RZero, RNeg(v[1])>>, <<RNeg(v[2]), v[1], RZero>> >>
Rigid(R, t) == LET n == Rows(R) IN MPut(MPut(MId(n + 1), 0, 0, R), 0, n, MAsCol(t))

Mat(k, raw) ==
  CASE k = "SO2" -> Rot2(raw[1], raw[2])
    [] k = "SE2" -> Rigid(Rot2(raw[1], raw[2]), <<raw[3], raw[4]>>)
    [] k = "SO3" -> QuatMat(raw[1], raw[2], raw[3], raw[4])
    [] k = "SE3" -> Rigid(QuatMat(raw[1], raw[2], raw[3], raw[4]), <<raw[5], raw[6], raw[7]>>)
    [] OTHER     -> Rigid(MId(Len(raw)), raw)

\* inverse of a rotation / rigid transform / translation
GInv(k, M) ==
  IF k \in {"SO2", "SO3"} THEN MT(M)
  ELSE LET n == MatDim(k) - 1
           Rt == MT(MBlock(M, 0, 0, n, n))
           t  == MCol(MBlock(M, 0, n, n, 1), 1)
       IN Rigid(Rt, VNeg(MVec(Rt, t)))
GId(k) == MId(MatDim(k))

\* a well-formed element: finite and with an orthonormal, orientation-preserving rotation block
WellFormed(k, M, tol) ==
  /\ IsMat(M, MatDim(k), MatDim(k)) /\ MFinite(M)
  /\ LET n == RotDim(k) IN n > 0 =>
       LET R == MBlock(M, 0, 0, n, n) IN
       /\ MNear(MMul(R, MT(R)), MId(n), tol, ROne)
       /\ RNear(MDet(R), ROne, tol, ROne)

\* action on a point
Act(k, M, p) ==
  LET n == RotDim(k) IN
  IF k \in {"SO2", "SO3"} THEN MVec(M, p)
  ELSE VAdd(MVec(MBlock(M, 0, 0, n, n), p), MCol(MBlock(M, 0, n, n, 1), 1))

(* ---------------------------------- Lie algebra ---------------------------------- *)
Hat(k, xi) ==
  CASE k = "SO2" -> << <<RZero, RNeg(xi[1])>>, <<xi[1], RZero>> >>
    [] k = "SE2" -> << <<RZero, RNeg(xi[1]), xi[2]>>, <<xi[1], RZero, xi[3]>>, <<RZero, RZero, RZero>> >>
    [] k = "SO3" -> Skew(xi)
    [] k = "SE3" -> MPut(MPut(MZero(4, 4), 0, 0, Skew(xi)), 0, 3, MAsCol(<<xi[4], xi[5], xi[6]>>))
    [] OTHER     -> MPut(MZero(Len(xi) + 1, Len(xi) + 1), 0, Len(xi), MAsCol(xi))

RotPart(k, xi) == SubSeq(xi, 1, RotTan(k))
TransPart(k, xi) == SubSeq(xi, RotTan(k) + 1, Len(xi))
RotAngle(k, xi) == VNorm(RotPart(k, xi))

\* coordinates of an algebra element
Vee(k, H) ==
  CASE k = "SO2" -> <<H[2][1]>>
    [] k = "SE2" -> <<H[2][1], H[1][3], H[2][3]>>
    [] k = "SO3" -> <<H[3][2], H[1][3], H[2][1]>>
    [] k = "SE3" -> <<H[3][2], H[1][3], H[2][1], H[1][4], H[2][4], H[3][4]>>
    [] OTHER     -> LET n == Len(H) - 1 IN SubSeq(MCol(H, n + 1), 1, n)
\* ad(xi) eta = vee([hat xi, hat eta])
AdMat(k, xi) ==
  LET n == TanDim(k)  X == Hat(k, xi)
      col(j) == LET E == Hat(k, VUnit(n, j)) IN Vee(k, MSub(MMul(X, E), MMul(E, X)))
  IN MT([j \in 1..n |-> col(j)])
\* right Jacobian of exp: exp(xi + d) = exp(xi) exp(Jr(xi) d) to first order; Jr = integral over [0,1] of exp(-s ad)
RightJac(k, xi) ==
  LET n == TanDim(k)
      big == MPut(MPut(MZero(2 * n, 2 * n), 0, 0, MScale(RInt(-1), AdMat(k, xi))), 0, n, MId(n))
  IN MBlock(MExp(big), 0, n, n, n)
LeftJac(k, xi) == RightJac(k, VNeg(xi))

\* exp: the matrix exponential of hat; with fake_exp the translation of a rigid motion is taken as is
ExpMat(k, xi, fake) ==
  IF fake /\ k \in {"SE2", "SE3"}
  THEN LET kk == IF k = "SE2" THEN "SO2" ELSE "SO3" IN Rigid(MExp(Hat(kk, RotPart(k, xi))), TransPart(k, xi))
  ELSE IF k \in {"SO2", "SO3"} THEN MExp(Hat(k, xi))
  ELSE \* the translation of exp(xi) is linear in that of xi: evaluated at unit size, where the series is accurate
       LET t == TransPart(k, xi)   size == RMax(ROne, VMaxAbs(t))   n == MatDim(k) - 1
           M == MExp(Hat(k, RotPart(k, xi) \o VScale(RDiv(ROne, size), t)))
       IN MPut(M, 0, n, MAsCol(VScale(size, MCol(MBlock(M, 0, n, n, 1), 1))))

\* retraction conventions
OplusMat(k, M, xi, fake, left) ==
  IF left THEN MMul(ExpMat(k, xi, fake), M) ELSE MMul(M, ExpMat(k, xi, fake))
\* the element whose log is x ominus y
OminusMat(k, X, Y, left) == IF left THEN MMul(X, GInv(k, Y)) ELSE MMul(GInv(k, Y), X)

\* A is M to a relative accuracy in what makes it differ from the identity (rotation and translation apart), down to the
\* rounding of numbers of the given scale: an element near the identity may not be mistaken for the identity
NearRel(k, A, M, scale) ==
  LET n == RotDim(k)   m == MatDim(k) - 1
      Rot(X) == MBlock(X, 0, 0, n, n)
      Tr(X) == MCol(MBlock(X, 0, m, m, 1), 1)
      eps == RMul(RDec(2, -13), RAdd(ROne, scale))
      within(err, size) == RLe(err, RAdd(RMul(RDec(1, -6), size), eps))
  IN /\ IsMat(A, MatDim(k), MatDim(k)) /\ MFinite(A) /\ MFinite(M)
     /\ n > 0 => within(MMaxAbs(MSub(Rot(A), Rot(M))), MMaxAbs(MSub(Rot(M), MId(n))))
     /\ k \notin {"SO2", "SO3"} =>
          IF n = 0 THEN \A i \in 1..m : within(RAbs(RSub(Tr(A)[i], Tr(M)[i])), RAbs(Tr(M)[i]))
          ELSE within(VMaxAbs(VSub(Tr(A), Tr(M))), VMaxAbs(Tr(M)))

\* xi is a logarithm of M with rotation angle at most pi
IsLog(k, xi, M, fake, tol) ==
  /\ Len(xi) = TanDim(k) /\ VFinite(xi)
  /\ RLe(RotAngle(k, xi), RAdd(RPi, RDec(1, -9)))
  /\ MClose(ExpMat(k, xi, fake), M, tol)
=============================================================================
