------------------------------ MODULE ImuTrace ------------------------------
(* Replays a recorded history of integrate() calls: the specification's state follows each call, and every     *)
(* factor built on the way is compared with it.  The whitened system (A, b) of the factor is W J and -W r; the  *)
(* columns of the second state give W up to a known matrix, hence r = -J2 A2^-1 b and J = J2 A2^-1 A.            *)
EXTENDS Trace, Imu

\* entries compared relative to the diagonals
SymClose(A, B, tol) ==
  /\ MSame(A, B) /\ MFinite(A) /\ MFinite(B)
  /\ \A i, j \in 1..Len(B) : RLe(RAbs(RSub(A[i][j], B[i][j])), RMul(tol, RSqrt(RMul(B[i][i], B[j][j]))))

Where(scn, s, p) ==
  LET R1 == MBlock(Mat("SE3", p.x1), 0, 0, 3, 3)   R2 == MBlock(Mat("SE3", p.x2), 0, 0, 3, 3)
      inc == Incr(s, scn.b0, p.b1)
      pr == Predict(s, inc, R1, SubSeq(p.x1, 5, 7), p.v1, scn.g)
  IN [D |-> MMul(MT(R2), pr.R), lin |-> VSub(pr.v, p.v2) \o VSub(pr.p, SubSeq(p.x2, 5, 7)) \o VSub(p.b1, p.b2)]

\* a logarithm of a rotation with angle below pi, from its matrix (via the quaternion)
LogOf(D) ==
  LET tr == RAdd(RAdd(D[1][1], D[2][2]), D[3][3])
      ax == <<RSub(D[3][2], D[2][3]), RSub(D[1][3], D[3][1]), RSub(D[2][1], D[1][2])>>     \* 2 sin(angle) axis
      sn == RMul(RHalf, VNorm(ax))   cs == RMul(RHalf, RSub(tr, ROne))
  IN IF RLe(sn, RDec(1, -9)) THEN VScale(RHalf, ax) ELSE VScale(RDiv(RAtan2(sn, cs), RMul(RTwo, sn)), ax)
\* within 0.01 of half a turn, where the logarithm jumps
NearHalfTurn(D) == RLt(RMul(RHalf, RSub(RAdd(RAdd(D[1][1], D[2][2]), D[3][3]), ROne)), RDec(-99995, -5))
=============================================================================
