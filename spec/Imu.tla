-------------------------------- MODULE Imu --------------------------------
(* IMU preintegration as a state machine (imu_preint/README.md).  State: elapsed time, the increments th, v, p  *)
(* in the frame of the starting attitude, the 9x3 sensitivities hg, ha of (th, v, p) to the gyro and            *)
(* accelerometer bias, and the 15x15 covariance S of (th, v, p, gyro bias, accel bias).                          *)
EXTENDS Diff

ImuInit == [dt |-> RZero, th |-> VZero(3), v |-> VZero(3), p |-> VZero(3), hg |-> MZero(9, 3), ha |-> MZero(9, 3),
            S |-> MScale(RDec(1, -14), MId(15))]

\* transition matrix at the state before the measurement; w, a have the bias removed
ImuA(s, w, a, dt) ==
  LET H == RightJac("SO3", s.th)   Hi == MInv(H)   R == MExp(Skew(s.th))
      hdt == RMul(dt, RHalf)
      Mv == MScale(RNeg(dt), MMul(MMul(R, Skew(a)), H))
      A1 == MPut(MId(15), 0, 0, MSub(MId(3), MScale(hdt, Skew(w))))
      A2 == MPut(MPut(A1, 3, 0, Mv), 6, 0, MScale(hdt, Mv))
      A3 == MPut(MPut(A2, 6, 3, MScale(dt, MId(3))), 0, 9, MScale(RNeg(dt), Hi))
  IN MPut(MPut(A3, 3, 12, MScale(RNeg(dt), R)), 6, 12, MScale(RNeg(RMul(dt, hdt)), R))

\* noise enters as gyro, accel, gyro bias walk, accel bias walk, integration, initial gyro bias, initial accel bias
ImuB(s, dt) ==
  LET Hi == MInv(RightJac("SO3", s.th))   R == MExp(Skew(s.th))   ddt == RMul(dt, RMul(dt, RHalf))
      B1 == MPut(MPut(MPut(MZero(15, 21), 0, 0, MScale(dt, Hi)), 3, 3, MScale(dt, R)), 6, 3, MScale(ddt, R))
      B2 == MPut(MPut(MPut(B1, 9, 6, MId(3)), 12, 9, MId(3)), 6, 12, MId(3))
  IN MPut(MPut(MPut(B2, 0, 15, MScale(RNeg(dt), Hi)), 3, 18, MScale(RNeg(dt), R)), 6, 18, MScale(RNeg(ddt), R))
ImuQ(q) == MPut(MPut(MPut(MPut(MPut(MPut(MPut(MZero(21, 21), 0, 0, q.gyro), 3, 3, q.accel), 6, 6, q.gyro_bias), 9, 9, q.accel_bias),
                12, 12, q.integration), 15, 15, q.winit), 18, 18, q.ainit)

\* one measurement m = [gyro, accel, dt]; b0 the bias removed from measurements, q the covariances
ImuStep(s, m, b0, q) ==
  LET dt == m.dt
      w == VSub(m.gyro, SubSeq(b0, 1, 3))   a == VSub(m.accel, SubSeq(b0, 4, 6))
      aw == MVec(MExp(Skew(s.th)), a)
      Hw == VSolve(RightJac("SO3", s.th), w)
      A == ImuA(s, w, a, dt)   A9 == MBlock(A, 0, 0, 9, 9)
      B == ImuB(s, dt)
  IN [dt |-> RAdd(s.dt, dt),
      th |-> VAdd(s.th, VScale(dt, Hw)),
      v  |-> VAdd(s.v, VScale(dt, aw)),
      p  |-> VAdd(s.p, VAdd(VScale(dt, s.v), VScale(RMul(dt, RMul(dt, RHalf)), aw))),
      hg |-> MAdd(MMul(A9, s.hg), MBlock(A, 0, 9, 9, 3)),
      ha |-> MAdd(MMul(A9, s.ha), MBlock(A, 0, 12, 9, 3)),
      S  |-> MAdd(MMul(MMul(A, s.S), MT(A)), MMul(MMul(B, ImuQ(q)), MT(B)))]
RECURSIVE ImuRun(_, _, _, _, _)
ImuRun(s, ms, n, b0, q) == IF n = 0 THEN s ELSE LET t == ImuRun(s, ms, n - 1, b0, q) IN ImuStep(t, ms[n], b0, q)

\* increments corrected to first order for a bias b1 that differs from b0
Incr(s, b0, b1) ==
  LET d == VSub(b1, b0)
      c == VAdd(MVec(s.hg, SubSeq(d, 1, 3)), MVec(s.ha, SubSeq(d, 4, 6)))
  IN [th |-> VAdd(s.th, SubSeq(c, 1, 3)), v |-> VAdd(s.v, SubSeq(c, 4, 6)), p |-> VAdd(s.p, SubSeq(c, 7, 9))]

\* state predicted from attitude R1, position p1, velocity v1
Predict(s, inc, R1, p1, v1, g) ==
  [R |-> MMul(R1, MExp(Skew(inc.th))),
   v |-> VAdd(VAdd(v1, VScale(s.dt, g)), MVec(R1, inc.v)),
   p |-> VAdd(VAdd(p1, VScale(s.dt, v1)), VAdd(VScale(RMul(RHalf, RSq(s.dt)), g), MVec(R1, inc.p)))]

\* derivative of the residual (th, v, p, gyro bias, accel bias) along the oplus directions of
\* (pose1, v1, b1, pose2, v2, b2); x is the probe, rth the rotation part of the residual
ImuJac(s, x, b0, rth, left) ==
  LET M1 == Mat("SE3", x.x1)   R1 == MBlock(M1, 0, 0, 3, 3)
      M2 == Mat("SE3", x.x2)   R2 == MBlock(M2, 0, 0, 3, 3)
      inc == Incr(s, b0, x.b1)   E == MExp(Skew(inc.th))
      D == MMul(MMul(MT(R2), R1), E)
      rot(dD) == VSolve(RightJac("SO3", rth), Vee("SO3", MMul(MT(D), dD)))
      pose1(j) == LET d == Rate("SE3", M1, j, left)   dR == MBlock(d, 0, 0, 3, 3)   dp == MCol(MBlock(d, 0, 3, 3, 1), 1)
                  IN rot(MMul(MMul(MT(R2), dR), E)) \o MVec(dR, inc.v) \o VAdd(dp, MVec(dR, inc.p)) \o VZero(6)
      vel1(j) == VZero(3) \o VUnit(3, j) \o VScale(s.dt, VUnit(3, j)) \o VZero(6)
      bias1(j) == LET h == IF j <= 3 THEN MCol(s.hg, j) ELSE MCol(s.ha, j - 3)
                  IN VSolve(RightJac("SO3", rth), MVec(RightJac("SO3", inc.th), SubSeq(h, 1, 3)))
                     \o MVec(R1, SubSeq(h, 4, 6)) \o MVec(R1, SubSeq(h, 7, 9)) \o VUnit(6, j)
      pose2(j) == LET d == Rate("SE3", M2, j, left)   dR == MBlock(d, 0, 0, 3, 3)   dp == MCol(MBlock(d, 0, 3, 3, 1), 1)
                  IN rot(MMul(MMul(MT(dR), R1), E)) \o VZero(3) \o VNeg(dp) \o VZero(6)
      vel2(j) == VNeg(VZero(3) \o VUnit(3, j) \o VZero(9))
      bias2(j) == VNeg(VZero(9) \o VUnit(6, j))
  IN MT([j \in 1..6 |-> pose1(j)] \o [j \in 1..3 |-> vel1(j)] \o [j \in 1..6 |-> bias1(j)]
        \o [j \in 1..6 |-> pose2(j)] \o [j \in 1..3 |-> vel2(j)] \o [j \in 1..6 |-> bias2(j)])
=============================================================================
