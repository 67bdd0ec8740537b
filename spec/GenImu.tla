------------------------------- MODULE GenImu -------------------------------
(* Histories of IMU measurements and the states at which the resulting factor is evaluated.                    *)
EXTENDS GenFac, Imu

QExp(th) == LET n == VNorm(th) IN IF RLe(n, RZero) THEN <<RZero, RZero, RZero, ROne>> ELSE Quat(VScale(RDiv(ROne, n), th), n, 1)

Vec3(st, k, size) == VScale(size, SymVec(st, k, 3))
DtsLong == <<RDec(8, -1), ROne, RDec(15, -1), RDec(3, -1)>>
Dts == <<RDec(1, -3), RDec(1, -2), RDec(5, -2), RDec(1, -1), RDec(2, -1), RDec(5, -1)>>
\* no time at all, and very short steps
DtsTiny == <<RZero, RDec(1, -7), RDec(1, -5), RDec(5, -5), RDec(3, -4)>>
Rates == <<RZero, RDec(1, -6), RDec(3, -5), RDec(1, -3), RDec(1, -2), RDec(1, -1), RDec(5, -1), ROne, RInt(2)>>
Accs == <<RZero, RDec(1, -5), RDec(1, -3), RDec(1, -1), ROne, RInt(10)>>
Grav == << <<"up">>, <<"down">>, <<"vec">> >>
GravVec(name, st) == CASE name = "up" -> <<RZero, RZero, RDec(981, -2)>> [] name = "down" -> <<RZero, RZero, RDec(-981, -2)>>
                       [] name = "zero" -> VZero(3) [] OTHER -> Vec3(st, 340, RInt(6))

DefaultQ == [accel |-> MScale(RDec(1, -5), MId(3)), gyro |-> MScale(RDec(1, -5), MId(3)),
             accel_bias |-> MScale(RDec(1, -6), MId(3)), gyro_bias |-> MScale(RDec(1, -6), MId(3)),
             integration |-> MScale(RDec(1, -7), MId(3)), winit |-> MScale(RDec(1, -7), MId(3)), ainit |-> MScale(RDec(1, -7), MId(3))]
Pos3(st, k) == RMul(OneOf(st, 2 * k, <<RDec(1, -2), RDec(1, -1), ROne>>), RAdd(RDec(3, -1), U(st, 2 * k + 1)))
\* covariance parameters: the defaults, the scalar setters (each one may be left out), or full matrices
QOf(kind, st) ==
  LET sc(k) == MScale(Pos3(st, k), MId(3))
      opt(i) == Pick(st, 7300 + i, 4) # 0
      ini == Pos3(st, 7105)
  IN CASE kind = "default" -> [kind |-> kind, set |-> <<>>, q |-> DefaultQ]
       [] kind = "huge" ->       \* everything set, in units a hundred million times larger
            LET h(k) == MScale(RDec(1, 8), sc(k)) IN
            [kind |-> "scalars", set |-> [i \in 1..6 |-> TRUE],
             q |-> [accel |-> h(7100), gyro |-> h(7101), accel_bias |-> h(7102), gyro_bias |-> h(7103), integration |-> h(7104), winit |-> h(7105), ainit |-> h(7105)]]
       [] kind = "scalars" ->
            LET on(i, d, v) == IF opt(i) THEN v ELSE d IN
            [kind |-> kind, set |-> [i \in 1..6 |-> opt(i)],
             q |-> [accel |-> on(1, DefaultQ.accel, sc(7100)), gyro |-> on(2, DefaultQ.gyro, sc(7101)),
                    accel_bias |-> on(3, DefaultQ.accel_bias, sc(7102)), gyro_bias |-> on(4, DefaultQ.gyro_bias, sc(7103)),
                    integration |-> on(5, DefaultQ.integration, sc(7104)),
                    winit |-> on(6, DefaultQ.winit, MScale(ini, MId(3))), ainit |-> on(6, DefaultQ.ainit, MScale(ini, MId(3)))]]
       [] OTHER ->
            LET m(k) == MScale(OneOf(st, 7200 + k, <<RDec(1, -1), ROne>>), SpdOf(st, 300 + 5 * k, 3, RDec(2, -1))) IN
            [kind |-> kind, set |-> <<>>, q |-> [accel |-> m(1), gyro |-> m(2), accel_bias |-> m(3), gyro_bias |-> m(4),
                                               integration |-> m(5), winit |-> m(6), ainit |-> m(7)]]

\* n measurements, each from its own class of rate, acceleration and time step; where rel, the rate and the
\* acceleration are what remains once the bias b0 is removed, so that they can be small or zero
Meas(st, n, const, b0, rel, dts) ==
  [i \in 1..n |-> LET k == IF const THEN 1 ELSE i IN
     [gyro |-> VAdd(IF rel THEN SubSeq(b0, 1, 3) ELSE VZero(3), VScale(OneOf(st, 100 * k + 40000, Rates), Axis(st, 700 + 2 * k))),
      accel |-> VAdd(IF rel THEN SubSeq(b0, 4, 6) ELSE VZero(3), Vec3(st, 900 + k, OneOf(st, 100 * k + 40001, Accs))),
      dt |-> OneOf(st, 100 * k + 40002, dts)]]
Bias(st, k, size) == VScale(size, SymVec(st, k, 6))

\* probe: a pair of states; "at" the state predicted by the recursion, or an arbitrary one
Probe(st, j, s, b0, b1, g, at, kk) ==
  LET x1 == El("SE3", st, 30 + 2 * j)   v1 == Vec3(st, 400 + 4 * j, RTwo)
      R1 == MBlock(Mat("SE3", x1), 0, 0, 3, 3)   p1 == SubSeq(x1, 5, 7)
      inc == Incr(s, b0, b1)   pr == Predict(s, inc, R1, p1, v1, g)
      q2 == QMul(SubSeq(x1, 1, 4), QExp(inc.th))
      off(k, size) == Vec3(st, 500 + 8 * j + k, size)
  IN IF at = "pred" THEN [x1 |-> x1, v1 |-> v1, b1 |-> b1, x2 |-> q2 \o pr.p, v2 |-> pr.v, b2 |-> b1, at |-> at]
     ELSE IF at = "near" THEN [x1 |-> x1, v1 |-> v1, b1 |-> b1, x2 |-> QMul(q2, QExp(off(1, RDec(3, -1)))) \o VAdd(pr.p, off(2, ROne)),
                               v2 |-> VAdd(pr.v, off(3, ROne)), b2 |-> VAdd(b1, Bias(st, 600 + j, RDec(1, -1))), at |-> at]
     ELSE [x1 |-> x1, v1 |-> v1, b1 |-> b1, x2 |-> El("SE3", st, 31 + 2 * j), v2 |-> Vec3(st, 401 + 4 * j, RInt(3)),
           b2 |-> Bias(st, 620 + j, ROne), at |-> "any"]

\* a turn by several radians (short of a whole one) in all, about one axis with a little wobble
Spin(st, n, b0, dts) ==
  LET all == Between(st, 50008, RDec(25, -1), RDec(54, -1))   ax == Axis(st, 701) IN
  [i \in 1..n |-> LET dt == OneOf(st, 100 * i + 40002, dts) IN
     [gyro |-> VAdd(SubSeq(b0, 1, 3), VScale(RDiv(all, RMul(RInt(n), dt)), VAdd(ax, VScale(RDec(5, -2), SymVec(st, 1300 + i, 3))))),
      accel |-> Vec3(st, 900 + i, OneOf(st, 100 * i + 40001, Accs)), dt |-> dt]]
ImuCaseX(st, n, const, qk, typed, moved, spin) ==
  LET b0 == IF Pick(st, 50000, 4) = 0 THEN VZero(6) ELSE Bias(st, 640, OneOf(st, 50001, <<RDec(1, -2), RDec(3, -1), ROne>>))
      gname == OneOf(st, 50002, <<"up", "down", "vec", "zero">>)   g == GravVec(gname, st)
      qq == QOf(qk, st)
      dts == CASE spin -> IF Pick(st, 50005, 2) = 0 THEN Dts ELSE DtsLong [] qk = "huge" -> Dts \o DtsLong [] Pick(st, 50005, 4) = 0 -> DtsTiny [] n > 8 -> SubSeq(Dts, 1, 3) [] Pick(st, 50005, 4) = 1 -> Dts \o DtsTiny [] OTHER -> Dts
      ms == IF spin THEN Spin(st, n, b0, dts) ELSE Meas(st, n, const, b0, Pick(st, 50006, 2) = 0, dts)
      \* probes after the measurements numbered in stops
      stops == IF n <= 1 THEN <<0, n>> ELSE <<n \div 2, n>>
      probe(t, j, at) == LET s == ImuRun(ImuInit, ms, stops[t], b0, qq.q)
                             b1 == IF moved THEN VAdd(b0, Bias(st, 660 + j, OneOf(st, 50010 + j, <<RDec(1, -2), RDec(1, -1), RDec(5, -1)>>))) ELSE b0
                         IN [after |-> stops[t]] @@ Probe(st, j, s, b0, b1, g, at, 0)
  IN [t |-> "imu", b0 |-> b0, gname |-> gname, g |-> g, qset |-> qq, ms |-> ms, typed |-> typed,
      keys |-> IF typed THEN [i \in 1..6 |-> <<SubSeq(<<"x", "v", "b", "x", "v", "b">>, i, i)[1], (3 * i + Pick(st, 50003, 40)) % 89>>]
               ELSE [i \in 1..6 |-> KeyNo(st, i)],
      probes |-> <<probe(1, 1, "near"), probe(2, 2, "pred"), probe(2, 3, "near"), probe(2, 4, "any")>>]
ImuCase(st, n, const, qk, typed, moved) == ImuCaseX(st, n, const, qk, typed, moved, FALSE)
=============================================================================
