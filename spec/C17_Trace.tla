----------------------------- MODULE C17_Trace -----------------------------
EXTENDS ImuTrace

TRes == RDec(1, -7)
TJac == RDec(2, -5)
Widths == <<6, 3, 6, 6, 3, 6>>
Shape(scn, ev) ==
  << <<"keys are pose1, velocity1, bias1, pose2, velocity2, bias2", ev.keys = <<1, 2, 3, 4, 5, 6>> /\ ev.lkeys = ev.keys>>,
     <<"fifteen residuals, thirty columns", ev.dout = 15 /\ ev.widths = Widths /\ IsMat(ev.a, 15, 30) /\ Len(ev.b) = 15>>,
     <<"finite", MFinite(ev.a) /\ VFinite(ev.b) /\ RFinite(ev.err)>> >>
ProbeClauses(scn, s, ev) ==
  LET p == scn.probes[ev.p]
      w == Where(scn, s, p)   rth == LogOf(w.D)
      r == rth \o w.lin
      \* the logarithm jumps at half a turn
      cut == NearHalfTurn(w.D)
      J == ImuJac(s, p, scn.b0, rth, IOEnv.LEFT = "1")
      J2 == MBlock(J, 0, 15, 15, 15)   A2 == MBlock(ev.a, 0, 15, 15, 15)
      T == MMul(J2, MInv(A2))
      got == VNeg(MVec(T, ev.b))
      scale == RAdd(ROne, VMaxAbs(r))
      bias == <<"bias residual", VNear(SubSeq(got, 10, 15), SubSeq(r, 10, 15), TRes, scale)>>
  IN IF cut THEN <<>>
     \* how the prediction follows a bias other than the one removed is the next property's matter
     ELSE IF p.b1 # scn.b0 THEN <<bias>> ELSE
     << <<"rotation residual", VNear(SubSeq(got, 1, 3), SubSeq(r, 1, 3), TRes, ROne)>>,
        <<"velocity residual", VNear(SubSeq(got, 4, 6), SubSeq(r, 4, 6), TRes, scale)>>,
        <<"position residual", VNear(SubSeq(got, 7, 9), SubSeq(r, 7, 9), TRes, scale)>>,
        bias,
        <<"vanishes at the predicted state", p.at # "pred" \/ RLe(VMaxAbs(got), RMul(TRes, scale))>>,
        <<"jacobian of the states", MNear(MMul(T, MBlock(ev.a, 0, 0, 15, 9)), MBlock(J, 0, 0, 15, 9), TJac, RAdd(ROne, MMaxAbs(J)))>>,
        <<"error is half the squared whitened residual", RNear(ev.err, RMul(RHalf, VNorm2(ev.b)), RDec(1, -6), RAdd(RDec(1, -9), ev.err))>> >>

Clauses(scn, s, ev) ==
  IF ev.e = "integrate" THEN <<>>
  ELSE IF ev.e # "probe" THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE IF Broken(Shape(scn, ev)) # {} THEN Shape(scn, ev)
  ELSE ProbeClauses(scn, s, ev)

VARIABLES c, l, k, s
Init == c \in 1..Len(Cases) /\ l = 0 /\ k = 0 /\ s = ImuInit
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs)
     THEN /\ Report(Cases[c].id, l + 1, Broken(Clauses(scn, s, evs[l + 1])))
          /\ IF evs[l + 1].e = "integrate" /\ k < Len(scn.ms) THEN k' = k + 1 /\ s' = ImuStep(s, scn.ms[k + 1], scn.b0, scn.qset.q) ELSE UNCHANGED <<k, s>>
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(scn.ms) + Len(scn.probes)>> >>)) /\ UNCHANGED <<k, s>>
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, k, s>>
=============================================================================
