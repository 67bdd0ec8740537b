----------------------------- MODULE C16_Trace -----------------------------
EXTENDS Trace, Resid

LeftConv == IOEnv.LEFT = "1"
Fake == IOEnv.FAKE = "1"
TVal == RDec(2, -8)
TJac == RDec(1, -5)

VarAt(scn, key) == scn.vars[CHOOSE i \in 1..Len(scn.vars) : scn.vars[i].key = key]
Clauses(scn, ev) ==
  IF ev.e # "residual" THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE IF scn.bad THEN << <<"missing or mistyped variable: residual must panic", ev.o1 = "panic">>, <<"missing or mistyped variable: jacobian must panic", ev.o2 = "panic">> >>
  ELSE IF ev.o1 # "ok" \/ ev.o2 # "ok" THEN << <<"unexpected panic", FALSE>> >>
  ELSE LET vs == [i \in 1..Len(scn.keys) |-> VarAt(scn, scn.keys[i])]
           ks == [i \in 1..Len(vs) |-> vs[i].kind]   Ms == [i \in 1..Len(vs) |-> Mat(ks[i], vs[i].raw)]
           res == scn.res
           din == LET RECURSIVE s(_)  s(i) == IF i = 0 THEN 0 ELSE s(i - 1) + TanDim(ks[i]) IN s(Len(ks))
       IN IF res.r = "comb"
          THEN << <<"dimensions", ev.din = din /\ ev.dout = Len(res.c)>>,
                  <<"value", VClose(ev.val, CombVal(res, ks, Ms), RDec(1, -9))>>,
                  <<"value with jacobian", VClose(ev.jval, CombVal(res, ks, Ms), RDec(1, -9))>>,
                  <<"jacobian", MClose(ev.jac, CombJac(res, ks, Ms, LeftConv), RDec(1, -9))>> >>
          ELSE LET k == res.kind   M == ResidMat(res, Ms, LeftConv)   n == TanDim(k)
                   scale == RAdd(MMaxAbs(Ms[1]), RAdd(MMaxAbs(Ms[Len(Ms)]), MMaxAbs(Mat(k, res.z))))
                   \* half a turn: the logarithm is not differentiable there
                   diffable == RLt(RotAngle(k, ev.val), RSub(RPi, RDec(1, -4)))
               IN << <<"dimensions", ev.din = din /\ ev.dout = n /\ Len(ev.val) = n>>,
                     <<"value is the logarithm of the discrepancy", IsLog(k, ev.val, M, Fake, TVal)>>,
                     <<"value, near agreement", NearRel(k, ExpMat(k, ev.val, Fake), M, scale)>>,
                     <<"value with jacobian", IF diffable THEN VClose(ev.jval, ev.val, TVal) ELSE IsLog(k, ev.jval, M, Fake, TVal)>>,
                     <<"jacobian", IF diffable THEN MClose(ev.jac, ResidJac(res, Ms, ev.val, LeftConv, Fake), TJac) ELSE IsMat(ev.jac, n, din)>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = 1>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
