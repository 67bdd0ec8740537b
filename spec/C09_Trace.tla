----------------------------- MODULE C09_Trace -----------------------------
(* exp is the matrix exponential, log its inverse with rotation angle at most pi, and the retractions are      *)
(* those built from them in the convention the feature set selects.                                            *)
EXTENDS Trace, Lie

FakeExp == IOEnv.FAKE = "1"
LeftConv == IOEnv.LEFT = "1"
Tol == RDec(1, -8)

IsEl(ev) == ev.e = "el"
IsTan(ev) == ev.e = "tan"

\* element ops: expected matrix
ElMat(k, op) ==
  CASE op[1] = "exp" -> ExpMat(k, op[2], FakeExp)
    [] op[1] \in {"oplus", "oplus_mut"} -> OplusMat(k, Mat(k, op[2]), op[3], FakeExp, LeftConv)
    [] op[1] = "oplus_right" -> OplusMat(k, Mat(k, op[2]), op[3], FakeExp, FALSE)
    [] op[1] = "oplus_left"  -> OplusMat(k, Mat(k, op[2]), op[3], FakeExp, TRUE)
    [] op[1] = "minus"       -> OminusMat(k, Mat(k, op[2]), Mat(k, op[3]), FALSE)
    [] op[1] = "back"        -> Mat(k, op[2])
\* tangent ops: element whose logarithm is expected
TanMat(k, op) ==
  CASE op[1] = "log" -> Mat(k, op[2])
    [] op[1] = "ominus" -> OminusMat(k, Mat(k, op[2]), Mat(k, op[3]), LeftConv)
    [] op[1] = "ominus_right" -> OminusMat(k, Mat(k, op[2]), Mat(k, op[3]), FALSE)
    [] op[1] = "ominus_left"  -> OminusMat(k, Mat(k, op[2]), Mat(k, op[3]), TRUE)

\* magnitude of the elements an operation works on
Scale(k, op) == CASE op[1] \in {"exp", "logexp"} -> VMaxAbs(op[2])
                  [] op[1] = "log" -> VMaxAbs(op[2])
                  [] OTHER -> RAdd(VMaxAbs(op[2]), VMaxAbs(op[3]))
\* the element an oplus moved by
Moved(k, op, M) ==
  LET left == op[1] = "oplus_left" \/ (LeftConv /\ op[1] \in {"oplus", "oplus_mut"}) IN
  IF left THEN MMul(M, GInv(k, Mat(k, op[2]))) ELSE MMul(GInv(k, Mat(k, op[2])), M)

Clauses(scn, i, ev) ==
  LET k == scn.kind   op == scn.ops[i] IN
  IF ~(IsEl(ev) \/ IsTan(ev)) THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE IF op[1] = "logexp" THEN << <<"logexp", IsTan(ev) /\ VClose(ev.xi, op[2], Tol)>>,
                                   <<"logexp (small)", IsTan(ev) /\ NearRel(k, ExpMat(k, ev.xi, FakeExp), ExpMat(k, op[2], FakeExp), Scale(k, op))>> >>
  ELSE IF IsEl(ev) THEN << <<op[1], MNear(Mat(k, ev.raw), ElMat(k, op), Tol, RAdd(RAdd(ROne, MMaxAbs(ElMat(k, op))), Scale(k, op)))>>, <<"well-formed", WellFormed(k, Mat(k, ev.raw), Tol)>>,
    <<op[1] \o " (small)", CASE op[1] \in {"exp", "minus"} -> NearRel(k, Mat(k, ev.raw), ElMat(k, op), Scale(k, op))
                            [] op[1] = "back" -> TRUE
                            [] OTHER -> NearRel(k, Moved(k, op, Mat(k, ev.raw)), ExpMat(k, op[3], FakeExp), Scale(k, op))>> >>
  ELSE << <<op[1], IsLog(k, ev.xi, TanMat(k, op), FakeExp, Tol)>>,
          <<op[1] \o " (small)", NearRel(k, ExpMat(k, ev.xi, FakeExp), TanMat(k, op), Scale(k, op))>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, l + 1, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(scn.ops)>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
