----------------------------- MODULE C11_Trace -----------------------------
EXTENDS Trace, Diff

LeftConv == IOEnv.LEFT = "1"
TFwd == RDec(1, -9)
TNum == RDec(5, -8)
TolOf(e) == IF e \in {"fwd", "fwdgrad"} THEN TFwd ELSE IF e = "num4" THEN RDec(1, -6) ELSE TNum

Kinds6(scn) == scn.k
JacClauses(scn, ev) ==
  LET ks == scn.k   Ms == [i \in 1..Len(ks) |-> Mat(ks[i], scn.x[i])]
      grad == ev.e \in {"fwdgrad", "numgrad"}
      A == IF grad THEN <<scn.a[1]>> ELSE scn.a
      B == IF grad THEN <<scn.b[1]>> ELSE scn.b
  IN << <<ev.e \o " value", VClose(ev.val, FVal(ks, Ms, A, B), TFwd)>>,
        <<ev.e \o " jacobian", MClose(ev.jac, FJac(ks, Ms, A, B, LeftConv), TolOf(ev.e))>> >>
GrpClauses(scn, ev) ==
  LET k == scn.kind   Ms == [i \in 1..Len(scn.x) |-> Mat(k, scn.x[i])]
      Ys == GWord(k, Ms, scn.word, scn.inv)
  IN << <<"jacobian_variable value", MClose(Mat(k, ev.raw), GProd(k, Ys, 1, Len(Ys)), TFwd)>>,
        <<"jacobian_variable", MClose(ev.jac, GJac(k, Ms, scn.word, scn.inv, LeftConv), TNum)>> >>
OpClauses(scn, ev) ==
  << <<scn.op \o " on dual numbers", VClose(ev.val, OpVal(scn.op, scn.kind, scn.x, LeftConv), RDec(1, -8))>>,
     <<"derivative of " \o scn.op, MClose(ev.jac, OpJac(scn.op, scn.kind, scn.x, LeftConv), IF scn.op \in {"exp", "oplus"} THEN RDec(3, -6) ELSE TFwd)>> >>
PoseClauses(scn, ev) ==
  LET R == Mat("SO3", scn.x[1])   t == scn.x[2] IN
  << <<"jacobian_variable value", MClose(Mat("SE3", ev.raw), Rigid(R, t), TFwd)>>,
     <<"jacobian_variable", MClose(ev.jac, PoseJac(R, t, scn.swap, LeftConv), TNum)>> >>
ScalarClauses(scn, ev) ==
  << <<ev.e \o " derivative value", RClose(ev.val, SVal(scn.f, scn.c, scn.x), TFwd)>>,
     <<ev.e \o " derivative", RClose(ev.diff, SDer(scn.f, scn.c, scn.x), IF ev.e = "fwd" THEN TFwd ELSE TNum)>> >>

Order(t) == CASE t = "diffjac" -> <<"fwd", "num", "num4", "fwdgrad", "numgrad">> [] t = "diffscalar" -> <<"num", "fwd">> [] t = "diffops" -> <<"op">> [] OTHER -> <<"grp">>
Clauses(scn, i, ev) ==
  IF i > Len(Order(scn.t)) \/ ev.e \in {"panic", "hang", "skipped"} THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE IF ev.e # Order(scn.t)[i] THEN << <<"order", FALSE>> >>
  ELSE CASE scn.t = "diffjac" -> JacClauses(scn, ev) [] scn.t = "diffgrp" -> GrpClauses(scn, ev)
         [] scn.t = "diffops" -> OpClauses(scn, ev)
         [] scn.t = "diffpose" -> PoseClauses(scn, ev) [] OTHER -> ScalarClauses(scn, ev)

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, l + 1, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(Order(scn.t))>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
