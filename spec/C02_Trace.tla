----------------------------- MODULE C02_Trace -----------------------------
(* A Gauss-Newton step from the values held in the state: the factors' linearizations there (recorded from the    *)
(* same factors, see C12) stacked into A, b; dx the minimiser of |A dx - b|; every variable moved by its slice.    *)
EXTENDS Trace, LinSys

LeftConv == IOEnv.LEFT = "1"
Fake == IOEnv.FAKE = "1"
Tol == RDec(1, -6)
\* One group of variables that factors tie together: each moved by its block of the minimiser of the group's own system,
\* to a relative accuracy (scale: the size of the step, and of what cancels in J'b seen through the inverse).
GroupOk(vars, raws, ev, S) ==
  LET sub == SubSys(vars, ev.fs, S)   A == SysA(sub.vars, sub.fs)   b == SysB(sub.fs)   At == MT(A)   H == MMul(At, A)
      dx == VSolve(H, MVec(At, b))
      lost == RMul(MMaxAbs(MInv(H)), VMaxAbs(MVec(MAbs(At), VAbs(b))))
      tol == RAdd(RMul(Tol, VMaxAbs(dx)), RMul(RDec(1, -10), lost))
      want == Moved(sub.vars, [i \in 1..Len(sub.ix) |-> raws[sub.ix[i]]], dx, Fake, LeftConv)
  IN \A i \in 1..Len(sub.ix) : LET M == Mat(sub.vars[i].kind, ev.vals[sub.ix[i]]) IN
       /\ MFinite(M)
       /\ IF sub.vars[i].kind \in LieKinds THEN MNear(M, want[i], ROne, RMul(RAdd(ROne, MMaxAbs(want[i])), RAdd(tol, RDec(1, -12))))
          ELSE LET n == Len(M) - 1   x == [q \in 1..n |-> M[q][n + 1]]   y == [q \in 1..n |-> want[i][q][n + 1]] IN     \* vectors: relative, whatever the unit
               RLe(VMaxAbs(VSub(x, y)), RAdd(tol, RMul(RDec(1, -13), RMax(VMaxAbs(x), RMax(VMaxAbs(y), VMaxAbs(raws[sub.ix[i]]))))))
StepClauses(scn, raws, ev) ==
  LET vars == scn.vars IN
  IF ~(\A i \in 1..Len(ev.fs) : WellShaped(vars, ev.fs[i])) THEN << <<"factor blocks", FALSE>> >>
  ELSE
     << <<"linearized at the current values", ev.before = raws>>,
        <<"step succeeds", ev.res = "ok">>,
        <<"keys and types unchanged", ev.res = "ok" => ev.len = Len(vars) /\ SameVars(vars, ev.vals)>>,
        <<"every variable moved by its block of the minimiser",
          (ev.res = "ok" /\ SameVars(vars, ev.vals)) => \A S \in Components(vars, ev.fs) : GroupOk(vars, raws, ev, S)>> >>
\* affine residuals: after one step the gradient vanishes
AffineClauses(scn, ev) ==
  LET A == SysA(scn.vars, ev.fs)   b == SysB(ev.fs)   g == MVec(MT(A), b)   dx == Minimiser(A, b) IN
  << <<"affine problem: one step reaches the minimiser", VFinite(dx) /\ RLe(VMaxAbs(dx), RDec(1, -6))>> >>

VARIABLES c, l, raws
Init == c \in 1..Len(Cases) /\ l = 0 /\ raws = Cases[c].ev[1].start
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev   n == l + 1 IN
  /\ l <= Len(evs)
  /\ IF l = Len(evs) THEN Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = scn.steps + 2>> >>)) /\ raws' = raws
     ELSE IF n = 1 /\ evs[n].e = "start" THEN
          Report(Cases[c].id, n, Broken(<< <<"values hold the variables given", evs[n].len = Len(scn.vars) /\ SameVars(scn.vars, evs[n].start)>> >>)) /\ raws' = raws
     ELSE IF n \in 2..(scn.steps + 1) /\ evs[n].e = "gn" THEN
          /\ Report(Cases[c].id, n, Broken(StepClauses(scn, raws, evs[n])))
          /\ raws' = evs[n].vals
     ELSE IF n = scn.steps + 2 /\ evs[n].e = "final" THEN Report(Cases[c].id, n, Broken(IF scn.affine THEN AffineClauses(scn, evs[n]) ELSE << >>)) /\ raws' = raws
     ELSE Report(Cases[c].id, n, {"outcome:" \o evs[n].e}) /\ raws' = raws
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, raws>>
=============================================================================
