----------------------------- MODULE C22_Trace -----------------------------
(* The measurements agree with the truth, so the truth is where the error vanishes; a run from nearby ends there.    *)
EXTENDS Trace, Resid

Size(T) == RMax(ROne, MMaxAbs(T))
AtTruth(scn, vals, tol) == Len(vals) = Len(scn.vars) /\
  \A v \in 1..Len(scn.vars) : LET k == scn.vars[v].kind   T == Mat(k, scn.truth[v]) IN
     Len(vals[v]) = RawDim(k) /\ LET M == Mat(k, vals[v]) IN MFinite(M) /\ MClose(M, T, RMul(tol, Size(T)))
\* where the scene has a scale of its own, well below it
Fine(scn, vals) == Len(vals) = Len(scn.vars) /\
  \A v \in 1..Len(scn.vars) : LET k == scn.vars[v].kind   T == Mat(k, scn.truth[v]) IN
     Len(vals[v]) = RawDim(k) /\ LET M == Mat(k, vals[v]) IN MFinite(M) /\ RLe(MMaxAbs(MSub(M, T)), RAdd(RMul(RDec(1, -3), scn.unit), RMul(RDec(1, -11), Size(T))))
LastErr(ev) == ev.errs[Len(ev.errs)]
\* steps that changed the error by more than rounding
Useful(ev) == {k \in 1..(Len(ev.errs) - 1) : ~RLe(RAbs(RSub(ev.errs[k], ev.errs[k + 1])), RMul(RDec(1, -12), RAdd(ROne, RAbs(ev.errs[k]))))}
Steps(ev) == Cardinality(Useful(ev))
Settled(ev) == Steps(ev) < Len(ev.errs) - 1 /\ (Len(ev.errs) - 1) \notin Useful(ev)
Clauses(scn, ev) ==
  LET tol == IF scn.p.own THEN RMax(RDec(1, -7), RMul(RInt(50), RSqrt(scn.p.tol))) ELSE RDec(2, -3)
      got == IF ev.res \in {"ok", "max"} THEN ev.vals ELSE ev.last
  IN << <<"converges", ev.res = "ok" \/ (ev.res = "failed" /\ scn.opt # "gn") \/ (ev.res = "max" /\ scn.p.own /\ Settled(ev))>>,
        <<"recovers the truth", AtTruth(scn, got, tol)>>,
        <<"recovers the truth in the scene's units", RLe(scn.unit, RZero) \/ Fine(scn, got)>>,
        <<"all variables and no others", ev.res = "ok" => ev.len = Len(scn.vars)>>,
        <<"no error remains", (~scn.gross /\ scn.p.own) => (RFinite(LastErr(ev)) /\ RLe(LastErr(ev), RMax(RDec(1, -6), RMul(RInt(100), scn.p.tol))))>>,
        <<"few steps", Steps(ev) <= IF scn.robust THEN 30 ELSE IF scn.imus # <<>> THEN 20 ELSE IF scn.opt = "gn" THEN 6 ELSE 12>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(IF evs[l + 1].e = "end" THEN Clauses(scn, evs[l + 1]) ELSE << <<"outcome:" \o evs[l + 1].e, FALSE>> >>))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = 1>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
