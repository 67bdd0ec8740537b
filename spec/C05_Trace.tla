----------------------------- MODULE C05_Trace -----------------------------
(* What a run does is a function of the problem posed (start, parameters; the factors are the scenario's).  The     *)
(* first run that poses a problem fixes that function's value; every later one, whichever instance, order, naming,  *)
(* linear solver or history, must give the same iterates and outcome.  Runs that met a tolerance end where the       *)
(* gradient vanishes.                                                                                                 *)
EXTENDS Trace, LinSys

LeftConv == IOEnv.LEFT = "1"
Tol == RDec(1, -5)
NearVals(vars, a, b) == SameVars(vars, a) /\ SameVars(vars, b) /\
  \A v \in 1..Len(vars) : LET A == Mat(vars[v].kind, a[v])   B == Mat(vars[v].kind, b[v]) IN MClose(A, B, RMul(Tol, RAdd(ROne, MMaxAbs(A))))
NearErr(a, b) == RLe(RAbs(RSub(a, b)), RMul(Tol, RAdd(RDec(1, -6), RMax(RAbs(a), RAbs(b)))))
Half2(v) == RDiv(VNorm2(v), RTwo)
\* by how much the linearized cost can still decrease
Gain(vars, fs) == LET A == SysA(vars, fs)   b == SysB(fs)   dx == Minimiser(A, b) IN RSub(Half2(b), Half2(VSub(MVec(A, dx), b)))
Min(a, b) == IF a < b THEN a ELSE b
ErrAt(ev, k) == IF k = 0 THEN ev.err0 ELSE ev.its[k].err
\* the stopping test is decided by rounding at step k: the decrease lies at a tolerance, or is rounding itself
TieAt(ev, p, k) ==
  LET d == RSub(ErrAt(ev, k - 1), ErrAt(ev, k))   rel == RDiv(d, ErrAt(ev, k - 1))
      near(x, t) == RLe(RAbs(RSub(x, t)), RMul(RDec(2, -1), t)) IN
  near(d, p.abs) \/ near(rel, p.rel) \/ RLe(RAbs(rel), RDec(1, -12)) \/ RLe(ErrAt(ev, k - 1), RDec(1, -15))
Ended(ev) == ev.steps <= Len(ev.its)
\* no more to gain than rounding could hide
NoGain(g, err) == RFinite(g) /\ RLe(g, RMul(RDec(1, -10), RAdd(RDec(1, -10), err)))
LastErr(ev) == IF ev.steps = 0 THEN ev.err0 ELSE ev.its[ev.steps].err
SameOutcome(vars, run, a, b) ==
  \/ run.lim = "exhaust"
  \/ a.res = b.res /\ a.steps = b.steps
  \/ "failed" \in {a.res, b.res} /\ Ended(a) /\ Ended(b) /\ NoGain(Gain(vars, a.ffs), LastErr(a)) /\ NoGain(Gain(vars, b.ffs), LastErr(b))
  \/ Ended(a) /\ Ended(b) /\ (\E k \in {x \in {Min(a.steps, b.steps), Min(a.steps, b.steps) + 1} : x >= 1} : (k <= a.steps /\ TieAt(a, run.p, k)) \/ (k <= b.steps /\ TieAt(b, run.p, k)))
SameRun(vars, run, a, b) ==
  LET n == Min(Len(a.its), Len(b.its)) IN
  << <<"same starting error", NearErr(a.err0, b.err0)>>,
     <<"same iterates", \A k \in 1..n : NearVals(vars, a.its[k].vals, b.its[k].vals) /\ NearErr(a.its[k].err, b.its[k].err)>>,
     <<"same outcome", SameOutcome(vars, run, a, b)>>,
     <<"failed where the other stopped", (run.lim = "full" /\ {a.res, b.res} = {"ok", "failed"}) => RLe(RAbs(RSub(LastErr(a), LastErr(b))), RMul(RInt(20), RMax(run.p.abs, RMul(run.p.rel, LastErr(a)))))>>,
     <<"same result", (a.res \in {"ok", "max"} /\ a.res = b.res) => NearVals(vars, a.vals, b.vals)>> >>
\* the iterates went downhill (Gauss-Newton may overshoot, and the loop stops at an increase)
Monotone(ev) == \A k \in 1..Len(ev.its) : RLe(ErrAt(ev, k), ErrAt(ev, k - 1))
RunClauses(scn, run, ev) ==
  LET vars == scn.vars IN
  << <<"a run with all variables does not panic", Len(run.order) = Len(vars) => ev.res # "panic">>,
     <<"a run with a variable missing panics", Len(run.order) < Len(vars) => ev.res = "panic">>,
     <<"variables no factor mentions are left as they were", ev.same>>,
     <<"a full run converges", (run.lim = "full" /\ Len(run.order) = Len(vars)) => ev.res \in {"ok", "failed"}>>,
     <<"a step fails only where no decrease is left", (ev.res = "failed" /\ Ended(ev)) => NoGain(Gain(vars, ev.ffs), LastErr(ev))>>,
     <<"stationary at the end", (run.lim = "full" /\ ev.res = "ok" /\ Ended(ev) /\ Monotone(ev)) =>
            LET g == Gain(vars, ev.ffs) IN RFinite(g) /\ RLe(g, RMul(RInt(20), RMax(RDec(1, -7), RMul(RDec(1, -7), LastErr(ev)))))>>,
     <<"affine: the unique minimiser", (scn.affine /\ run.lim = "full" /\ ev.res = "ok") =>
            LET A == SysA(vars, ev.fs)   b == SysB(ev.fs)   dx == Minimiser(A, b)   want == Moved(vars, [v \in 1..Len(vars) |-> scn.starts[run.start][v].raw], dx, FALSE, LeftConv) IN
            \A v \in 1..Len(vars) : MClose(Mat(vars[v].kind, ev.vals[v]), want[v], RMul(RDec(1, -4), RAdd(ROne, VMaxAbs(dx))))>> >>

VARIABLES c, l, seen
Init == c \in 1..Len(Cases) /\ l = 0 /\ seen = <<>>
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev   n == l + 1 IN
  /\ l <= Len(evs)
  /\ IF l = Len(evs) THEN Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(scn.runs)>> >>)) /\ seen' = seen
     ELSE IF evs[n].e # "ran" THEN Report(Cases[c].id, n, {"outcome:" \o evs[n].e}) /\ seen' = seen
     ELSE LET run == scn.runs[n]   same == {i \in 1..Len(seen) : seen[i].run.start = run.start /\ seen[i].run.lim = run.lim /\ Len(seen[i].run.order) = Len(run.order)} IN
          /\ Report(Cases[c].id, n, Broken(RunClauses(scn, run, evs[n]) \o (IF same = {} THEN <<>> ELSE SameRun(scn.vars, run, seen[CHOOSE i \in same : \A j \in same : i <= j].ev, evs[n]))))
          /\ seen' = Append(seen, [run |-> run, ev |-> evs[n]])
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, seen>>
=============================================================================
