----------------------------- MODULE C03_Trace -----------------------------
(* Recorded Levenberg-Marquardt steps must be behaviours of the Leven state machine.  Events of a step: begin       *)
(* (values and the factors' linearizations there), try (the system handed to the linear solver and its answer),      *)
(* obs, stepped.  The optimizer's column order is its own business: a try conforms if some arrangement of the        *)
(* variables explains the system.                                                                                     *)
EXTENDS Trace, LinSys, Leven

LeftConv == IOEnv.LEFT = "1"
\* columns of the scenario's order, listed in the arrangement pm
RECURSIVE ColsOf(_, _, _)
ColsOf(vars, pm, n) == IF n = 0 THEN <<>> ELSE ColsOf(vars, pm, n - 1) \o [k \in 1..TanDim(vars[pm[n]].kind) |-> ColAt(vars, pm[n]) + k]
MSel(M, ix) == [i \in 1..Len(ix) |-> [j \in 1..Len(ix) |-> M[ix[i]][ix[j]]]]
VSel(v, ix) == [i \in 1..Len(ix) |-> v[ix[i]]]
UnSel(x, ix) == [k \in 1..Len(ix) |-> x[CHOOSE i \in 1..Len(ix) : ix[i] = k]]

\* entries: J'J exactly up to rounding; the damping added on the diagonal to a relative accuracy of its own
DampedAs(A, H, lam, diag) ==
  /\ MSame(A, H) /\ MFinite(A)
  /\ \A i \in 1..Rows(H) : \A j \in 1..Rows(H) :
       LET d == IF i # j THEN RZero ELSE RMul(lam, IF diag THEN H[i][i] ELSE ROne) IN
       RLe(RAbs(RSub(A[i][j], RAdd(H[i][j], d))),
           RAdd(RMul(RDec(1, -13), RSqrt(RMul(RAdd(H[i][i], d), RAdd(H[j][j], d)))), RMul(RDec(1, -9), d)))
Explains(vars, ev, H, g, gs, lam, diag, pm) ==
  LET ix == ColsOf(vars, pm, Len(vars)) IN
  /\ VNear(ev.b, VSel(g, ix), RDec(1, -11), gs)
  /\ DampedAs(ev.a, MSel(H, ix), lam, diag)
\* arrangements that explain the system, found column block by column block (lam = <<>>: the damping is not known)
Fits(vars, ev, H, g, gs, lam, diag, at, v) ==
  LET d == TanDim(vars[v].kind)   from == ColAt(vars, v)   ix == [k \in 1..d |-> from + k]   here == [k \in 1..d |-> at + k] IN
  /\ at + d <= Len(ev.b)
  /\ VNear(VSel(ev.b, here), VSel(g, ix), RDec(1, -11), gs)
  /\ lam = <<>> \/ DampedAs(MSel(ev.a, here), MSel(H, ix), lam, diag)
RECURSIVE Arranged(_, _, _, _, _, _, _, _, _)
Arranged(vars, ev, H, g, gs, lam, diag, pm, at) ==
  IF Len(pm) = Len(vars) THEN {pm}
  ELSE UNION {Arranged(vars, ev, H, g, gs, lam, diag, Append(pm, v), at + TanDim(vars[v].kind)) :
              v \in {w \in 1..Len(vars) : (\A i \in 1..Len(pm) : pm[i] # w) /\ Fits(vars, ev, H, g, gs, lam, diag, at, w)}}
Arrangements(vars, ev, H, g, gs, lam, diag) ==
  LET n == TotDim(vars) IN
  IF Len(ev.b) # n \/ ~IsMat(ev.a, n, n) THEN {}
  ELSE {pm \in Arranged(vars, ev, H, g, gs, lam, diag, <<>>, 0) : lam = <<>> \/ Explains(vars, ev, H, g, gs, lam, diag, pm)}
Half2(v) == RDiv(VNorm2(v), RTwo)
\* does dx strictly decrease the linearized cost? "any" when only rounding could tell
Verdict(A, b, dx) ==
  IF ~VFinite(dx) THEN "rej"
  ELSE IF \A i \in 1..Len(dx) : dx[i] = RZero THEN "rej"
  ELSE LET c0 == Half2(b)   c1 == Half2(VSub(MVec(A, dx), b)) IN
       IF ~RFinite(c1) THEN "rej"
       ELSE IF RLe(RAbs(RSub(c1, c0)), RMul(RDec(1, -10), RAdd(c0, RDec(1, -290)))) THEN "any" ELSE IF RLt(c1, c0) THEN "acc" ELSE "rej"

\* state: lam (next attempt's damping; <<>> = underflowed, unknown), pc, the linear system, the last attempt
S0 == [pc |-> "idle", lam |-> LamInit, raws |-> <<>>, A |-> <<>>, b |-> <<>>, dx |-> <<>>, ver |-> "none", obs |-> 0, tries |-> 0, run |-> 1, left |-> 0]
LamRej(p, lam) == IF lam = <<>> \/ lam = RZero THEN <<>> ELSE AfterReject(p, lam)
LamAcc(p, lam) == IF lam = <<>> THEN <<>> ELSE AfterAccept(p, lam)
\* may the optimizer try again / fail after a rejection that left damping lam?
MayRetry(p, lam) == lam = <<>> \/ ~Beyond(p, lam) \/ Tie(p, lam)
MayFail(p, lam) == lam = <<>> \/ Beyond(p, lam) \/ Tie(p, lam)

StepNext(scn, q, ev) ==
  LET vars == scn.vars   p == scn.leven IN
  CASE ev.e = "init" -> <<[q EXCEPT !.lam = LamInit, !.pc = "idle"], << <<"init between steps", q.pc = "idle">> >> >>
    [] ev.e = "begin" ->
         LET A == SysA(vars, ev.fs) IN
         <<[q EXCEPT !.pc = "begun", !.raws = ev.vals, !.A = A, !.b = SysB(ev.fs), !.ver = "none", !.obs = 0, !.tries = 0],
           << <<"values between steps untouched", q.pc = "idle" /\ (q.raws = <<>> \/ ev.vals = q.raws)>> >> >>
    [] ev.e = "try" ->
         LET again == q.pc = "tried"
             lam == IF again THEN LamRej(p, q.lam) ELSE q.lam
             H == MMul(MT(q.A), q.A)   g == MVec(MT(q.A), q.b)   gs == VMaxAbs(MVec(MAbs(MT(q.A)), VAbs(q.b)))     \* gs: the size of what cancels in g
             ok == Arrangements(vars, ev, H, g, gs, lam, p.diag)
             dxs == {UnSel(ev.x, ColsOf(vars, pm, Len(vars))) : pm \in ok}
             dx == CHOOSE d \in dxs : TRUE
         IN IF q.pc \notin {"begun", "tried"} THEN <<q, << <<"attempt outside a step", FALSE>> >> >>
            ELSE IF ok = {} THEN <<[q EXCEPT !.pc = "tried", !.ver = "any", !.lam = lam, !.dx = VZero(TotDim(vars))], << <<"system solved is (J'J + lambda D) dx = J'b", FALSE>> >> >>
            ELSE <<[q EXCEPT !.pc = "tried", !.lam = lam, !.dx = dx, !.tries = @ + 1, !.ver = IF Cardinality(dxs) = 1 THEN Verdict(q.A, q.b, dx) ELSE "any"],
                   << <<"an attempt that decreases the linearized cost must be accepted", again => q.ver # "acc">>,
                      <<"no attempt beyond lambda_max after a rejection", again => MayRetry(p, lam)>> >> >>
    [] ev.e = "obs" -> <<[q EXCEPT !.obs = @ + 1, !.raws = ev.vals], << <<"observers only after an accepted attempt", q.pc = "tried" /\ q.ver # "rej" /\ ev.no = q.obs + 1>> >> >>
    [] ev.e = "stepped" /\ ev.res = "ok" ->
         LET lam == LamAcc(p, q.lam) IN
         IF q.pc # "tried" THEN <<q, << <<"step without an attempt", FALSE>> >> >>
         ELSE LET start == IF q.obs = 0 THEN q.raws ELSE <<>>   want == Moved(vars, ev.before, q.dx, FALSE, LeftConv)
                  near(v) == IF vars[v].kind \notin LieKinds
                             THEN LET n == RawDim(vars[v].kind)   y == [x \in 1..n |-> want[v][x][n + 1]] IN
                                  VFinite(ev.vals[v]) /\ RLe(VMaxAbs(VSub(ev.vals[v], y)), RMul(RDec(1, -12), RMax(VMaxAbs(ev.before[v]), VMaxAbs(SliceOf(vars, q.dx, v)))))
                             ELSE MNear(Mat(vars[v].kind, ev.vals[v]), want[v], RAdd(ROne, MMaxAbs(want[v])), RAdd(RDec(1, -9), RMul(RDec(1, -9), VMaxAbs(SliceOf(vars, q.dx, v))))) IN
              <<[q EXCEPT !.pc = "idle", !.lam = lam, !.raws = ev.vals],
                << <<"accepted only if the linearized cost strictly decreases", q.ver # "rej">>,
                   <<"observers told once each", q.obs = scn.nobs /\ (q.obs = 0 \/ q.raws = ev.vals)>>,
                   <<"values moved by oplus(dx)", SameVars(vars, ev.vals) /\ \A v \in 1..Len(vars) : near(v)>> >> >>
    [] ev.e = "stepped" ->
         <<[q EXCEPT !.pc = "failed"],
           << <<"FailedToStep", ev.res = "failed">>,
              <<"fails only after a rejection that takes lambda beyond lambda_max", q.pc = "tried" /\ q.ver # "acc" /\ MayFail(p, LamRej(p, q.lam))>>,
              <<"observers not told of a failed step", q.obs = 0>> >> >>
    [] OTHER -> <<q, << <<"outcome:" \o ev.e, FALSE>> >> >>

VARIABLES c, l, q
Init == c \in 1..Len(Cases) /\ l = 0 /\ q = S0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN LET o == StepNext(scn, q, evs[l + 1]) IN Report(Cases[c].id, l + 1, Broken(o[2])) /\ q' = o[1]
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", q.pc = "failed" \/ (q.pc = "idle" /\ Cardinality({i \in 1..Len(evs) : evs[i].e = "stepped"}) = LET RECURSIVE s(_)  s(i) == IF i = 0 THEN 0 ELSE s(i - 1) + scn.inits[i] IN s(Len(scn.inits)))>> >>)) /\ q' = q
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, q>>
=============================================================================
