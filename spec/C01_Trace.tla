----------------------------- MODULE C01_Trace -----------------------------
(* Recorded runs of the real loop must be behaviours of OptLoop.                                                 *)
(*  "optloop": a scripted optimizer; several runs on one instance.  Events: init (token it was shown), step       *)
(*     (index, token), end (outcome, token).  The token of an iterate is its number within the run.               *)
(*  "optobs": Gauss-Newton and Levenberg-Marquardt on real graphs with observers.  Events: begin (error of the    *)
(*     input), obs (observer, index, values, their error), end.                                                    *)
EXTENDS Trace, OptLoop, Lin

\* ---- scripted
SInit == [r |-> 1, s |-> Start, inits |-> 0, obs |-> 0, vals |-> <<>>, err |-> RZero]
Why(run, s) == run.fail.at = s.i + 1
LoopNext(scn, q, ev) ==
  IF q.r > Len(scn.runs) THEN <<q, << <<"event after the last run", FALSE>> >> >>
  ELSE
  LET run == scn.runs[q.r]   p == run.p
      s == IF q.s.pc = "start" THEN Begun(p, run.err[1]) ELSE q.s IN
  CASE ev.e = "init" -> <<[q EXCEPT !.inits = @ + 1], << <<"init once, with the input, before any step", q.inits = 0 /\ q.s.pc = "start" /\ ev.tok = 0>> >> >>
    [] ev.e = "step" ->
         IF s.pc # "run" THEN <<[q EXCEPT !.s = s], << <<"step after the run should have ended", FALSE>> >> >>
         ELSE LET s2 == IF Why(run, s) THEN Failed(s, run.fail.why) ELSE Stepped(p, s, run.err[s.i + 2]) IN
              <<[q EXCEPT !.s = s2], << <<"initialised before the first step", q.inits = 1>>, <<"steps numbered from 1", ev.idx = s.i + 1>>, <<"step continues from the last values", ev.tok = s.i>> >> >>
    [] ev.e = "end" ->
         <<[SInit EXCEPT !.r = q.r + 1],
           << <<"initialised once", q.inits = 1>>,
              <<"run ended although no criterion was met", s.pc = "end">>,
              <<"result", s.pc = "end" => /\ ev.res = (IF s.res = "maxother" THEN "max" ELSE s.res)
                                          /\ ev.tok = (IF s.res \in {"ok", "max"} THEN s.i ELSE IF s.res = "maxother" THEN 900 ELSE -1)>> >> >>
    [] OTHER -> <<q, << <<"outcome:" \o ev.e, FALSE>> >> >>

\* ---- real optimizers with observers
ObsNext(scn, q, ev) ==
  LET p == scn.p IN
  CASE ev.e = "begin" -> <<[q EXCEPT !.s = Begun(p, ev.err), !.vals = ev.vals], << <<"one begin", q.s.pc = "start">>,
                                     <<"the optimizer works on the graph it was given", ev.nfac = Len(scn.facs) /\ ev.gerr = ev.err /\ ev.oerr = ev.err>> >> >>
    [] ev.e = "obs" ->
         LET first == q.obs = 0 IN
         IF first /\ q.s.pc # "run" THEN <<q, << <<"observed a step after the run should have ended", FALSE>> >> >>
         ELSE LET n == q.obs + 1
                  s2 == IF n = scn.nobs THEN Stepped(p, q.s, ev.err) ELSE q.s
              IN <<[q EXCEPT !.s = s2, !.obs = IF n = scn.nobs THEN 0 ELSE n, !.vals = ev.vals, !.err = ev.err],
                   << <<"observers in registration order, once per step", ev.no = n>>,
                      <<"index of the step", ev.time = RInt(q.s.i + 1)>>,
                      <<"all observers see the same values", first \/ (ev.vals = q.vals /\ ev.err = q.err)>> >> >>
    [] ev.e = "end" ->
         <<[q EXCEPT !.s = [pc |-> "over", i |-> 0, old |-> RZero]],
           << <<"every observer told", q.obs = 0>>,
              <<"run ended although no criterion was met", q.s.pc = "end" \/ (q.s.pc = "run" /\ ev.res = "failed" /\ scn.opt = "lm")>>,
              <<"result", q.s.pc = "end" => ev.res = q.s.res>>,
              <<"returns exactly the values of the last step", ev.res \in {"ok", "max"} => ev.vals = q.vals>> >> >>
    [] OTHER -> <<q, << <<"outcome:" \o ev.e, FALSE>> >> >>
\* ---- init and steps called directly with given indices
DirNext(scn, q, ev) ==
  CASE ev.e = "obs" -> LET n == q.obs + 1 IN
         <<[q EXCEPT !.obs = n, !.vals = ev.vals],
           << <<"observers in registration order", ev.no = n>>, <<"index of the step", q.r <= Len(scn.idx) /\ ev.time = RInt(scn.idx[q.r])>>, <<"same values", n = 1 \/ ev.vals = q.vals>> >> >>
    [] ev.e = "stepped" ->
         <<[q EXCEPT !.r = @ + 1, !.obs = 0],
           << <<"observers told exactly once per successful step", q.obs = (IF ev.res = "ok" THEN scn.nobs ELSE 0)>>,
              <<"observers saw the updated values", ev.res = "ok" => ev.vals = q.vals>> >> >>
    [] OTHER -> <<q, << <<"outcome:" \o ev.e, FALSE>> >> >>

VARIABLES c, l, q
Init == c \in 1..Len(Cases) /\ l = 0 /\ q = SInit
Done(scn, st, evs) == CASE scn.t = "optloop" -> st.r = Len(scn.runs) + 1 [] scn.t = "optobs" -> st.s.pc = "over" [] OTHER -> st.r = Len(scn.idx) + 1 \/ (Len(evs) > 0 /\ "res" \in DOMAIN evs[Len(evs)] /\ evs[Len(evs)].res = "failed")
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs)
     THEN LET o == IF scn.t = "optloop" THEN LoopNext(scn, q, evs[l + 1]) ELSE IF scn.t = "optobs" THEN ObsNext(scn, q, evs[l + 1]) ELSE DirNext(scn, q, evs[l + 1]) IN
          Report(Cases[c].id, l + 1, Broken(o[2])) /\ q' = o[1]
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Done(scn, q, evs)>> >>)) /\ q' = q
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, q>>
=============================================================================
