------------------------------ MODULE OptLoop ------------------------------
(* The optimization loop.  The errors of the iterates are the environment's choice; the loop decides when to     *)
(* stop and what to return.  Comparisons are those of IEEE numbers: a comparison with NaN is false.              *)
(* A state of a run: [pc, i, old]: pc \in {"start", "run", "end"}, i steps taken, old the error after step i.    *)
EXTENDS RealNum

\* p = [max, tol, abs, rel]; max < 0: the largest number there is, beyond any run
Already(p, e0) == RLe(e0, p.tol)
Stops(p, old, new) ==
  LET dec == RSub(old, new) IN
  \/ RLe(new, p.tol)
  \/ RLe(dec, p.abs)
  \/ RLe(RDiv(dec, old), p.rel)

\* what the loop does next, given the error of the current iterate
Start == [pc |-> "start", i |-> 0, old |-> RZero]
Begun(p, e0) == IF Already(p, e0) THEN [pc |-> "end", i |-> 0, old |-> e0, res |-> "ok"]
                ELSE IF p.max = 0 THEN [pc |-> "end", i |-> 0, old |-> e0, res |-> "max"]
                ELSE [pc |-> "run", i |-> 0, old |-> e0]
Stepped(p, s, e) == IF Stops(p, s.old, e) THEN [pc |-> "end", i |-> s.i + 1, old |-> e, res |-> "ok"]
                    ELSE IF p.max >= 0 /\ s.i + 1 >= p.max THEN [pc |-> "end", i |-> s.i + 1, old |-> e, res |-> "max"]
                    ELSE [pc |-> "run", i |-> s.i + 1, old |-> e]
Failed(s, why) == [pc |-> "end", i |-> s.i, old |-> s.old, res |-> why]
=============================================================================
