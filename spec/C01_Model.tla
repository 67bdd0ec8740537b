----------------------------- MODULE C01_Model -----------------------------
(* Every behaviour of the loop over a small set of errors (exact binary fractions, so that every threshold is    *)
(* met with equality too), limits, tolerances and step failures; each complete behaviour is replayed.             *)
EXTENDS OptLoop, TLC, Json

NaN == RDiv(RZero, RZero)
Inf == RDiv(ROne, RZero)
Errs == {RZero, RDec(25, -2), RDec(5, -1), RDec(75, -2), ROne, RTwo, NaN, Inf}
Neg == RInt(-1)
Tols == { <<RZero, RZero, RZero>>, <<RDec(25, -2), RZero, RZero>>, <<RZero, RDec(25, -2), RZero>>, <<RZero, RZero, RDec(25, -2)>>,
          <<RDec(5, -1), RDec(25, -2), RDec(5, -1)>>, <<Neg, Neg, Neg>>, <<Neg, RZero, Neg>>, <<Neg, Neg, RZero>>, <<ROne, ROne, ROne>> }
Max == {0, 1, 2, 3}
Whys == {"invalid", "failed", "maxother"}

VARIABLES p, s, errs, fail
vars == <<p, s, errs, fail>>
Init == /\ \E t \in Tols : \E m \in Max : p = [max |-> m, tol |-> t[1], abs |-> t[2], rel |-> t[3]]
        /\ s = Start /\ errs = <<>> /\ fail = [at |-> 0, why |-> "none"]
Emit == IF s'.pc = "end"
        THEN PrintT(<<"SCN", ToJson([t |-> "optloop", runs |-> <<[p |-> p, err |-> errs', fail |-> fail']>>])>>) ELSE TRUE
Begin == s.pc = "start" /\ \E e \in Errs : s' = Begun(p, e) /\ errs' = <<e>> /\ UNCHANGED <<p, fail>> /\ Emit
Step == s.pc = "run" /\ \E e \in Errs : s' = Stepped(p, s, e) /\ errs' = Append(errs, e) /\ UNCHANGED <<p, fail>> /\ Emit
Fail == s.pc = "run" /\ \E w \in Whys : s' = Failed(s, w) /\ fail' = [at |-> s.i + 1, why |-> w] /\ UNCHANGED <<p, errs>> /\ Emit
Next == Begin \/ Step \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the promises, on the model
Bounded == s.i <= p.max /\ Len(errs) <= p.max + 1
Results == s.pc = "end" => s.res \in {"ok", "max"} \cup Whys
OkMeansCriterion == (s.pc = "end" /\ s.res = "ok") =>
   IF s.i = 0 THEN RLe(errs[1], p.tol) ELSE Stops(p, errs[s.i], errs[s.i + 1])
MaxMeansAll == (s.pc = "end" /\ s.res = "max") => s.i = p.max /\ ~RLe(errs[1], p.tol) /\ \A k \in 1..s.i : ~Stops(p, errs[k], errs[k + 1])
NoEarlyStop == s.pc = "run" => \A k \in 1..s.i : ~Stops(p, errs[k], errs[k + 1])
Terminates == <>(s.pc = "end")
=============================================================================
