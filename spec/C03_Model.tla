----------------------------- MODULE C03_Model -----------------------------
(* Levenberg-Marquardt as a state machine: steps made of attempts, each accepted or rejected by the environment   *)
(* (whether it decreases the linearized cost).  All behaviours of up to MaxSteps steps are replayed with a linear   *)
(* solver that returns answers which do or do not decrease that cost.                                              *)
EXTENDS Leven, TLC, IOUtils, Json

MaxSteps == 3
MaxTries == IF IOEnv.VERIF_TIER = "thorough" THEN 7 ELSE 6
Params == { [min |-> mn, max |-> mx, fac |-> f, diag |-> d] :
              mn \in {RZero, RDec(4, -5), RDec(1, -2)}, mx \in {RMul(LamInit, RInt(8)), RDec(3, -4), LamInit, RDec(1, -7)}, f \in {RTwo, RInt(10)}, d \in {TRUE, FALSE} }
VARIABLES p, lam, step, tries, st, modes, lams
vars == <<p, lam, step, tries, st, modes, lams>>
Init == p \in Params /\ lam = LamInit /\ step = 1 /\ tries = 0 /\ st = "try" /\ modes = <<>> /\ lams = <<>>
Emit == IF st' = "try" THEN TRUE
        ELSE PrintT(<<"SCN", ToJson([modes |-> modes', steps |-> (IF st' = "failed" THEN step ELSE MaxSteps), leven |-> p])>>)
Accept == /\ st = "try" /\ tries < MaxTries
          /\ \E a \in {"true", "tiny"} : modes' = Append(modes, a)
          /\ lams' = Append(lams, lam) /\ lam' = AfterAccept(p, lam) /\ step' = step + 1 /\ tries' = tries + 1
          /\ st' = (IF step = MaxSteps THEN "done" ELSE "try") /\ p' = p /\ Emit
Reject == /\ st = "try" /\ tries < MaxTries
          /\ \E a \in {"zero", "neg", "nan"} : modes' = Append(modes, a)
          /\ lams' = Append(lams, lam) /\ lam' = AfterReject(p, lam) /\ step' = step /\ tries' = tries + 1
          /\ st' = (IF Beyond(p, lam') THEN "failed" ELSE "try") /\ p' = p /\ Emit
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
\* promises
RetryBelowMax == \A i \in 1..Len(lams) : (i > 1 /\ modes[i - 1] \in {"zero", "neg", "nan"}) => RLe(lams[i], p.max)
AboveMin == \A i \in 2..Len(lams) : modes[i - 1] \in {"true", "tiny"} => RLe(p.min, lams[i])
Grows == \A i \in 2..Len(lams) : modes[i - 1] \in {"zero", "neg", "nan"} => RLt(lams[i - 1], lams[i])
=============================================================================
