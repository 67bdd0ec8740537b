----------------------------- MODULE C05_Model -----------------------------
(* Histories of optimizer instances.  An instance keeps three things from one run to the next: the damping, the    *)
(* column order (with the sparsity pattern that goes with it) and the linear solver's symbolic factorization.  All  *)
(* of them are set up anew by init, so whatever a run leaves behind, the next one starts as a new instance would.   *)
(* All histories up to MaxRuns are replayed: a run may end well, at its iteration limit, in FailedToStep            *)
(* ("exhaust": no tolerance ever satisfied) or by a panic (a variable missing from the values).                     *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

MaxRuns == 3
Inst == 1..2
Orders == {"fwd", "rev", "short", "more"}
VARIABLES left, hist, began
vars == <<left, hist, began>>
New == [lam |-> "init", pat |-> "none"]
Init == left = [i \in Inst |-> New] /\ hist = <<>> /\ began = <<>>
Leaves(lim, ord) == IF ord = "short" THEN {"init"} ELSE CASE lim = "full" -> {"low", "init"} [] lim = "one" -> {"low", "high"} [] lim = "exhaust" -> {"high"}
Run(i, st, lim, ord) ==
  /\ Len(hist) < MaxRuns
  /\ (Len(hist) = MaxRuns - 1 => (lim = "full" /\ ord # "short"))
  /\ (Len(hist) = 0 => i = 1)
  /\ hist' = Append(hist, [inst |-> i, start |-> st, lim |-> lim, ord |-> ord])
  /\ began' = Append(began, [old |-> left[i], now |-> [lam |-> "init", pat |-> ord]])                 \* init()
  /\ \E lam \in Leaves(lim, ord) : left' = [left EXCEPT ![i] = [lam |-> lam, pat |-> ord]]
  /\ (Len(hist') = MaxRuns => PrintT(<<"SCN", ToJson(hist')>>))
Next == \E i \in Inst, st \in 1..2, lim \in {"full", "one", "exhaust"}, ord \in Orders : Run(i, st, lim, ord)
Spec == Init /\ [][Next]_vars
\* what a run starts from does not depend on what came before
NoMemory == \A a, b \in 1..Len(hist) : hist[a].ord = hist[b].ord => began[a].now = began[b].now   \* "more": the map holds variables no factor mentions
=============================================================================
