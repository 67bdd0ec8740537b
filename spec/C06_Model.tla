----------------------------- MODULE C06_Model -----------------------------
(* All states of two small Values and all operations on them.  Every transition of the state graph is printed  *)
(* as the shortest history found to its source state followed by the operation.                                 *)
EXTENDS ValuesMap, Json

Ks == {"x1", "l1"}
Ts == {"V2", "SO2"}
Vs == {1, 2}

VARIABLES m, hist, n, last
vars == <<m, hist, n, last>>
Init == m = [h \in {1, 2} |-> Empty(Ks)] /\ hist = <<>> /\ n = 0 /\ last = [o |-> "none", h |-> 1]
Emit(h2) == PrintT(<<"SCN", ToJson([t |-> "values", ops |-> h2])>>)
Next == \E op \in AllOps({1, 2}, Ks, Ts, Vs) : \E out \in Outcomes(m, op) :
          /\ m' = out[1] /\ hist' = Append(hist, op) /\ n' = n + 1 /\ last' = op
          /\ Emit(hist')
View == m
\* the promises of a map, checked on every step of the model: only the addressed slots change
Frame == [][\A h \in {1, 2} : \A k \in Ks :
              (m'[h][k] # m[h][k]) => (IF last'.o = "clone" THEN h = Other(last'.h) ELSE h = last'.h /\ k \in Touches(last', Ks))]_vars
ReadYourWrites == [][(last'.o = "ins") => m'[last'.h][last'.k] = <<last'.t, last'.v>>]_vars
CloneEqual == [][(last'.o = "clone") => m'[1] = m'[2]]_vars
TypeOK == \A h \in {1, 2} : \A k \in Ks : m[h][k] = <<>> \/ m[h][k] \in Ts \X Vs
Spec == Init /\ [][Next]_vars
=============================================================================
