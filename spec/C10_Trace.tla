----------------------------- MODULE C10_Trace -----------------------------
(* The Lie-algebra helpers against their defining equations.                                                   *)
EXTENDS Trace, Lie

Tol == RDec(1, -9)

\* X hat(e_j) X^-1 = hat(Ad e_j) for every basis vector, which by linearity is the equation for every tangent
AdjointOk(k, X, Ad) ==
  LET n == TanDim(k) IN
  /\ IsMat(Ad, n, n) /\ MFinite(Ad)
  /\ \A j \in 1..n : MClose(MMul(MMul(X, Hat(k, VUnit(n, j))), GInv(k, X)), Hat(k, MCol(Ad, j)), Tol)
\* hat_swap(p) e_j is the velocity hat(e_j) p of the point p
HatSwapOk(k, p, S) ==
  LET n == TanDim(k)  d == PtDim(k)
      ph == IF MatDim(k) = d THEN p ELSE Append(p, ROne) IN
  /\ IsMat(S, d, n)
  /\ \A j \in 1..n : VClose(MCol(S, j), SubSeq(MVec(Hat(k, VUnit(n, j)), ph), 1, d), Tol)

Clauses(scn, i, ev) ==
  LET k == scn.kind   op == scn.ops[i] IN
  IF ev.e \notin {"m", "v"} THEN << <<op[1] \o ":" \o ev.e, FALSE>> >>
  ELSE << <<op[1],
       CASE op[1] = "hat"      -> MClose(ev.m, Hat(k, op[2]), Tol)
         [] op[1] = "vee"      -> Hat(k, ev.v) = op[2]
         [] op[1] = "veehat"   -> VClose(ev.v, op[2], Tol)
         [] op[1] = "adjoint"  -> AdjointOk(k, Mat(k, op[2]), ev.m)
         [] op[1] = "hat_swap" -> HatSwapOk(k, op[2], ev.m)
         [] op[1] = "dexp"     -> MNear(ev.m, RightJac("SO3", op[2]), RDec(1, -9), ROne)>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, l + 1, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(scn.ops)>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
