----------------------------- MODULE C14_Trace -----------------------------
(* W'W is the information described, and every operation of the noise model multiplies by that one W.          *)
EXTENDS Trace, Cost

Tol == RDec(1, -7)
\* for a covariance: W Sigma W' = I (no inverse needed)
CovOk(W, S) == MNear(MMul(MMul(W, S), MT(W)), MId(Rows(S)), Tol, ROne)
\* every component on the scale of what it sums
SumAbs(w, v) == RAdd(RDec(1, -290), RSum([j \in 1..Len(v) |-> RAbs(RMul(w[j], v[j]))]))
VecOk(W, v, out) == Len(out) = Len(v) /\ \A i \in 1..Len(v) : RNear(out[i], VDot(W[i], v), RDec(1, -12), SumAbs(W[i], v))
MatOk(W, M, out) == IsMat(out, Rows(M), Cols(M)) /\ \A j \in 1..Cols(M) : VecOk(W, MCol(M, j), MCol(out, j))
Clauses(scn, ev) ==
  IF ev.e # "noise" THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE LET n == scn.n   W == ev.w   unit == scn.noise.n \in {"unit", "identity"} IN
  << <<"dimension", ev.dim = n /\ IsMat(W, n, n) /\ MFinite(W)>>,
     <<"information", IF scn.noise.n = "matrix_cov" THEN CovOk(W, scn.noise.m) ELSE IsRoot(W, Info(n, scn.noise), Tol)>>,
     <<"unit noise leaves inputs alone", unit => ev.vecs = scn.vecs /\ ev.mats = scn.mats>>,
     <<"whiten_vec", Len(ev.vecs) = Len(scn.vecs) /\ \A i \in 1..Len(scn.vecs) : VecOk(W, scn.vecs[i], ev.vecs[i])>>,
     <<"whiten_mat", Len(ev.mats) = Len(scn.mats) /\ \A i \in 1..Len(scn.mats) : MatOk(W, scn.mats[i], ev.mats[i])>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = 1>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
