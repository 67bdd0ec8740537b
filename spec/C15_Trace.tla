----------------------------- MODULE C15_Trace -----------------------------
(* Robust kernels against the published formulas, and the shape properties those formulas have.                *)
EXTENDS Trace, Cost, FiniteSets, SequencesExt

\* rounding: the kernels whose formula subtracts nearly equal numbers lose that much, the others nothing but a relative error
Cancels(kn) == kn.n \in {"Fair", "Cauchy", "Welsch", "Tukey"}
Small(kn) == IF Cancels(kn) THEN RMul(RDec(1, -14), RSq(Param(kn))) ELSE RDec(1, -290)
LossOk(kn, d2, v) == LET e == Loss(kn, d2) IN RFinite(v) /\ RLe(RAbs(RSub(v, e)), RAdd(Small(kn), RMul(RDec(1, -10), RAbs(e))))
WeightOk(kn, d2, v) ==
  LET e == Weight(kn, d2)   slack == IF kn.n = "Tukey" THEN RAdd(RDec(1, -28), RMul(RDec(1, -14), RSqrt(e))) ELSE RDec(1, -290)
  IN RFinite(v) /\ RLe(RAbs(RSub(v, e)), RAdd(slack, RMul(RDec(1, -10), RAbs(e))))

\* indices ordered by residual size
Sorted(d2) == SortSeq([i \in 1..Len(d2) |-> i], LAMBDA a, b : RLt(d2[a], d2[b]))
Monotone(d2, v, up, slack) ==
  LET o == Sorted(d2) IN
  LET most(x) == RAdd(RMul(x, RAdd(ROne, RDec(1, -12))), slack) IN
  \A i \in 1..(Len(o) - 1) : IF up THEN RLe(v[o[i]], most(v[o[i + 1]])) ELSE RLe(v[o[i + 1]], most(v[o[i]]))

Clauses(scn, ev) ==
  IF ev.e # "kernel" \/ Len(ev.loss) # Len(scn.d2) \/ Len(ev.weight) # Len(scn.d2) THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE LET kn == scn.kernel   d2 == scn.d2   I == 1..Len(d2)   c2 == RSq(Param(kn)) IN
  << <<"loss", \A i \in I : LossOk(kn, d2[i], ev.loss[i])>>,
     <<"weight", \A i \in I : WeightOk(kn, d2[i], ev.weight[i])>>,
     <<"loss zero at zero", \A i \in I : d2[i] = RZero => RLe(RAbs(ev.loss[i]), RDec(1, -15))>>,
     <<"loss never decreases", Monotone(d2, ev.loss, TRUE, Small(kn))>>,
     <<"weight never increases", kn.n = "L1" \/ Monotone(d2, ev.weight, FALSE, RDec(1, -13))>>,
     <<"weight in [0,1]", kn.n = "L1" \/ \A i \in I : RLe(RZero, ev.weight[i]) /\ RLe(ev.weight[i], RAdd(ROne, RDec(1, -13)))>>,
     <<"weight tends to 1", \A i \in I : d2[i] = RZero => RNear(ev.weight[i], ROne, RDec(1, -13), ROne)>>,
     <<"Tukey zero beyond threshold", kn.n # "Tukey" \/ \A i \in I : RGt(d2[i], RMul(c2, RAdd(ROne, RDec(1, -12)))) => ev.weight[i] = RZero /\ RNear(ev.loss[i], RDiv(c2, RInt(6)), RDec(1, -12), RAdd(ROne, c2))>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = 1>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
