----------------------------- MODULE C12_Trace -----------------------------
(* A factor is the composition of its parts: error = rho(|W r|^2), A = s W J, b = -s W r, s = sqrt(weight),    *)
(* split by key.  The parts (residual and Jacobian, whitening, loss and weight) are recorded from the same     *)
(* objects used on their own; where the builder was given no noise or no kernel, they are unit and quadratic.  *)
EXTENDS Trace, Lie, Cost

Tol == RDec(1, -9)
Dims(scn) == [i \in 1..Len(scn.f.keys) |-> LET v == CHOOSE j \in 1..Len(scn.vars) : scn.vars[j].key = scn.f.keys[i] IN TanDim(scn.vars[v].kind)]
RECURSIVE Before(_, _)
Before(ds, i) == IF i = 1 THEN 0 ELSE Before(ds, i - 1) + ds[i - 1]

PartsClauses(scn, p) ==
  LET n == Len(p.r) IN << <<"parts shape", p.dout = n /\ IsMat(p.jac, n, Before(Dims(scn), Len(Dims(scn)) + 1)) /\ IsMat(p.w, n, n)>> >>

FactorClauses(scn, p, ev) ==
  LET f == scn.f   n == Len(p.r)   ds == Dims(scn)   nk == Len(f.keys)   tot == Before(ds, nk + 1)
      W == IF f.noise.n \in {"none", "unit"} THEN MId(n) ELSE p.w
      wr == MVec(W, p.r)   d2 == VNorm2(wr)
      rho == IF f.kernel.n = "none" THEN RDiv(d2, RTwo) ELSE p.rho
      sw == IF f.kernel.n = "none" THEN ROne ELSE RSqrt(p.wt)
      WJ == MMul(W, p.jac)
      sa == RAdd(RDec(1, -12), RMul(sw, MMaxAbs(WJ)))
      sb == RAdd(RDec(1, -12), RMul(sw, VMaxAbs(wr)))
      dead == ~VFinite(p.r)      \* the error is what the kernel makes of it; matrices are not compared
  IN IF dead THEN
     << <<"error of a residual that is not a number", IF RFinite(rho) THEN RNear(ev.err, rho, Tol, RAdd(RDec(1, -12), RAbs(rho))) ELSE RIsNaN(rho) /\ RIsNaN(ev.err)>>,
        <<"dimension", ev.dout = n /\ Len(ev.b) = n>>,
        <<"keys in order", ev.keys = [i \in 1..nk |-> i] /\ ev.lkeys = [i \in 1..nk |-> i]>>,
        <<"one block of columns per key", Len(ev.blocks) = nk /\ IsMat(ev.a, n, tot) /\ \A i \in 1..nk : IsMat(ev.blocks[i], n, ds[i])>> >>
     ELSE IF ~RFinite(d2) THEN
     << <<"error of a residual beyond bounds", IF RFinite(rho) THEN RNear(ev.err, rho, Tol, RAdd(RDec(1, -12), RAbs(rho))) ELSE ev.err = rho \/ (RIsNaN(rho) /\ RIsNaN(ev.err))>>,
        <<"dimension", ev.dout = n /\ Len(ev.b) = n>>,
        <<"keys in order", ev.keys = [i \in 1..nk |-> i] /\ ev.lkeys = [i \in 1..nk |-> i]>>,
        <<"A = s W J", ~RFinite(sw) \/ MNear(ev.a, MScale(sw, WJ), Tol, sa)>>,
        <<"one block of columns per key", Len(ev.blocks) = nk /\ IsMat(ev.a, n, tot) /\ \A i \in 1..nk : IsMat(ev.blocks[i], n, ds[i])>> >>
     ELSE
     << <<"error", RNear(ev.err, rho, Tol, RAdd(RDec(1, -12), RAbs(rho)))>>,
        <<"dimension", ev.dout = n /\ Len(ev.b) = n>>,
        <<"keys in order", ev.keys = [i \in 1..nk |-> i] /\ ev.lkeys = [i \in 1..nk |-> i]>>,
        <<"A = s W J", MNear(ev.a, MScale(sw, WJ), Tol, sa)>>,
        <<"b = -s W r", VNear(ev.b, VScale(RNeg(sw), wr), Tol, sb)>>,
        <<"one block of columns per key", Len(ev.blocks) = nk /\ IsMat(ev.a, n, tot)
             /\ \A i \in 1..nk : ev.blocks[i] = MBlock(ev.a, 0, Before(ds, i), n, ds[i])>> >>

Kind(scn) == IF scn.t = "facform" THEN <<"parts", "factor", "factor">> ELSE <<"parts", "factor">>
Clauses(scn, evs, i) ==
  IF i > Len(Kind(scn)) \/ evs[i].e # Kind(scn)[i] THEN << <<"outcome:" \o evs[i].e, FALSE>> >>
  ELSE IF i = 1 THEN PartsClauses(scn, evs[1]) ELSE FactorClauses(scn, evs[1], evs[i])

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, evs, l + 1)))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(Kind(scn))>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
