----------------------------- MODULE C08_Trace -----------------------------
(* Group laws and matrix form.  The model keeps one matrix per register, computed with matrix algebra only;    *)
(* every element the implementation produces must be that group element, and everything that can be observed   *)
(* of it (matrix, action on points, components) must be that of its stored components.                         *)
EXTENDS Trace, Lie

Tol == RDec(1, -9)

Expected(k, op, regs) ==
  CASE op[1] = "new"      -> Mat(k, op[2])
    [] op[1] = "identity" -> GId(k)
    [] op[1] \in {"compose", "mul", "mulref"} -> MMul(regs[op[2]], regs[op[3]])
    [] op[1] = "inverse"  -> GInv(k, regs[op[2]])
    [] op[1] \in {"sub", "subref", "unbias"} -> MMul(regs[op[2]], GInv(k, regs[op[3]]))
    [] op[1] \in {"from", "into"} -> Mat(k, op[2])
    [] op[1] \in {"zeros", "zeros2"} -> GId(k)
    [] op[1] = "clone"    -> regs[op[2]]
    [] op[1] = "frommat"  -> op[2]

\* magnitude of what has been computed so far
RECURSIVE Biggest(_, _)
Biggest(regs, n) == IF n = 0 THEN RZero ELSE RMax(Biggest(regs, n - 1), MMaxAbs(regs[n]))
ScaleOf(scn, regs) == Biggest(regs, Len(regs))
\* components reported by the accessors
AccOk(k, raw, acc) ==
  LET angle(a) == /\ RLe(RAbs(a), RAdd(RPi, RDec(1, -12)))
                  /\ RNear(RCos(a), raw[1], Tol, ROne) /\ RLe(RAbs(RSub(RSin(a), raw[2])), RAdd(RMul(Tol, RAbs(raw[2])), RDec(1, -13)))
  IN CASE k = "SO2" -> Len(acc) = 1 /\ angle(acc[1])
       [] k = "SE2" -> Len(acc) = 5 /\ angle(acc[1]) /\ <<acc[2], acc[3]>> = <<raw[3], raw[4]>> /\ <<acc[4], acc[5]>> = <<raw[3], raw[4]>>
       [] OTHER     -> acc = raw

Clauses(scn, regs, i, ev) ==
  IF ev.e # "op" THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE LET k == scn.kind   op == scn.ops[i]   M == Mat(k, ev.raw)   X == Expected(k, op, regs) IN
  << <<"dimension", ev.dim = TanDim(k)>>,
     <<"well-formed", WellFormed(k, M, Tol)>>,
     <<op[1], MClose(M, X, Tol)>>,
     <<op[1] \o " (small)", NearRel(k, M, X, RMul(RInt(i), ScaleOf(scn, regs)))>>,
     <<"accessors", AccOk(k, ev.raw, ev.acc)>> >>
  \o (IF k \in LieKinds THEN
        << <<"to_matrix", MClose(ev.mat, M, Tol)>>,
           <<"apply", \A j \in 1..Len(scn.pts) : VClose(ev.pts[j], Act(k, M, scn.pts[j]), Tol)>> >>
      ELSE <<>>)

VARIABLES c, l, s
Init == c \in 1..Len(Cases) /\ l = 0 /\ s = <<>>
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  \/ /\ l < Len(evs)
     /\ LET ev == evs[l + 1]   bad == Broken(Clauses(scn, s, l + 1, ev)) IN
        /\ Report(Cases[c].id, l + 1, bad)
        /\ s' = IF ev.e = "op" THEN Append(s, Expected(scn.kind, scn.ops[l + 1], s)) ELSE s
     /\ l' = l + 1 /\ c' = c
  \/ /\ l = Len(evs)
     /\ Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(scn.ops)>> >>))
     /\ l' = l + 1 /\ UNCHANGED <<c, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
