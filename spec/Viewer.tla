------------------------------- MODULE Viewer -------------------------------
(* The visualizer as a machine.  Variables become objects: a vector a point, a rotation one arrow per axis     *)
(* (the columns of its matrix, red, green, blue), a pose the arrows of its rotation at its position, or a       *)
(* point there, or a transform.  An observer turns all variables of its type into one object per step and       *)
(* appends it to the log under its topic at the step's time; the log is the state.                              *)
EXTENDS Lie

\* numbers arrive in single precision
Single(a, x, scale) == RFinite(a) /\ RLe(RAbs(RSub(a, x)), RAdd(RMul(RDec(125, -9), scale), RDec(1, -40)))
SingleVec(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(w) : Single(v[i], w[i], RAbs(w[i]))
SingleUnit(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(w) : Single(v[i], w[i], ROne)

Planar == {"V2", "SO2", "SE2"}
PosOf(k, raw) == CASE k = "SE2" -> SubSeq(raw, 3, 4) [] k = "SE3" -> SubSeq(raw, 5, 7) [] OTHER -> raw
HasPos(k) == k \in {"V2", "V3", "SE2", "SE3"}
AxisOf(k, raw, j) == LET M == Mat(k, raw) IN [i \in 1..RotDim(k) |-> M[i][j]]
Colors == << <<255, 0, 0, 255>>, <<0, 255, 0, 255>>, <<0, 0, 255, 255>> >>
ArrowKinds == {"Arrows2D", "Arrows3D"}
PointKinds == {"Points2D", "Points3D", "Vec2D", "Vec3D"}

\* element number n of a gathered object shows this variable
ShowsPoint(is, n, k, raw) == SingleVec(is.p[n], PosOf(k, raw))
ShowsArrows(is, n, k, raw) ==
  LET d == RotDim(k) IN \A j \in 1..d : LET x == (d * (n - 1)) + j IN
    /\ SingleUnit(is.v[x], AxisOf(k, raw, j)) /\ is.c[x] = Colors[j]
    /\ HasPos(k) => SingleVec(is.o[x], PosOf(k, raw))
\* the object has room for m variables of kind k
Sized(is, to, k, m) ==
  IF to \in ArrowKinds THEN LET d == RotDim(k) IN Len(is.p) = 0 /\ Len(is.v) = d * m /\ Len(is.c) = d * m /\ Len(is.o) = (IF HasPos(k) THEN d * m ELSE 0)
  ELSE Len(is.p) = m /\ Len(is.v) = 0
Shows(is, to, n, k, raw) == IF to \in ArrowKinds THEN ShowsArrows(is, n, k, raw) ELSE ShowsPoint(is, n, k, raw)
\* q and -q are the same rotation
SameQuat(q, raw) == Len(q) = 4 /\ (SingleUnit(q, SubSeq(raw, 1, 4)) \/ SingleUnit(VNeg(q), SubSeq(raw, 1, 4)))

\* one variable
OneShown(is, to, k, raw) ==
  IF to = "Rotation3D" THEN SameQuat(is.q, raw)
  ELSE IF to = "Transform3D" THEN SameQuat(is.q, raw) /\ SingleVec(is.t, PosOf(k, raw)) /\ ~is.rest
  ELSE Sized(is, to, k, 1) /\ Shows(is, to, 1, k, raw)
\* many, in the order given
AllShown(is, to, k, raws) == Sized(is, to, k, Len(raws)) /\ \A n \in 1..Len(raws) : Shows(is, to, n, k, raws[n])
\* many, in any order (the values are a map); the generated variables differ from one another
SomeShown(is, to, k, raws) ==
  LET m == Len(raws) IN
  /\ Sized(is, to, k, m)
  /\ \A i \in 1..m : \E n \in 1..m : Shows(is, to, n, k, raws[i])
  /\ \A n \in 1..m : \E i \in 1..m : Shows(is, to, n, k, raws[i])

\* what a variable can be shown as, each by reference and by value
FormsOf(k) == CASE k = "V2" -> <<"Vec2D", "Points2D">> [] k = "V3" -> <<"Vec3D", "Points3D">> [] k = "SO2" -> <<"Arrows2D">>
                [] k = "SE2" -> <<"Arrows2D", "Points2D", "Vec2D">> [] k = "SO3" -> <<"Rotation3D", "Arrows3D">>
                [] k = "SE3" -> <<"Transform3D", "Arrows3D", "Vec3D", "Points3D">>
GatheredAs(k) == CASE k = "V2" -> <<"Points2D">> [] k = "V3" -> <<"Points3D">> [] k = "SE2" -> <<"Arrows2D", "Points2D">> [] k = "SE3" -> <<"Arrows3D", "Points3D">>

\* ---- the log: a step makes every observer write one row
Row(o, at, kinds, raws) ==
  LET mine == SelectSeq([i \in 1..Len(kinds) |-> i], LAMBDA i : kinds[i] = o.kind)
  IN [topic |-> o.topic, to |-> o.to, kind |-> o.kind, at |-> at, raws |-> [i \in 1..Len(mine) |-> raws[mine[i]]]]
StepRows(obs, at, kinds, raws) == [i \in 1..Len(obs) |-> Row(obs[i], at, kinds, raws)]
Nanos(at) == RMul(at, RDec(1, 9))
=============================================================================
