----------------------------- MODULE C20_Trace -----------------------------
EXTENDS Trace, Lie, SequencesExt

LeftConv == IOEnv.LEFT = "1"
Fake == IOEnv.FAKE = "1"
Dims(scn) == [i \in 1..Len(scn.vars) |-> TanDim(scn.vars[i].kind)]
SumI(f, n) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(f, 1, n))
\* at[i] = <<start, dim>> of variable i: right dimensions, disjoint, filling 0..tot
Partition(scn, at) ==
  LET d == Dims(scn)   n == Len(d)   tot == SumI(d, n) IN
  /\ Len(at) = n + 1 /\ at[n + 1] = <<>>                    \* the last is a key that is not there
  /\ \A i \in 1..n : Len(at[i]) = 2 /\ at[i][2] = d[i] /\ at[i][1] >= 0 /\ at[i][1] + at[i][2] <= tot
  \* the dimensions sum to tot, so blocks that together cover 0..tot-1 are disjoint
  /\ {at[x.i][1] + x.j : x \in {y \in [i : 1..n, j : 0..8] : y.j < d[y.i]}} = 0..(tot - 1)
SameSet(seq, n) == Len(seq) = n /\ {seq[i] : i \in 1..Len(seq)} = 1..n
OrderClauses(scn, ev) ==
  LET n == Len(scn.vars)   tot == SumI(Dims(scn), n) IN
  << <<"blocks partition the tangent space", Partition(scn, ev.at)>>,
     <<"order dim", ev.dim = tot>>, <<"order len", ev.len = n /\ ev.empty = (n = 0)>>,
     <<"order iter", SameSet(ev.iter, n) /\ ev.iterok>> >>
\* linear values: via = constructor
LinClauses(scn, at, ev) ==
  LET n == Len(scn.vars)   tot == SumI(Dims(scn), n)
      long == ev.via \in {"order_vec", "values_vec"}
      vec == IF long THEN scn.vec ELSE VZero(tot)
      slices(got, pos) == \A i \in 1..n : got[i] = SubSeq(vec, pos[i][1] + 1, pos[i][1] + pos[i][2])
  IN IF long /\ ev.off # 0 THEN << <<"wrong length rejected", ev.out = "panic">> >>
     ELSE IF ev.out # "ok" THEN << <<"unexpected panic", FALSE>> >>
     ELSE << <<"linear dim", ev.dim = tot>>, <<"linear len", ev.len = n /\ ev.empty = (n = 0)>>,
             <<"get returns the key's slice", Len(ev.get) = n + 1 /\ ev.get[n + 1] = <<>> /\ slices(ev.get, at)>>,
             <<"iter returns every slice once", SameSet(ev.iter, n) /\ ev.iterok>> >>

\* oplus with an increment: state ms = matrices of the variables
\* which slice of the increment is variable i's (0: none)
PosOf(st, n) == FoldLeft(LAMBDA acc, k : IF st.take[k] > n THEN acc ELSE [acc EXCEPT ![st.take[k]] = k], [i \in 1..n |-> 0], [k \in 1..Len(st.take) |-> k])
StepMats(scn, ms, st, pos) ==
  [i \in 1..Len(ms) |-> IF pos[i] = 0 THEN ms[i] ELSE OplusMat(scn.vars[i].kind, ms[i], st.d[pos[i]], Fake, LeftConv)]
\* a vector whose slice holds a number that is not finite: the sum, component by component
HasHole(st, pos, i) == pos[i] # 0 /\ ~VFinite(st.d[pos[i]])
SameReal(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ (RLe(a, b) /\ RLe(b, a)) \/ (RFinite(a) /\ RFinite(b) /\ RLe(RAbs(RSub(a, b)), RMul(RDec(1, -12), RAdd(ROne, RAbs(b)))))
HoledMove(before, after, d) == Len(after) = Len(d) /\ \A j \in 1..Len(d) : SameReal(after[j], RAdd(before[j], d[j]))
Refused(scn, st) == st.bad # 0 /\ st.bad <= Len(scn.vars)
StepClauses(scn, ms, st, ev) ==
  IF Refused(scn, st) THEN << <<"wrong dimension refused", ev.out = "panic">> >>
  ELSE IF ev.out # "ok" THEN << <<"unexpected panic", FALSE>> >>
  ELSE LET pos == PosOf(st, Len(scn.vars))   want == StepMats(scn, ms, st, pos) IN
    << <<"same keys", ev.len = Len(scn.vars)>>,
       <<"every variable moved by its own slice", \A i \in 1..Len(ms) : LET k == scn.vars[i].kind IN
          IF HasHole(st, pos, i) THEN HoledMove(ev.before[i], ev.vals[i], st.d[pos[i]]) ELSE
          Len(ev.vals[i]) = RawDim(k) /\ MClose(Mat(k, ev.vals[i]), want[i], RDec(1, -7))>>,
       <<"small moves are made", \A i \in 1..Len(ms) : pos[i] = 0 \/ HasHole(st, pos, i) \/
          LET k == scn.vars[i].kind   d == st.d[pos[i]]   M == Mat(k, ev.vals[i])
              by == IF LeftConv THEN MMul(M, GInv(k, ms[i])) ELSE MMul(GInv(k, ms[i]), M)
          IN Len(ev.vals[i]) = RawDim(k) /\ NearRel(k, by, ExpMat(k, d, Fake), RAdd(MMaxAbs(M), VMaxAbs(d)))>>,
       <<"variables without a slice unchanged", \A i \in 1..Len(ms) : pos[i] # 0 \/ ev.vals[i] = ev.before[i]>> >>

VARIABLES c, l, ms, at
Init == c \in 1..Len(Cases) /\ l = 0 /\ at = <<>> /\ ms = [i \in 1..Len(Cases[c].scn.vars) |-> Mat(Cases[c].scn.vars[i].kind, Cases[c].scn.vars[i].raw)]
Vias == <<"zero_order", "zero_values", "order_vec", "values_vec">>
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev   id == Cases[c].id   ev == evs[l + 1] IN
  /\ l <= Len(evs)
  /\ IF l = Len(evs) THEN Report(id, 0, Broken(<< <<"events missing", Len(evs) = 5 + Len(scn.steps)>> >>)) /\ UNCHANGED <<ms, at>>
     ELSE IF l = 0 /\ ev.e = "order" THEN Report(id, 1, Broken(OrderClauses(scn, ev))) /\ at' = ev.at /\ ms' = ms
     ELSE IF l \in 1..4 /\ ev.e = "linear" /\ ev.via = Vias[l] THEN Report(id, l + 1, Broken(LinClauses(scn, at, ev))) /\ UNCHANGED <<ms, at>>
     ELSE IF l >= 5 /\ ev.e = "oplus" THEN
          LET st == scn.steps[l - 4] IN
          /\ Report(id, l + 1, Broken(StepClauses(scn, ms, st, ev)))
          /\ at' = at
          \* continue from what was observed, so that rounding does not pile up
          /\ ms' = [i \in 1..Len(ms) |-> Mat(scn.vars[i].kind, ev.vals[i])]
     ELSE Report(id, l + 1, {"outcome:" \o ev.e}) /\ UNCHANGED <<ms, at>>
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, ms, at>>
=============================================================================
