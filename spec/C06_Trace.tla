----------------------------- MODULE C06_Trace -----------------------------
(* Every recorded operation must be a step of ValuesMap: its result and the contents afterwards, as seen by     *)
(* len, is_empty, iter and get of every key at every type, belong to one of the allowed outcomes.               *)
EXTENDS Trace, ValuesMap

UsualKeys == {"x1", "x2", "l1", "a7", "x0", "l0", "a0", "x3", "l9", "a3", "x40", "l2"}
AsSet(sq) == {sq[i] : i \in 1..Len(sq)}
KeysOf(scn) == IF "keys" \in DOMAIN scn THEN AsSet(scn.keys) ELSE UsualKeys
\* contents as seen through iter
SeenMap(sn, ks) == [k \in ks |-> LET e == {i \in 1..Len(sn.iter) : sn.iter[i][1] = k} IN
                  IF e = {} THEN <<>> ELSE LET i == CHOOSE x \in e : TRUE IN <<sn.iter[i][2], sn.iter[i][3]>>]
\* the views agree with each other and with a map
Consistent(sn, mp) ==
  << <<"iter lists every entry once", Len(sn.iter) = Size(mp) /\ AsSet(sn.iter) = Entries(mp)>>,
     <<"len and is_empty count the entries", sn.len = Size(mp) /\ sn.empty = (Size(mp) = 0)>>,
     <<"get finds exactly the stored variable", AsSet(sn.get) = Entries(mp)>> >>
Result(op, ev) == IF op.o \in {"into", "filter"} THEN AsSet(ev.r) ELSE ev.r
Counted(op, ev) == op.o # "into" \/ Len(ev.r) = Cardinality(AsSet(ev.r))

VARIABLES c, l, m
Init == c \in 1..Len(Cases) /\ l = 0 /\ m = [h \in {1, 2} |-> Empty(KeysOf(Cases[c].scn))]
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev   id == Cases[c].id IN
  /\ l <= Len(evs)
  /\ IF l = Len(evs) THEN Report(id, 0, Broken(<< <<"events missing", Len(evs) = Len(scn.ops)>> >>)) /\ m' = m
     ELSE LET ev == evs[l + 1]   op == scn.ops[l + 1] IN
          IF ev.e # "op" THEN Report(id, l + 1, {"outcome:" \o ev.e}) /\ m' = m
          ELSE LET seen == [h \in {1, 2} |-> SeenMap(ev.snap[h], DOMAIN m[h])]
                   outs == Outcomes(m, op)
                   nexts == {o[1] : o \in outs}
                   mine == IF seen \in nexts THEN seen ELSE (CHOOSE o \in outs : TRUE)[1]
               IN /\ Report(id, l + 1, Broken(<< <<"contents after " \o op.o, seen \in nexts>>,
                                                 <<"result of " \o op.o, \E o \in outs : o[1] = mine /\ o[2] = Result(op, ev) /\ Counted(op, ev)>> >>
                                              \o Consistent(ev.snap[1], mine[1]) \o Consistent(ev.snap[2], mine[2])))
                  /\ m' = mine
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, m>>
=============================================================================
