----------------------------- MODULE C23_Trace -----------------------------
EXTENDS Trace, Viewer

KindsOf(vars) == [i \in 1..Len(vars) |-> vars[i].kind]
\* conversions: for every variable each form, by reference then by value
RECURSIVE Plan(_, _)
Plan(vars, n) == IF n = 0 THEN <<>> ELSE Plan(vars, n - 1) \o
  LET f == FormsOf(vars[n].kind) IN [i \in 1..(2 * Len(f)) |-> [to |-> f[(i + 1) \div 2], v |-> n]]
OneClauses(scn, i, ev) ==
  LET plan == Plan(scn.vars, Len(scn.vars)) IN
  << <<"conversion shows the variable", ev.e = "one" /\ i <= Len(plan) /\ ev.to = plan[i].to /\ LET x == scn.vars[plan[i].v] IN OneShown(ev.is, ev.to, x.kind, x.raw)>> >>
AllClauses(scn, i, ev) ==
  << <<"gathering shows every variable in order", ev.e = "all" /\ i <= Len(GatheredAs(scn.kind)) /\ ev.to = GatheredAs(scn.kind)[i]
        /\ AllShown(ev.is, ev.to, scn.kind, [n \in 1..Len(scn.vars) |-> scn.vars[n].raw])>> >>

VARIABLES c, l, due        \* due: rows the observers have written and the log has not shown yet
Init == c \in 1..Len(Cases) /\ l = 0 /\ due = <<>>
Steps(evs, n) == {i \in 1..n : evs[i].e = "step"}
VarsAt(scn, n) == IF scn.t = "showsteps" THEN scn.steps[n].vars ELSE scn.vars
LogStep(scn, evs, id, ev) ==
  IF ev.e = "step" THEN
     LET n == Cardinality(Steps(evs, l + 1)) IN
     /\ Report(id, l + 1, Broken(<< <<"step", Cardinality(Steps(evs, l)) = l /\ (scn.t = "showrun" => ev.at = RInt(n)) /\ (scn.t = "showsteps" => n <= Len(scn.steps))>> >>))
     /\ due' = due \o StepRows(scn.obs, ev.at, KindsOf(VarsAt(scn, n)), ev.vals)
  ELSE IF ev.e = "row" THEN
     IF due = <<>> THEN Report(id, l + 1, {"a row nobody wrote"}) /\ due' = due
     ELSE LET w == Head(due) IN
          /\ due' = Tail(due)
          /\ Report(id, l + 1, Broken(<< <<"topic", ev.topic = w.topic>>,
                 <<"time of the step", Len(ev.ns) = 1 /\ RNear(ev.ns[1], Nanos(w.at), RDec(1, -9), RAdd(ROne, Nanos(w.at)))>>,
                 <<"the row shows exactly the variables of its type", SomeShown(ev.is, w.to, w.kind, w.raws)>> >>))
  ELSE /\ due' = due
       /\ Report(id, l + 1, Broken(<< <<"outcome:" \o ev.e, ev.e = "end">>, <<"rows missing from the log", due = <<>> >>,
             <<"steps", scn.t = "showrun" \/ Cardinality(Steps(evs, l)) = Len(scn.steps)>> >>))
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev   id == Cases[c].id IN
  /\ l <= Len(evs)
  /\ IF l = Len(evs) THEN
        /\ Report(id, 0, Broken(<< <<"events missing", CASE scn.t = "shown" -> Len(evs) = Len(Plan(scn.vars, Len(scn.vars)))
              [] scn.t = "showall" -> Len(evs) = Len(GatheredAs(scn.kind)) [] OTHER -> Len(evs) > 0 /\ evs[Len(evs)].e = "end">> >>))
        /\ due' = due
     ELSE IF scn.t = "shown" THEN Report(id, l + 1, Broken(OneClauses(scn, l + 1, evs[l + 1]))) /\ due' = due
     ELSE IF scn.t = "showall" THEN Report(id, l + 1, Broken(AllClauses(scn, l + 1, evs[l + 1]))) /\ due' = due
     ELSE LogStep(scn, evs, id, evs[l + 1])
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, due>>
=============================================================================
