----------------------------- MODULE C07_Trace -----------------------------
(* A key stands for exactly one (character, index): keys are equal iff the symbols are, and a key read back     *)
(* shows the symbol it was made from.  Round trips imply injectivity, so the sweep covers every character.      *)
EXTENDS Trace

Code(d) == [i \in 1..Len(d) |-> 48 + d[i]]
Text(ch, d) == <<40, ch, 44, 32>> \o Code(d) \o <<41>>                     \* "(c, 12)"
Same(a, b) == a.ch = b.ch /\ a.idx = b.idx
\* surrogates are not characters; the harness skips them
IsChar(x) == x <= 55295 \/ (x >= 57344 /\ x <= 1114111)
SeqOfChars(from, n) == SelectSeq([i \in 1..n |-> from + i - 1], IsChar)

SymClauses(scn, ev) ==
  LET ss == scn.syms   n == Len(ss) IN
  << <<"every symbol gave a key", Len(ev.keys) = n /\ Len(ev.again) = n /\ Len(ev.back) = n>>,
     <<"keys equal iff the symbols are", \A i, j \in 1..n : (ev.keys[i] = ev.keys[j]) <=> Same(ss[i], ss[j])>>,
     <<"the same symbol gives the same key again", ev.again = ev.keys>>,
     <<"a key converts back to its symbol", \A i \in 1..n : ev.back[i] = Text(ss[i].ch, ss[i].idx)>>,
     <<"the symbol shows its letter and index", \A i \in 1..n : ev.shown[i] = Text(ss[i].ch, ss[i].idx)>>,
     <<"a converted key gives the key again", ev.round = ev.keys>> >>
Clauses(scn, ev) ==
  CASE scn.t = "keys" /\ ev.e = "keys" -> SymClauses(scn, ev)
    [] scn.t = "keytypes" /\ ev.e = "keys" -> SymClauses(scn, ev)
    [] scn.t = "keyshow" /\ ev.e = "show" ->
         LET ss == scn.syms IN
         << <<"Display of Values names every key once", \A i \in 1..Len(ss) : ev.plain[i] = 1>>,
            <<"alternate Display of Values names every key once", \A i \in 1..Len(ss) : ev.pretty[i] = 1>>,
            <<"Debug of Values names every key once", \A i \in 1..Len(ss) : ev.debug[i] = 1>> >>
    [] scn.t = "keysweep" /\ ev.e = "sweep" ->
         << <<"every character converts back", ev.chars = SeqOfChars(scn.from, scn.n)>>, <<"its index too", ev.idx = <<Code(scn.idx)>> \/ SeqOfChars(scn.from, scn.n) = <<>> >> >>
    [] OTHER -> << <<"outcome:" \o ev.e, FALSE>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = 1>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
