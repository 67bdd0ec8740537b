----------------------------- MODULE C04_Model -----------------------------
(* Histories of one solver instance.  A solver may keep the analysis of a sparsity pattern between calls; what  *)
(* it may not do is use it for another pattern.  All histories of Depth systems over a catalogue of patterns    *)
(* (same and different shapes, same number of entries, same number per column, subsets) are replayed.            *)
EXTENDS GenLin

Catalogue == <<
  [op |-> "sym", m |-> 3, n |-> 3, p |-> Diagonal(3)],
  [op |-> "sym", m |-> 3, n |-> 3, p |-> Mirror(Diagonal(3) \cup {<<2, 1>>, <<3, 2>>})],
  [op |-> "sym", m |-> 3, n |-> 3, p |-> Mirror(Diagonal(3) \cup {<<3, 1>>, <<3, 2>>})],
  [op |-> "sym", m |-> 4, n |-> 4, p |-> Mirror(Diagonal(4) \cup {<<2, 1>>, <<3, 1>>, <<4, 1>>})],
  [op |-> "sym", m |-> 4, n |-> 4, p |-> Mirror(Diagonal(4) \cup {<<4, 1>>, <<4, 2>>, <<4, 3>>})],
  [op |-> "sym", m |-> 1, n |-> 1, p |-> Diagonal(1)],
  [op |-> "lsq", m |-> 4, n |-> 3, p |-> {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 1>>}],
  [op |-> "lsq", m |-> 4, n |-> 3, p |-> {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 3>>}],
  [op |-> "lsq", m |-> 4, n |-> 3, p |-> {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<3, 1>>}],
  [op |-> "lsq", m |-> 4, n |-> 3, p |-> Grid(4, 3)],
  [op |-> "lsq", m |-> 3, n |-> 3, p |-> {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 3>>}],
  [op |-> "lsq", m |-> 5, n |-> 2, p |-> {<<1, 1>>, <<2, 2>>, <<4, 1>>, <<4, 2>>}] >>
Depth == Pick2(3, 4)
System(x, st) == LET q == Catalogue[x] IN
  IF q.op = "sym" THEN SymSystem(q.n, q.p, st, Ones(q.n), 1) ELSE LsqSystem(q.m, q.n, q.p, [j \in 1..q.n |-> j], st, Ones(q.n), 1)

\* the specification of an instance: hist = systems solved, analysed = the pattern its analysis is of
Pattern(x) == <<Catalogue[x].op, Catalogue[x].m, Catalogue[x].n, Catalogue[x].p>>
VARIABLES hist, analysed
vars == <<hist, analysed>>
Init == hist = <<>> /\ analysed = <<>>
Emit(h) == IF Len(h) < Depth THEN TRUE ELSE PrintT(<<"SCN", ToJson([t |-> "solver", sys |-> [i \in 1..Len(h) |-> System(h[i], 100 * h[1] + 10 * h[Len(h)] + 1000 * i + h[i])]])>>)
Solve(x) ==
  /\ hist' = Append(hist, x)
  /\ analysed' = (IF analysed = Pattern(x) THEN analysed ELSE Pattern(x))
  /\ Emit(hist')
Next == Len(hist) < Depth /\ \E x \in 1..Len(Catalogue) : Solve(x)
\* the answer is a function of the current system: the analysis in use is that of the system being solved
Fresh == hist = <<>> \/ analysed = Pattern(hist[Len(hist)])
Spec == Init /\ [][Next]_vars
=============================================================================
