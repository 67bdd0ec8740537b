----------------------------- MODULE C04_Trace -----------------------------
(* Every answer is judged by the current system alone: A x = b, or the normal equations A'(A x - b) = 0,         *)
(* componentwise relative to the sizes of the terms that cancel; the three solvers agree.                        *)
EXTENDS Trace, Lin

Dense(q) ==
  LET row(i) == SelectSeq(q.tr, LAMBDA t : t[1] = i)
      RECURSIVE put(_, _, _)
      put(v, ts, x) == IF x > Len(ts) THEN v ELSE put([v EXCEPT ![ts[x][2]] = ts[x][3]], ts, x + 1)
  IN [i \in 1..q.m |-> put(VZero(q.n), row(i), 1)]
MAbs(A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAbs(A[i][j])]]
Tol == RDec(1, -9)
Within(R, S) == \A i \in 1..Rows(R) : \A k \in 1..Cols(R) : RLe(RAbs(R[i][k]), RMul(Tol, S[i][k]))
Solves(q, A, X) ==
  /\ IsMat(X, q.n, Cols(q.b)) /\ MFinite(X)
  /\ LET R == MSub(MMul(A, X), q.b)   S == MAdd(MMul(MAbs(A), MAbs(X)), MAbs(q.b)) IN
     IF q.op = "sym" THEN Within(R, S)
     ELSE Within(MMul(MT(A), R), MMul(MT(MAbs(A)), S))
\* each solver over the history twice: matrices stored with and without counts per column
Names == <<"CholeskySolver", "QRSolver", "LUSolver", "CholeskySolver (packed)", "QRSolver (packed)", "LUSolver (packed)">>
Clauses(q, ev) ==
  IF ev.e # "solve" THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE IF q.op = "bad" THEN << >>
  ELSE LET A == Dense(q) IN
       [s \in 1..6 |-> <<Names[s] \o " " \o q.op, ev.ans[s].out = "ok" /\ Solves(q, A, ev.ans[s].x)>>]
       \o << <<"solvers agree", \A s \in 1..6 : ev.ans[s].out = "ok" =>
               (IsMat(ev.ans[s].x, q.n, Cols(q.b)) /\ MFinite(ev.ans[s].x) /\ LET a == MMul(A, ev.ans[s].x)   z == MMul(A, ev.ans[1].x) IN MNear(a, z, RDec(1, -7), MMaxAbs(q.b)))>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(IF l + 1 > Len(scn.sys) THEN << <<"outcome:" \o evs[l + 1].e, FALSE>> >> ELSE Clauses(scn.sys[l + 1], evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Len(scn.sys)>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
