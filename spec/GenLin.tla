------------------------------- MODULE GenLin -------------------------------
(* Generated sparse systems.  A pattern is a set of positions <<i, j>>; a symmetric system is made positive     *)
(* definite and a rectangular one full rank by dominance, so every system has one well-determined answer.       *)
EXTENDS Gen, FiniteSets, SequencesExt

Grid(m, n) == (1..m) \X (1..n)
\* values
SymEntry(st, i, j) == IF i < j THEN Sym(st, 100 * i + j) ELSE Sym(st, 100 * j + i)
\* symmetric system on pattern P (symmetric, with diagonal), scaled by D A D
SymSystem(n, P, st, d, cols) ==
  LET off(i, j) == RMul(RMul(d[i], d[j]), SymEntry(st, i, j))
      row(i) == {j \in 1..n : j # i /\ <<i, j>> \in P}
      RECURSIVE tot(_, _)
      tot(i, S) == IF S = {} THEN RZero ELSE LET j == CHOOSE x \in S : TRUE IN RAdd(RAbs(SymEntry(st, i, j)), tot(i, S \ {j}))
      diag(i) == RMul(RSq(d[i]), RAdd(RAdd(RDec(2, -1), U(st, 20000 + i)), tot(i, row(i))))
      ps == SetToSeq(P)
  IN [op |-> "sym", m |-> n, n |-> n, b |-> [i \in 1..n |-> [k \in 1..cols |-> RMul(d[i], RMul(RInt(3), Sym(st, 30000 + 10 * i + k)))]],
      tr |-> [x \in 1..Len(ps) |-> <<ps[x][1], ps[x][2], IF ps[x][1] = ps[x][2] THEN diag(ps[x][1]) ELSE off(ps[x][1], ps[x][2])>>]]
\* rectangular system on pattern P; piv[j] = row whose entry in column j dominates its row and column
LsqSystem(m, n, P, piv, st, d, cols) ==
  LET cnt(i) == Cardinality({j \in 1..n : <<i, j>> \in P})
      val(i, j) == RMul(d[j], IF piv[j] = i THEN RMul(IF Pick(st, 15000 + j, 2) = 0 THEN ROne ELSE RInt(-1), RAdd(RInt(n), U(st, 20000 + j))) ELSE Sym(st, 100 * i + j))
      ps == SetToSeq(P \cup {<<piv[j], j>> : j \in 1..n})
  IN [op |-> "lsq", m |-> m, n |-> n, b |-> [i \in 1..m |-> [k \in 1..cols |-> RMul(RInt(3), Sym(st, 30000 + 10 * i + k))]],
      tr |-> [x \in 1..Len(ps) |-> <<ps[x][1], ps[x][2], val(ps[x][1], ps[x][2])>>]]
Ones(n) == [i \in 1..n |-> ROne]
Mirror(P) == P \cup {<<p[2], p[1]>> : p \in P}
Diagonal(n) == {<<i, i>> : i \in 1..n}
=============================================================================
