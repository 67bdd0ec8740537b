------------------------------ MODULE C04_Gen ------------------------------
(* Longer histories of larger systems: fresh random patterns, the previous pattern with new numbers, with one   *)
(* entry moved, added or taken away, with columns scaled over four decades, systems that have no answer between. *)
EXTENDS GenLin

Density(st, k) == OneOf(st, k, <<5, 15, 30, 60, 100>>)
RandSym(n, st, k) == Mirror(Diagonal(n) \cup {p \in Grid(n, n) : p[1] > p[2] /\ Pick(st, k + 60 * p[1] + p[2], 100) < Density(st, k)})
RandLsq(m, n, st, k) == {p \in Grid(m, n) : Pick(st, k + 60 * p[1] + p[2], 100) < Density(st, k)}
\* one entry moved (a), added (b) or taken away (c)
Off(P) == SetToSeq({p \in P : p[1] # p[2]})
MoveSym(P, n, st, k) ==
  LET o == SetToSeq({p \in P : p[1] > p[2]})   f == SetToSeq({p \in Grid(n, n) : p[1] > p[2] /\ p \notin P})   w == Pick(st, k, 3)
      gone == IF w # 1 /\ o # <<>> THEN {OneOf(st, k + 1, o)} ELSE {}
      new == IF w # 2 /\ f # <<>> THEN {OneOf(st, k + 2, f)} ELSE {}
  IN (P \ Mirror(gone)) \cup Mirror(new)
MoveLsq(P, m, n, st, k) ==
  LET o == SetToSeq(P)   w == Pick(st, k, 4)
      p == OneOf(st, k + 1, o)
      \* within the column, so that the column counts stay
      free == SetToSeq({i \in 1..m : <<i, p[2]>> \notin P})
      f == SetToSeq(Grid(m, n) \ P)
  IN IF P = {} THEN {<<1, 1>>}
     ELSE CASE w \in {0, 1} -> IF free = <<>> THEN P \ {p} ELSE (P \ {p}) \cup {<<OneOf(st, k + 2, free), p[2]>>}
            [] w = 2 -> IF f = <<>> THEN P ELSE P \cup {OneOf(st, k + 3, f)}
            [] w = 3 -> P \ {p}
Sizes1 == Pick2(<<1, 2, 3, 4, 6, 9, 14, 24>>, <<1, 2, 3, 5, 8, 13, 21, 30, 45>>)
Scales(st, n) == IF Pick(st, 5, 3) = 0 THEN [j \in 1..n |-> OneOf(st, 50 + j, <<RDec(1, -2), RDec(1, -1), ROne, RInt(10), RInt(100)>>)] ELSE Ones(n)
Perm(st, k, n) == LET RECURSIVE go(_, _)
                      go(i, left) == IF left = <<>> THEN <<>> ELSE LET j == 1 + Pick(st, k + i, Len(left)) IN <<left[j]>> \o go(i + 1, [m \in 1..(Len(left) - 1) |-> IF m < j THEN left[m] ELSE left[m + 1]])
                  IN go(1, [i \in 1..n |-> i])
\* the whole system in other units
InUnits(q, st) ==
  LET ua == OneOf(st, 80, <<ROne, ROne, ROne, RDec(1, -9), RDec(1, -5), RDec(1, 6)>>)
      ub == OneOf(st, 81, <<ROne, ROne, ROne, RDec(1, -10), RDec(1, 7), RZero>>)
  IN [q EXCEPT !.tr = [x \in 1..Len(@) |-> <<@[x][1], @[x][2], RMul(ua, @[x][3])>>], !.b = MScale(ub, @)]
\* entries stored although they are zero
WithZeros(q, st) == IF Pick(st, 82, 4) # 0 THEN q
  ELSE [q EXCEPT !.tr = [x \in 1..Len(@) |-> <<@[x][1], @[x][2],
          IF @[x][1] # @[x][2] /\ Pick(st, 83 + @[x][1] + @[x][2], 3) = 0 /\ q.op = "sym" THEN RZero ELSE @[x][3]>>]]
\* state of the generator: the shapes and patterns of the last symmetric and the last rectangular system
RECURSIVE Walk(_, _, _, _)
Walk(st, x, len, last) ==
  IF x > len THEN <<>>
  ELSE LET s == st + x   mode == OneOf(s, 1, <<"new", "same", "move", "move", "same">>)
           new == mode = "new"
           cols == OneOf(s, 3, <<1, 1, 1, 1, 2, 3>>)
           bad == Pick(s, 9, 12) = 0
       IN IF Pick(s, 2, 2) = 0
          THEN LET n == IF new THEN OneOf(s, 4, Sizes1) ELSE last.n
                   P == IF new THEN RandSym(n, s, 100) ELSE IF mode = "same" THEN last.P ELSE MoveSym(last.P, n, s, 10)
                   y == SymSystem(n, P, s, Scales(s, n), cols)
                   \* an indefinite system: no promise is made about it, only about what follows
                   z == [y EXCEPT !.op = "bad", !.tr = [i \in 1..Len(@) |-> <<@[i][1], @[i][2], IF @[i][1] = @[i][2] THEN RNeg(@[i][3]) ELSE @[i][3]>>]]
               IN <<IF bad THEN z ELSE InUnits(WithZeros(y, s), s)>> \o Walk(st, x + 1, len, [last EXCEPT !.n = n, !.P = P])
          ELSE LET n == IF new THEN OneOf(s, 4, Sizes1) ELSE last.ln
                   m == IF new THEN n + OneOf(s, 6, <<0, 1, 2, 5, n>>) ELSE last.lm
                   piv == IF new THEN SubSeq(Perm(s, 700, m), 1, n) ELSE last.piv
                   Q == IF new THEN RandLsq(m, n, s, 100) ELSE IF mode = "same" THEN last.Q ELSE MoveLsq(last.Q, m, n, s, 10)
               IN <<InUnits(LsqSystem(m, n, Q, piv, s, Scales(s, n), cols), s)>> \o Walk(st, x + 1, len, [last EXCEPT !.ln = n, !.lm = m, !.Q = Q, !.piv = piv])
First(st) == LET n == OneOf(st, 40, Sizes1)   m == n + OneOf(st, 41, <<0, 1, 3, n>>) IN
  [n |-> n, P |-> RandSym(n, st, 100), ln |-> n, lm |-> m, Q |-> RandLsq(m, n, st, 5000), piv |-> SubSeq(Perm(st, 700, m), 1, n)]
\* not dominated by their diagonal: tall random matrices, and Gram matrices
TallSys(n, st) ==
  LET m == 2 * n + 3   ps == SetToSeq({p \in Grid(m, n) : Pick(st, 100 + 60 * p[1] + p[2], 100) < 70} \cup {<<j, j>> : j \in 1..n}) IN
  [op |-> "lsq", m |-> m, n |-> n, b |-> [i \in 1..m |-> <<Sym(st, 30000 + i)>>], tr |-> [x \in 1..Len(ps) |-> <<ps[x][1], ps[x][2], Sym(st, 100 * ps[x][1] + ps[x][2])>>]]
GramSys(n, st) ==
  LET G == [i \in 1..n |-> [j \in 1..n |-> IF Pick(st, 100 + 60 * i + j, 100) < 50 THEN Sym(st, 100 * i + j) ELSE RZero]]
      T == MAdd(MMul(G, MT(G)), MScale(RDec(1, -2), MId(n)))
      ps == SetToSeq({p \in Grid(n, n) : T[p[1]][p[2]] # RZero})
  IN [op |-> "sym", m |-> n, n |-> n, b |-> [i \in 1..n |-> <<Sym(st, 30000 + i), Sym(st, 31000 + i)>>],
      tr |-> [x \in 1..Len(ps) |-> <<ps[x][1], ps[x][2], IF ps[x][1] <= ps[x][2] THEN T[ps[x][1]][ps[x][2]] ELSE T[ps[x][2]][ps[x][1]]>>]]
Plain(st) == << TallSys(2 + Pick(st, 1, 9), st), GramSys(2 + Pick(st, 2, 11), st), TallSys(2 + Pick(st, 3, 9), st + 1), GramSys(2 + Pick(st, 4, 11), st + 1) >>
\* large sparse ones: chains with a few loops, as pose graphs have
ChainPat(n, st, k) == Mirror(Diagonal(n) \cup {<<i + 1, i>> : i \in 1..(n - 1)} \cup {LET a == 1 + Pick(st, k + 2 * x, n)  b == 1 + Pick(st, k + (2 * x) + 1, n) IN <<a, b>> : x \in 1..(n \div 6)})
ChainLsq(m, n, st) == {<<i, 1 + (i % n)>> : i \in 1..m} \cup {<<i, 1 + ((i + 1) % n)>> : i \in 1..m} \cup {<<i, 1 + Pick(st, 4000 + i, n)>> : i \in {x \in 1..m : x % 5 = 0}}
Large(st) ==
  LET n == OneOf(st, 1, <<40, 60, 90>>)   m == n + OneOf(st, 2, <<0, 7, 30>>) IN
  << SymSystem(n, ChainPat(n, st, 3000), st, Ones(n), 1), LsqSystem(m, n, ChainLsq(m, n, st), SubSeq(Perm(st, 700, m), 1, n), st, Scales(st, n), 1),
     SymSystem(n, ChainPat(n, st + 1, 3000), st + 1, Scales(st, n), 2), LsqSystem(m, n, ChainLsq(m, n, st + 1), SubSeq(Perm(st, 700, m), 1, n), st + 1, Ones(n), 1) >>
\* sparse ones that differ in one of the last columns only, with the same number of entries in every column
LastMoved(st) ==
  LET n == OneOf(st, 1, <<34, 40, 70>>)   m == n + 12   piv == [j \in 1..n |-> j]
      P == {<<j, j>> : j \in 1..n} \cup {<<j + 1, j>> : j \in 1..n}   c == n - Pick(st, 2, 2)
      Q == (P \ {<<c + 1, c>>}) \cup {<<n + 2 + Pick(st, 3, 10), c>>}
      S == Mirror(Diagonal(n) \cup {<<j + 1, j>> : j \in 1..(n - 2)} \cup {<<n, n - 1>>})
      T == Mirror(Diagonal(n) \cup {<<j + 1, j>> : j \in 1..(n - 2)} \cup {<<n, n - 4>>})
      p == LsqSystem(m, n, P, piv, st, Ones(n), 1)   q == LsqSystem(m, n, Q, piv, st + 1, Ones(n), 1)
      s == SymSystem(n, S, st + 2, Ones(n), 1)   t == SymSystem(n, T, st + 3, Ones(n), 1)
  IN IF Pick(st, 4, 2) = 0 THEN <<p, q, s, t, p>> ELSE <<t, s, q, p, t>>
\* ones that differ far from the beginning only, in several columns, and keep the number of entries of every column
FarMoved(st) ==
  LET n == OneOf(st, 1, <<40, 55, 75>>)   m == n + 12   piv == [j \in 1..n |-> j]   late == (n - 7)..n
      P == {<<j, j>> : j \in 1..n} \cup {<<j + 1, j>> : j \in 1..n} \cup {<<j + 5, j>> : j \in 1..n}
      up(c) == Pick(st, 10 + c, 2) = 0
      Q == {p \in P : p[2] \notin late \/ p[1] # p[2] + 1} \cup {IF up(c) THEN <<c - 3, c>> ELSE <<n + 6 + Pick(st, 200 + c, 7), c>> : c \in late}
      C == Diagonal(n) \cup {<<j + 1, j>> : j \in 1..(n - 1)}
      S == Mirror(C \cup {<<n, n - 3>>, <<n - 1, n - 5>>})
      T == Mirror(C \cup {<<n, n - 5>>, <<n - 1, n - 3>>})
      p == LsqSystem(m, n, P, piv, st, Ones(n), 1)   q == LsqSystem(m, n, Q, piv, st + 1, Ones(n), 1)
      s == SymSystem(n, S, st + 2, Ones(n), 1)   t == SymSystem(n, T, st + 3, Ones(n), 1)
  IN IF Pick(st, 4, 2) = 0 THEN <<p, q, s, t, p>> ELSE <<t, s, q, p, t>>
N == Pick2(120, 900)
Scenarios == [i \in 1..N |-> [t |-> "solver", sys |-> Walk(20 * i, 1, Pick2(5, 8), First(20 * i))]]
  \o [i \in 1..Pick2(60, 600) |-> [t |-> "solver", sys |-> Plain(30000 + 10 * i)]]
  \o [i \in 1..Pick2(6, 40) |-> [t |-> "solver", sys |-> LastMoved(50000 + 10 * i)]]
  \o [i \in 1..Pick2(8, 40) |-> [t |-> "solver", sys |-> FarMoved(60000 + 10 * i)]]
  \o [i \in 1..Pick2(6, 40) |-> [t |-> "solver", sys |-> Large(40000 + 10 * i)]]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
