----------------------------- MODULE C04_Pairs -----------------------------
(* All ordered pairs of sparsity patterns of one small shape: every 3x2 pattern of full structural rank, every   *)
(* symmetric 3x3 (thorough: 4x4) pattern.  Quick replays every third pair.                                       *)
EXTENDS GenLin

Rect == SetToSeq({P \in SUBSET Grid(3, 2) : \E a, b \in 1..3 : a # b /\ <<a, 1>> \in P /\ <<b, 2>> \in P})
PivOf(P) == LET ab == CHOOSE ab \in (1..3) \X (1..3) : ab[1] # ab[2] /\ <<ab[1], 1>> \in P /\ <<ab[2], 2>> \in P IN ab
NS == Pick2(3, 4)
Syms == SetToSeq({Mirror(Diagonal(NS) \cup L) : L \in SUBSET {p \in Grid(NS, NS) : p[1] > p[2]}})
RectSys(i, st) == LsqSystem(3, 2, Rect[i], PivOf(Rect[i]), st, Ones(2), 1)
SymSys(i, st) == SymSystem(NS, Syms[i], st, Ones(NS), 1)
Keep(i, j) == Thorough \/ (i + j + Seed) % 3 = 0
Pairs(S, Sys(_, _)) == Flatten([i \in 1..Len(S) |-> LET js == SelectSeq([j \in 1..Len(S) |-> j], LAMBDA j : j # i /\ Keep(i, j)) IN
                          [x \in 1..Len(js) |-> [t |-> "solver", sys |-> <<Sys(i, 7 * i), Sys(js[x], 1000 + 13 * js[x])>>]]])
\* pairs that list the same rows and differ only in where a column ends
Hi(S) == CHOOSE x \in S : \A y \in S : y <= x
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
MS == 5
ColSets == (SUBSET (1..MS)) \ {{}}
PatOf(C) == UNION {{<<i, j>> : i \in C[j]} : j \in 1..Len(C)}
PivC(C) == IF \E r \in (1..MS) \X (1..MS) \X (1..MS) : r[1] \in C[1] /\ r[2] \in C[2] /\ r[3] \in C[3] /\ Cardinality({r[1], r[2], r[3]}) = 3
           THEN CHOOSE r \in (1..MS) \X (1..MS) \X (1..MS) : r[1] \in C[1] /\ r[2] \in C[2] /\ r[3] \in C[3] /\ Cardinality({r[1], r[2], r[3]}) = 3 ELSE <<>>
Shift(C, j) == [C EXCEPT ![j] = @ \ {Hi(C[j])}, ![j + 1] = @ \cup {Hi(C[j])}]
Shiftable == {Cj \in (ColSets \X ColSets \X ColSets) \X {1, 2} : LET C == Cj[1]   j == Cj[2] IN
                Cardinality(C[j]) > 1 /\ Hi(C[j]) < Lo(C[j + 1]) /\ PivC(C) # <<>> /\ PivC(Shift(C, j)) # <<>>}
Shifts == LET S == SetToSeq(Shiftable)   T == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : Thorough \/ (i + Seed) % 7 = 0)
              sys(C, st) == LsqSystem(MS, 3, PatOf(C), PivC(C), st, Ones(3), 1) IN
          [x \in 1..Len(T) |-> LET C == S[T[x]][1]   D == Shift(C, S[T[x]][2]) IN
             [t |-> "solver", sys |-> IF x % 2 = 0 THEN <<sys(C, 7 * x), sys(D, 7 * x + 3)>> ELSE <<sys(D, 7 * x), sys(C, 7 * x + 3)>>]]
Scenarios == Pairs(Rect, RectSys) \o Pairs(Syms, SymSys) \o Shifts
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
