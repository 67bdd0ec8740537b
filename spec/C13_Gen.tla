------------------------------ MODULE C13_Gen ------------------------------
EXTENDS GenGraph

Dim(pool) == LET RECURSIVE s(_)  s(i) == IF i = 0 THEN 0 ELSE s(i - 1) + TanDim(pool[i]) IN s(Len(pool))
Over(pool, st, nf, drop) ==
  LET names == [i \in 1..Len(pool) |-> KeyNo(st, i)]
      fs == [x \in 1..nf |-> AnyFactor(pool, names, st, x, NoiseKinds, KernelKinds, RDec(3, -1))]
  IN [t |-> "graph", vars |-> [i \in 1..Len(pool) |-> Var(names[i], pool[i], El(pool[i], st, i))],
      facs |-> [x \in 1..nf |-> fs[x].f], vs |-> [x \in 1..nf |-> fs[x].vs], drop |-> drop, cap |-> Pick(st, 3, 2) = 0,
      order |-> IF Pick(st, 4, 3) = 0 /\ drop = 0 THEN <<>> ELSE SelectSeq(Permutation(st, 6000, Len(pool)), LAMBDA i : i # drop),
      dx |-> VScale(RTwo, SymVec(st, 300, Dim(pool) - (IF drop = 0 THEN 0 ELSE TanDim(pool[drop]))))]
Base(p, st, nf, drop) == Over(Pools[p], st, nf, drop)
N == Pick2(25, 120)
\* many variables and factors
Bigs == [x \in 1..Pick2(10, 60) |-> LET st == 95000 + 100 * (x % 40) + (x \div 40)   p == 1 + (x % Len(Pools)) IN
           Over(Pools[p] \o Pools[1 + ((p + 3) % Len(Pools))] \o Pools[p], st, 15 + Pick(st, 1, 30), 0)]
\* a hundred and more factors
Hundreds == [x \in 1..Pick2(4, 24) |-> LET st == 99200 + 10 * x   p == 1 + (x % Len(Pools)) IN
   Over(Pools[p] \o Pools[1 + ((p + 5) % Len(Pools))], st, 68 + Pick(st, 1, Pick2(70, 220)), 0)]
Full == Flatten([p \in 1..Len(Pools) |-> [x \in 1..N |-> LET st == 1000 * p + 40 * (x % 24) + (x \div 24) IN Base(p, st, Pick(st, 1, 8), 0)]])
\* a variable missing from the values and the ordering
Dropped == Flatten([p \in 1..Len(Pools) |-> [x \in 1..Pick2(3, 30) |-> LET st == 20000 + 1000 * p + 30 * x IN Base(p, st, 1 + Pick(st, 1, 4), 1 + Pick(st, 2, Len(Pools[p])))]])

\* a factor that uses one variable twice: its blocks add up
TwinSigs == <<"V1,V1", "V2,V2", "V3,V3", "SE2,SE2">>
Twins == Flatten([p \in 1..Len(Pools) |-> [x \in 1..Pick2(3, 20) |->
  LET st == 60000 + 1000 * p + 30 * x   b == Base(p, st, 1 + Pick(st, 1, 4), 0)   pool == Pools[p]
      sgs == SelectSeq(TwinSigs, LAMBDA s : Count(pool, FacSigs[SigNo(s)].k[1]) >= 1)
      sg == FacSigs[SigNo(OneOf(st, 7, IF sgs = <<>> THEN <<"V1,V1">> ELSE sgs))]   v == CHOOSE i \in 1..Len(pool) : pool[i] = sg.k[1]   name == b.vars[v].key
      f == IF Pick(st, 8, 3) = 0 THEN [res |-> BinaryRes(sg.k[1], st), keys |-> <<name, name>>, noise |-> NoiseOf(OneOf(st, 9, NoiseKinds), st, TanDim(sg.k[1])), kernel |-> [n |-> "none"], swap |-> FALSE]
           ELSE [res |-> CombRes(sg, st, 2, RDec(3, -1)), keys |-> <<name, name>>, noise |-> NoiseOf(OneOf(st, 9, NoiseKinds), st, 2), kernel |-> KernelOf(OneOf(st, 10, KernelKinds), st), swap |-> FALSE]
  IN IF sgs = <<>> THEN b ELSE [b EXCEPT !.facs = Append(@, f), !.vs = Append(@, <<v, v>>)]]])
\* variables so far out that errors overflow
Far(p, st) ==
  LET b == Base(p, st, 1 + Pick(st, 1, 6), 0)   who == 1 + Pick(st, 11, Len(Pools[p]))   k == Pools[p][who] IN
  [b EXCEPT !.vars[who].raw = IF k \in LieKinds THEN @ ELSE VScale(OneOf(st, 12, <<RDec(1, 160), RDec(1, 200), RDec(1, 100)>>), @)]
Fars == Flatten([p \in 1..Len(Pools) |-> [x \in 1..Pick2(4, 30) |-> Far(p, 80000 + 1000 * p + 30 * x)]])

\* linear graphs given directly: integer-valued blocks make the sums exact
IntMat(st, k, n, m) == [i \in 1..n |-> [j \in 1..m |-> RInt(Pick(st, k + 10 * i + j, 19) - 9)]]
LinCase(p, st, nf, drop) ==
  LET pool == Pools[p]   names == [i \in 1..Len(pool) |-> KeyNo(st, i)]
      fac(x) == LET nk == 1 + Pick(st, 40 + x, IF Len(pool) > 4 THEN 4 ELSE Len(pool))
                    vs0 == SubSeq(Permutation(st, 400 + 20 * x, Len(pool)), 1, nk)
                    vs == IF nk > 1 /\ Pick(st, 80 + x, 5) = 0 THEN [vs0 EXCEPT ![nk] = vs0[1]] ELSE vs0
                    rows == IF Pick(st, 70 + x, 8) = 0 THEN 5 + Pick(st, 60 + x, 20) ELSE 1 + Pick(st, 60 + x, 4)
                IN [keys |-> vs, blocks |-> [i \in 1..nk |-> IntMat(st, 10000 * x + 1000 * i, rows, TanDim(pool[vs[i]]))],
                    b |-> [i \in 1..rows |-> RInt(Pick(st, 90000 + 10 * x + i, 19) - 9)]]
  IN [t |-> "lingraph", vars |-> [i \in 1..Len(pool) |-> Var(names[i], pool[i], El(pool[i], st, i))], facs |-> [x \in 1..nf |-> fac(x)], cap |-> Pick(st, 3, 2) = 0,
      vs |-> <<>>, drop |-> drop, order |-> SelectSeq(Permutation(st, 6000, Len(pool)), LAMBDA i : i # drop),
      dx |-> [i \in 1..(Dim(pool) - (IF drop = 0 THEN 0 ELSE TanDim(pool[drop]))) |-> RInt(Pick(st, 200 + i, 9) - 4)]]
Lins == Flatten([p \in 1..Len(Pools) |-> [x \in 1..N |-> LET st == 40000 + 1000 * p + 8 * x IN LinCase(p, st, Pick(st, 1, 6), IF Pick(st, 2, 5) = 0 THEN 1 + Pick(st, 5, Len(Pools[p])) ELSE 0)]])

\* an entry that is not a number, or infinite, stays where it is
Bad(st) == OneOf(st, 21, <<RDiv(RZero, RZero), RDiv(ROne, RZero), RDiv(RInt(-1), RZero)>>)
LinHole(p, st) ==
  LET c == LinCase(p, st, 1 + Pick(st, 1, 4), 0)   x == 1 + Pick(st, 22, Len(c.facs))   f == c.facs[x]   k == 1 + Pick(st, 23, Len(f.blocks))
      i == 1 + Pick(st, 24, Len(f.b))   j == 1 + Pick(st, 25, Len(f.blocks[k][1])) IN
  IF Pick(st, 26, 4) = 0 THEN [c EXCEPT !.facs[x].b[i] = Bad(st)] ELSE [c EXCEPT !.facs[x].blocks[k][i][j] = Bad(st)]
LinHoles == Flatten([p \in 1..Len(Pools) |-> [x \in 1..Pick2(4, 30) |-> LinHole(p, 70000 + 1000 * p + 8 * x)]])

Scenarios == Hundreds \o Bigs \o Full \o Twins \o Fars \o Dropped \o Lins \o LinHoles
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
