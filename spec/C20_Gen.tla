------------------------------ MODULE C20_Gen ------------------------------
(* Values of mixed kinds, the ordering derived from them, linear values over it, and histories of oplus_mut     *)
(* with increments over other orderings (subsets, supersets, permutations, a wrong dimension).                  *)
EXTENDS GenGraph, SequencesExt

Names(n, st) == [i \in 1..n |-> KeyNo(st, i)]
\* one increment: which variables it covers (numbers may exceed the values: keys the values do not have), in what order
Step(pool, extra, st, x) ==
  LET n == Len(pool) + Len(extra)   kinds == pool \o extra
      perm == Permutation(st, 4000 + 60 * x, n)
      take == SelectSeq(perm, LAMBDA i : OneOf(st, 4500 + x, <<3, 3, 2, 0>>) = 3 \/ Pick(st, 4600 + 30 * x + i, 3) # 0)
      \* the dimension claimed for each covered variable (0: right; otherwise this one is off by one)
      bad == IF Pick(st, 4950 + 10 * x, 5) = 0 /\ Len(take) > 0 THEN take[1 + Pick(st, 4951 + 10 * x, Len(take))] ELSE 0
      dims == [i \in 1..Len(take) |-> TanDim(kinds[take[i]]) + (IF take[i] = bad THEN (IF TanDim(kinds[bad]) > 1 /\ Pick(st, 4952 + 10 * x, 2) = 0 THEN -1 ELSE 1) ELSE 0)]
      slice(i) == IF dims[i] = TanDim(kinds[take[i]]) THEN VScale(OneOf(st, 4800 + 40 * x + i, <<ROne, ROne, ROne, RDec(1, -5), RDec(1, -10)>>), RndTan(kinds[take[i]], st + x, 20 + take[i], AllAngles)) ELSE SymVec(st, 2000 + 40 * x + i, dims[i])
        \* a vector's increment may hold numbers that are not finite (only in the last step)
      holed(i) == x = 3 /\ kinds[take[i]] \in VecKinds /\ dims[i] = TanDim(kinds[take[i]]) /\ Pick(st, 4700 + i, 4) = 0
      hole(i, v) == [v EXCEPT ![1 + Pick(st, 4730 + i, Len(v))] = OneOf(st, 4760 + i, <<RDiv(RZero, RZero), RDiv(ROne, RZero), RNeg(RDiv(ROne, RZero))>>)]
  IN [take |-> take, dims |-> dims, bad |-> bad, d |-> [i \in 1..Len(take) |-> IF holed(i) THEN hole(i, slice(i)) ELSE slice(i)]]

LinCase(pi, st) ==
  LET pool0 == IF Pick(st, 3990, 8) = 0 THEN Pools[pi] \o Pools[1 + (pi % Len(Pools))] \o Pools[pi] \o Pools[1 + ((pi + 4) % Len(Pools))] ELSE Pools[pi]   n0 == Pick(st, 3999, 1 + Len(pool0))
      pool == SubSeq(pool0, 1, IF Pick(st, 3998, 4) = 0 THEN n0 ELSE Len(pool0))
      extra == <<"V2", "SE3">>
      names == Names(Len(pool) + Len(extra), st)
      tot == LET RECURSIVE s(_)  s(i) == IF i = 0 THEN 0 ELSE s(i - 1) + TanDim(pool[i]) IN s(Len(pool))
  IN [t |-> "lincont", vars |-> [i \in 1..Len(pool) |-> Var(names[i], pool[i], El(pool[i], st, i))],
      extra |-> [i \in 1..Len(extra) |-> Var(names[Len(pool) + i], extra[i], El(extra[i], st, 190 + i))],
      vec |-> SymVec(st, 3900, tot), off |-> OneOf(st, 3997, <<0, 1, -1, 0, 3>>), steps |-> [x \in 1..3 |-> Step(pool, extra, st, x)]]
\* thousands of variables
ManyOf(n, steps, st) ==
  LET kind(i) == <<"V1", "V2", "SO2", "V1", "SE2">>[1 + (i % 5)]   key(i) == <<Letters[1 + (i % 3)], (i * 7919) % 100003>>
      raw(i) == RawOf(kind(i), Axes3[1], Sym(st, i), 1, SymVec(st, 20000 + (i % 500), 2))
      dims == [i \in 1..n |-> TanDim(kind(i))]
      slice(i) == SymVec(st + 1, 20000 + (i % 700), dims[i])
      half == SelectSeq([i \in 1..n |-> 1 + ((i * 7919) % n)], LAMBDA x : x % 3 # 0)
  IN [t |-> "lincont", vars |-> [i \in 1..n |-> Var(key(i), kind(i), raw(i))], extra |-> <<Var(<<"w", 0>>, "V2", SymVec(st, 3, 2))>>,
      vec |-> SymVec(st, 3900, FoldLeft(LAMBDA a, b : a + b, 0, dims)), off |-> 0,
      steps |-> IF steps = 0 THEN <<>> ELSE <<[take |-> half, dims |-> [k \in 1..Len(half) |-> dims[half[k]]], bad |-> 0, d |-> [k \in 1..Len(half) |-> slice(half[k])]]>>]
N == Pick2(40, 200)
Scenarios == Flatten([p \in 1..Len(Pools) |-> [i \in 1..N |-> LinCase(p, 1000 * p + i)]]) \o <<ManyOf(1101, 1, 61000), ManyOf(4201, 0, 62000)>>
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
