------------------------------ MODULE GenProb ------------------------------
(* Well-posed optimization problems: a prior on every variable (unless the problem is anchored otherwise), and   *)
(* factors whose measurements agree with a hidden truth up to a disturbance; the initial values are off the       *)
(* truth by a moderate amount.  A problem is [vars, facs] with facs as in GenFac.                                  *)
EXTENDS GenGraph

\* x disturbed by a random element of the given size
Small(k, st, i, size) == RawOf(k, Axis(st, 8 * i + 3), RMul(size, U(st, 512 * i + 404)), IF Pick(st, 512 * i + 405, 2) = 0 THEN 1 ELSE -1, VScale(size, SymVec(st, 8 * i + 5, 6)))
Near(k, raw, st, i, size) == RawMul(k, raw, Small(k, st, i, size))

ProbPools == << <<"V1">>, <<"V1", "V1", "V2">>, <<"V2", "V1", "V3", "V2">>, <<"SE2", "SE2", "SE2">>, <<"SO2", "SE2", "SO2">>, <<"SO3", "SO3", "V3">>, <<"SE3", "SE3">>,
                <<"SE3", "V3", "BIAS">>, <<"SE2", "V2", "V2", "SE2">>, <<"SO2", "V1", "SE2", "SO3">>, <<"V6", "V4", "V5">>, <<"V3", "V3", "V3", "V1", "V1">>, <<"V9", "V1", "V9">> >>
VecPools == << <<"V1">>, <<"V1", "V1", "V2">>, <<"V2", "V1", "V3", "V2">>, <<"V6", "V4", "V5">>, <<"V3", "V3", "V3", "V1", "V1">>, <<"V2", "V2", "V2", "V2">>, <<"V9", "V2">> >>

Truths(pool, st) == [i \in 1..Len(pool) |-> Mild(pool[i], st, i)]
Named(st, n) == [i \in 1..n |-> KeyNo(st, i)]
MkFac(vs, names, res, rows, st, noises, kernels) ==
  [vs |-> vs, f |-> [res |-> res, keys |-> [i \in 1..Len(vs) |-> names[vs[i]]], noise |-> NoiseOf(OneOf(st, 31, noises), st, rows),
                     kernel |-> KernelOf(OneOf(st, 32, kernels), st), swap |-> Pick(st, 33, 2) = 0]]
PriorFac(v, pool, T, names, st, size, noises, kernels) ==
  MkFac(<<v>>, names, [r |-> "prior", kind |-> pool[v], z |-> Near(pool[v], T[v], st, 41, size)], TanDim(pool[v]), st, noises, kernels)
BetweenFac(a, b, pool, T, names, st, size, noises, kernels) ==
  LET k == pool[a] IN
  MkFac(<<a, b>>, names, [r |-> "between", kind |-> k, z |-> Near(k, RawMul(k, RawInv(k, T[a]), T[b]), st, 42, size)], TanDim(k), st, noises, kernels)
\* a harness-defined residual that vanishes, up to a disturbance, at the truth
CombFac(sg, pool, T, names, st, x, size, bscale, noises, kernels) ==
  LET vs == Slots(pool, sg.k, st, 7600 + 20 * x)   rows == 1 + Pick(st, 7500 + x, 3)
      res == CombRes(sg, st + x, rows, bscale)
      Ms == [i \in 1..Len(vs) |-> Mat(pool[vs[i]], T[vs[i]])]
      val == FVal(sg.k, Ms, res.a, res.b)
  IN MkFac(vs, names, [res EXCEPT !.c = VAdd(val, VScale(size, SymVec(st + x, 95, rows)))], rows, st + x, noises, kernels)

\* all factors: priors on every variable, then nf more
ProbFacs(pool, T, names, st, nf, size, bscale, noises, kernels) ==
  LET sg == SigsOf(pool)   bk == BetweenKinds(pool)
      more(x) == IF bk # <<>> /\ (sg = <<>> \/ Pick(st, 7000 + x, 2) = 0)
                 THEN LET k == OneOf(st, 7200 + x, bk)   vs == Slots(pool, <<k, k>>, st, 7300 + 20 * x) IN BetweenFac(vs[1], vs[2], pool, T, names, st + x, size, noises, kernels)
                 ELSE IF sg = <<>> THEN PriorFac(1 + Pick(st, 7100 + x, Len(pool)), pool, T, names, st + x, size, noises, kernels)
                 ELSE CombFac(FacSigs[OneOf(st, 7400 + x, sg)], pool, T, names, st, x, size, bscale, noises, kernels)
      pk == SelectSeq(kernels, LAMBDA k : k \in {"none", "L2", "L1", "Huber", "Fair"})     \* a prior must not lose its weight
  IN [v \in 1..Len(pool) |-> PriorFac(v, pool, T, names, st + 20 + v, size, noises, pk)] \o [x \in 1..nf |-> more(x)]
Shuffled(sq, st, k) == LET pm == Permutation(st, k, Len(sq)) IN [i \in 1..Len(sq) |-> sq[pm[i]]]

ProblemAt(pool, T, st, nf, size, off, bscale, noises, kernels) ==
  LET names == Named(st, Len(pool))
      fs == Shuffled(ProbFacs(pool, T, names, st, nf, size, bscale, noises, kernels), st, 8800)
  IN [vars |-> [i \in 1..Len(pool) |-> Var(names[i], pool[i], Near(pool[i], T[i], st, 60 + i, off))],
      facs |-> [x \in 1..Len(fs) |-> fs[x].f], vs |-> [x \in 1..Len(fs) |-> fs[x].vs]]

Problem(pool, st, nf, size, off, bscale, noises, kernels) == ProblemAt(pool, Truths(pool, st), st, nf, size, off, bscale, noises, kernels)
\* groups of variables with nothing in common, each starting its own distance (orders of magnitude apart) from its solution
Apart(pool, st, nf, offs, noises) ==
  LET T == Truths(pool, st)   names == Named(st, Len(pool))   bk == BetweenKinds(pool)
      fs == Shuffled([v \in 1..Len(pool) |-> PriorFac(v, pool, T, names, st + 20 + v, RDec(1, -9), noises, <<"none">>)]
                     \o (IF bk = <<>> THEN <<>> ELSE [x \in 1..nf |-> LET k == OneOf(st, 7200 + x, bk)   vs == Slots(pool, <<k, k>>, st, 7300 + 20 * x) IN
                                                                       BetweenFac(vs[1], vs[2], pool, T, names, st + x, RDec(1, -9), noises, <<"none">>)]), st, 8800)
      off(i) == LET o == OneOf(st, 8400 + i, offs) IN IF pool[i] \in LieKinds THEN RMin(o, ROne) ELSE o
  IN [vars |-> [i \in 1..Len(pool) |-> Var(names[i], pool[i], Near(pool[i], T[i], st, 60 + i, off(i)))],
      facs |-> [x \in 1..Len(fs) |-> fs[x].f], vs |-> [x \in 1..Len(fs) |-> fs[x].vs]]

\* vectors in units of any size: everything is of about that size, or zero
UnitTruths(pool, st, unit) == [i \in 1..Len(pool) |-> VScale(unit, SymVec(st, 8 * i + 1, RawDim(pool[i])))]
InUnitsAt(pool, st, nf, unit, size, noises) ==
  LET names == Named(st, Len(pool))   bk == BetweenKinds(pool)
      T == UnitTruths(pool, st, unit)
      fs == Shuffled([v \in 1..Len(pool) |-> PriorFac(v, pool, T, names, st + 20 + v, size, noises, <<"none">>)]
                     \o (IF bk = <<>> THEN <<>> ELSE [x \in 1..nf |-> LET k == OneOf(st, 7200 + x, bk)   vs == Slots(pool, <<k, k>>, st, 7300 + 20 * x) IN
                                                                       BetweenFac(vs[1], vs[2], pool, T, names, st + x, size, noises, <<"none">>)]), st, 8800)
  IN [vars |-> [i \in 1..Len(pool) |-> Var(names[i], pool[i], IF Pick(st, 8450 + i, 2) = 0 THEN [x \in 1..RawDim(pool[i]) |-> RZero] ELSE Near(pool[i], T[i], st, 60 + i, unit))],
      facs |-> [x \in 1..Len(fs) |-> fs[x].f], vs |-> [x \in 1..Len(fs) |-> fs[x].vs]]
InUnits(pool, st, nf, unit, noises) == InUnitsAt(pool, st, nf, unit, unit, noises)
\* pose graphs: anchored at one variable only, a chain and a few loops
ChainPools == << [i \in 1..6 |-> "SE2"], [i \in 1..4 |-> "SE3"], [i \in 1..8 |-> "V2"], [i \in 1..5 |-> "SO3"], [i \in 1..7 |-> "SO2"], [i \in 1..10 |-> "V1"] >>
ChainAt(pool, T, st, loops, size, off, noises, kernels) ==
  LET n == Len(pool)   names == Named(st, n)   ord == Permutation(st, 8700, n)
      lk(x) == LET a == 1 + Pick(st, 8600 + x, n)   b == 1 + ((a + Pick(st, 8650 + x, n - 1)) % n) IN <<a, b>>
      fs == <<PriorFac(ord[1], pool, T, names, st + 30, size, noises, <<"none">>)>>
            \o [i \in 1..(n - 1) |-> IF Pick(st, 8750 + i, 2) = 0 THEN BetweenFac(ord[i], ord[i + 1], pool, T, names, st + i, size, noises, <<"none">>)
                                                                 ELSE BetweenFac(ord[i + 1], ord[i], pool, T, names, st + i, size, noises, <<"none">>)]
            \o [x \in 1..loops |-> BetweenFac(lk(x)[1], lk(x)[2], pool, T, names, st + 10 + x, size, noises, kernels)]
      sh == Shuffled(fs, st, 8800)
  IN [vars |-> [i \in 1..n |-> Var(names[i], pool[i], Near(pool[i], T[i], st, 60 + i, off))], facs |-> [x \in 1..Len(sh) |-> sh[x].f], vs |-> [x \in 1..Len(sh) |-> sh[x].vs]]
Chain(pool, st, loops, size, off, noises, kernels) == ChainAt(pool, Truths(pool, st), st, loops, size, off, noises, kernels)
=============================================================================
