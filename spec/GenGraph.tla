------------------------------ MODULE GenGraph ------------------------------
(* Generated graphs: variables of mixed kinds and factors connecting them in no particular order.              *)
EXTENDS GenFac

Pools == << <<"V1", "V1", "V1">>, <<"V2", "V1", "V3", "V2", "V1">>, <<"V3", "V3", "V2", "V1", "V1", "V2">>,
            <<"SE2", "SE2", "V2", "SE2", "SO2">>, <<"SE3", "V3", "BIAS", "SE3", "V3", "BIAS">>, <<"SO3", "SO3", "V1", "SE2">>,
            <<"SO2", "SE2", "SO3", "SE3", "V2", "V1", "V3", "V4", "V5", "V6">>, <<"SO2", "SO2", "SE2", "V2", "SO3">>, <<"V4", "V5", "V6", "V4">>, <<"V9", "V2", "V9", "SE2", "V1">> >>
Permutation(st, k, n) ==   \* a pseudo-random permutation of 1..n
  LET RECURSIVE go(_, _)
      go(i, left) == IF left = <<>> THEN <<>>
                     ELSE LET j == 1 + Pick(st, k + i, Len(left)) IN <<left[j]>> \o go(i + 1, [m \in 1..(Len(left) - 1) |-> IF m < j THEN left[m] ELSE left[m + 1]])
  IN go(1, [i \in 1..n |-> i])

Indices(pool, k) == SelectSeq([i \in 1..Len(pool) |-> i], LAMBDA i : pool[i] = k)
\* variables for the slots of a signature: distinct where the pool allows, rotating by a random offset
Slots(pool, ks, st, k) ==
  [i \in 1..Len(ks) |-> LET ix == Indices(pool, ks[i])   nth == Cardinality({j \in 1..i : ks[j] = ks[i]}) IN
     ix[1 + ((Pick(st, k + KindNo(ks[i]), Len(ix)) + nth) % Len(ix))]]
Count(sq, k) == Cardinality({i \in 1..Len(sq) : sq[i] = k})
SigsOf(pool) == SelectSeq([i \in 1..Len(FacSigs) |-> i], LAMBDA i : \A j \in 1..Len(FacSigs[i].k) : Count(FacSigs[i].k, FacSigs[i].k[j]) <= Count(pool, FacSigs[i].k[j]))
BetweenKinds(pool) == SelectSeq(KindSeq, LAMBDA k : Count(pool, k) >= 2)

\* factor number x over the pool, as [keys |-> variable numbers, f |-> description]; keys = names of the variables
AnyFactor(pool, names, st, x, noises, kernels, bscale) ==
  LET sg == SigsOf(pool)   bk == BetweenKinds(pool)   ch == Pick(st, 7000 + x, 4)   f0 == st + x
      mk(vs, res, rows) == [vs |-> vs, f |-> [res |-> res, keys |-> [i \in 1..Len(vs) |-> names[vs[i]]],
                                              noise |-> NoiseOf(OneOf(f0, 31, noises), f0, rows), kernel |-> KernelOf(OneOf(f0, 32, kernels), f0), swap |-> FALSE]]
  IN IF ch = 0 \/ (ch = 1 /\ bk = <<>>) \/ (ch >= 2 /\ sg = <<>>)
     THEN LET v == 1 + Pick(st, 7100 + x, Len(pool)) IN mk(<<v>>, UnaryRes(pool[v], f0), TanDim(pool[v]))
     ELSE IF ch = 1 THEN LET k == OneOf(st, 7200 + x, bk) IN mk(Slots(pool, <<k, k>>, st, 7300 + 20 * x), BinaryRes(k, f0), TanDim(k))
     ELSE LET s == FacSigs[OneOf(st, 7400 + x, sg)]   rows == 1 + Pick(st, 7500 + x, 4)
          IN mk(Slots(pool, s.k, st, 7600 + 20 * x), CombRes(s, f0, rows, bscale), rows)
=============================================================================
