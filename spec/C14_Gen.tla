------------------------------ MODULE C14_Gen ------------------------------
(* Every way to describe a noise, in dimensions 1 to 20, from well to badly scaled.                             *)
EXTENDS Gen

Scales == << RDec(1, -12), RDec(1, -7), RDec(1, -4), RDec(1, -2), RDec(3, -1), ROne, RInt(5), RInt(1000), RDec(1, 8), RDec(1, 14) >>
Pos(st, k) == RMul(OneOf(st, 3 * k, Scales), RAdd(RDec(2, -1), U(st, 3 * k + 1)))      \* positive numbers over 26 decades
\* further out still, for the noises that are given number by number
Wide(st, k) == IF Pick(st, 700 + k, 3) = 0 THEN RMul(OneOf(st, 3 * k, <<RDec(1, -60), RDec(1, -30), RDec(1, -22), RDec(1, -17), RDec(1, 20), RDec(1, 35), RDec(1, 60)>>), RAdd(RDec(2, -1), U(st, 3 * k + 1))) ELSE Pos(st, k)
WideVec(st, n) == [i \in 1..n |-> Wide(st, i)]
PosVec(st, n) == [i \in 1..n |-> Pos(st, i)]
\* strong correlations, positive and negative: unit diagonal up to scaling, off-diagonal entries near 1
Corr(st, n) ==
  LET eps == OneOf(st, 930, <<RDec(1, -1), RDec(1, -2)>>)
      e == [i \in 1..n |-> IF Pick(st, 940 + i, 2) = 0 THEN ROne ELSE RInt(-1)]
      d == [i \in 1..n |-> OneOf(st, 900 + i, <<RDec(1, -1), ROne, RInt(5)>>)]
      T == [i \in 1..n |-> [j \in 1..n |-> RMul(RMul(d[i], d[j]), IF i = j THEN RAdd(ROne, eps) ELSE RMul(e[i], e[j]))]]
  IN [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN T[i][j] ELSE T[j][i]]]
\* a well-conditioned symmetric positive definite matrix, then scaled row- and columnwise
Spd(st, n) ==
  LET G == [i \in 1..n |-> SymVec(st, 160 + i, n)]
      S == MAdd(MMul(G, MT(G)), MScale(RDec(3, -1), MId(n)))
      d == [i \in 1..n |-> OneOf(st, 900 + i, <<RDec(1, -2), ROne, RInt(30)>>)]
      T == MMul(MMul(MDiag(d), S), MDiag(d))
  IN [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN T[i][j] ELSE T[j][i]]]                 \* exactly symmetric
Case(n, nz, st) ==
  [t |-> "noise", n |-> n, noise |-> nz,
   vecs |-> [i \in 1..3 |-> VScale(OneOf(st, 950 + i, Scales), SymVec(st, 40 + i, n))],
   mats |-> << [r \in 1..n |-> SymVec(st, 100 + r, IF Pick(st, 961, 4) = 0 THEN 25 ELSE 1 + Pick(st, 960, 7))], [r \in 1..n |-> SymVec(st, 130 + r, n)] >>]
Ctors == <<"unit", "identity", "scalar_sigma", "scalar_cov", "vec_sigma", "vec_cov", "vec_inf", "diag_sigmas", "diag_covs", "matrix_cov", "matrix_inf">>
Described(ct, n, st) ==
  CASE ct \in {"unit", "identity"} -> [n |-> ct]
    [] ct \in {"scalar_sigma", "scalar_cov"} -> [n |-> ct, v |-> <<Wide(st, 1)>>]
    [] ct \in {"matrix_cov", "matrix_inf"} -> [n |-> ct, m |-> CASE Pick(st, 970, 5) = 0 -> MDiag(PosVec(st, n)) [] Pick(st, 970, 5) = 1 -> Corr(st, n) [] OTHER -> Spd(st, n)]
    \* an entry without any information
    [] ct = "vec_inf" /\ Pick(st, 971, 4) = 0 -> [n |-> ct, v |-> [WideVec(st, n) EXCEPT ![1 + Pick(st, 972, n)] = RZero]]
    [] OTHER -> [n |-> ct, v |-> WideVec(st, n)]
N == Pick2(16, 80)
Big == <<7, 9, 12, 15, 20>>
BigCtors == SelectSeq(Ctors, LAMBDA x : x \notin {"diag_sigmas", "diag_covs"})
Scenarios == Flatten([ct \in 1..Len(Ctors) |-> Flatten([n \in 1..6 |-> [x \in 1..N |->
   LET st == 10000 + 700 * ct + 100 * n + x IN Case(n, Described(Ctors[ct], n, st), st)]])])
  \o Flatten([ct \in 1..Len(BigCtors) |-> Flatten([n \in 1..Len(Big) |-> [x \in 1..Pick2(5, 30) |->
   LET st == 30000 + 700 * ct + 100 * n + x IN Case(Big[n], Described(BigCtors[ct], Big[n], st), st)]])])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
