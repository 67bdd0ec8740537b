------------------------------ MODULE C15_Gen ------------------------------
(* Kernels over thresholds and residual sizes: zero, tiny, around each kernel's own switch, ordinary, huge.    *)
EXTENDS Gen, Cost

Kernels == <<"L2", "L1", "Huber", "Fair", "Cauchy", "GemanMcClure", "Welsch", "Tukey">>
Params == << RDec(1, -4), RInt(2000), RDec(5, -2), RDec(5, -1), ROne, RDec(1345, -3), RInt(3), RInt(25) >>
NP == Pick2(4, 60)
KernelCase(k, c, dflt, st) ==
  LET th == RSq(c)
      around(x) == << RMul(x, RSub(ROne, RDec(1, -3))), RMul(x, RSub(ROne, RDec(1, -9))), x, RMul(x, RAdd(ROne, RDec(1, -9))), RMul(x, RAdd(ROne, RDec(1, -3))) >>
      fixed == << RZero, RDec(1, -24), RDec(1, -16), RDec(1, -10), RDec(1, -8), RDec(1, -6), RDec(1, -4), RDec(25, -2), RInt(4), RInt(10), RInt(100), RInt(10000), RDec(1, 8), RDec(1, 14), RDec(1, 30), RDec(1, 100), RDec(1, -40) >>
      rnd == [i \in 1..Pick2(20, 60) |-> RMul(OneOf(st, 2 * i, <<RDec(1, -4), ROne, RInt(9), RInt(400), RDec(1, 6)>>), U(st, 2 * i + 1))]
      rel == [i \in 1..Pick2(12, 40) |-> RMul(th, RMul(OneOf(st, 500 + 2 * i, <<RDec(1, -2), ROne, RInt(4), RInt(16), RInt(100), RInt(600)>>), U(st, 501 + 2 * i)))]
      all == fixed \o around(th) \o around(RDec(1, -3)) \o rnd \o rel
  IN [t |-> "kernel", kernel |-> IF dflt THEN [n |-> k] ELSE [n |-> k, c |-> c], d2 |-> all]
Scenarios == Flatten([k \in 1..Len(Kernels) |->
   LET kn == Kernels[k] IN
   IF kn \in {"L1", "L2"} THEN << KernelCase(kn, ROne, TRUE, 100 * k) >>
   ELSE << KernelCase(kn, DefaultParam(kn), TRUE, 100 * k) >>
        \o [p \in 1..Len(Params) |-> KernelCase(kn, Params[p], FALSE, 100 * k + p)]
        \o [p \in 1..NP |-> KernelCase(kn, RAdd(RDec(1, -2), RMul(RInt(10), U(100 * k, 700 + p))), FALSE, 100 * k + 20 + p)]])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
