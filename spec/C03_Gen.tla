------------------------------ MODULE C03_Gen ------------------------------
(* Problems for the histories of C03_Model (given in HIST), and longer random ones: real solvers, extreme          *)
(* parameters (lambda underflows), a second init, the optimizer's own loop.                                         *)
EXTENDS GenProb

Hist == ndJsonDeserialize(IOEnv.HIST)
Noises == <<"none", "scalar_sigma", "vec_sigma", "matrix_cov">>
Kernels == <<"none", "Huber", "Cauchy">>
SmallPools == << <<"V1">>, <<"V2", "V1">>, <<"SE2", "SE2">>, <<"SO3", "V1">>, <<"V1", "SE2", "SO2">>, <<"V3", "V2">>, <<"SO2", "SO2", "V1">>, <<"SE3">> >>
Case(pr, st, modes, inits, leven) ==
  [t |-> "lmstep", vars |-> pr.vars, facs |-> pr.facs, base |-> OneOf(st, 4, <<"chol", "qr", "lu">>), nobs |-> Pick(st, 5, 3), mix |-> Pick(st, 6, 3) = 0, modes |-> modes, inits |-> inits, leven |-> leven]
Prob(p, st) == Problem(SmallPools[p], st, Pick(st, 1, 4), RDec(3, -1), OneOf(st, 2, <<RDec(1, -1), ROne>>), RDec(2, -1), Noises, Kernels)
\* diagonals of J'J from tiny to huge
Scaled(p, st) == Problem(SmallPools[p], st, Pick(st, 1, 3), RDec(3, -1), OneOf(st, 2, <<RDec(1, -1), ROne>>), RDec(2, -1), <<"spread", "weak", "strong">>, <<"none">>)
FromHist == [i \in 1..Len(Hist) |-> LET st == 8 * (i % 2000) IN Case(Prob(1 + (i % Len(SmallPools)), st), st, Hist[i].modes, <<Hist[i].steps>>, Hist[i].leven)]

Modes == <<"true", "true", "true", "zero", "neg", "nan", "big", "tiny", "half", "double", "inf">>
Levens(st) ==
  [min |-> OneOf(st, 20, <<RZero, RZero, RDec(1, -9), RDec(1, -4), ROne>>), max |-> OneOf(st, 21, <<RInt(100000), RInt(100000), ROne, RDec(1, -3), RZero, RDec(1, 18), RDec(1, 30)>>),
   fac |-> OneOf(st, 22, <<RInt(10), RTwo, RInt(3), RDec(15, -1), RInt(1000), RDec(1, 200)>>), diag |-> Pick(st, 23, 2) = 0]
Rnd(p, st) ==
  LET many == Pick(st, 24, 3) = 0
      modes == [i \in 1..Pick2(12, 24) |-> IF many THEN OneOf(st, 30 + i, <<"zero", "neg", "nan">>) ELSE OneOf(st, 30 + i, Modes)] IN
  Case(IF Pick(st, 27, 3) = 0 THEN Scaled(p, st) ELSE Prob(p, st), st, IF Pick(st, 25, 4) = 0 THEN <<>> ELSE modes, OneOf(st, 26, <<<<4>>, <<2, 2>>, <<1, 3>>, <<8>>>>), Levens(st))
N == Pick2(20, 200)
Random == Flatten([p \in 1..Len(SmallPools) |-> [i \in 1..N |-> Rnd(p, 20000 + 4000 * p + 8 * i)]])
UnitPools == << <<"V1">>, <<"V2", "V1">>, <<"V3", "V2">>, <<"V1", "V1", "V2">> >>
Units == <<RDec(1, -18), RDec(1, -15), RDec(1, -13), RDec(1, -11), RDec(1, -9), RDec(1, -6), RDec(1, 6), RDec(1, 9)>>
Others == Flatten([p \in 1..Len(UnitPools) |-> [i \in 1..N |-> LET st == 60000 + 4000 * p + 8 * i IN
            Case(InUnits(UnitPools[p], st, Pick(st, 1, 3), OneOf(st, 3, Units), <<"none", "scalar_sigma", "vec_sigma">>), st, <<>>, <<OneOf(st, 7, <<1, 2>>)>>, [Levens(st) EXCEPT !.max = RInt(100000)])]])
\* systems of several dozen columns; the damping is made to matter
WidePools == << [i \in 1..7 |-> "SE3"], [i \in 1..14 |-> "SE2"], [i \in 1..40 |-> "V1"], [i \in 1..8 |-> IF i % 2 = 0 THEN "V6" ELSE "V5"], [i \in 1..15 |-> <<"SO3", "V3", "V1">>[1 + (i % 3)]] >>
Wide(p, st) ==
  Case(Problem(WidePools[p], st, 5 + Pick(st, 1, 10), RDec(3, -1), RDec(3, -1), RDec(2, -1), Noises, <<"none">>), st, IF Pick(st, 25, 2) = 0 THEN <<>> ELSE <<"neg", "neg", "neg", "neg", "true", "true">>, <<2>>,
       [min |-> OneOf(st, 20, <<RZero, RDec(1, -1), ROne>>), max |-> RInt(100000), fac |-> OneOf(st, 22, <<RInt(10), RInt(30)>>), diag |-> Pick(st, 23, 3) > 0])
Wides == Flatten([p \in 1..Len(WidePools) |-> [i \in 1..Pick2(4, 20) |-> Wide(p, 80000 + 2000 * p + 8 * i)]])
\* identity damping gives an answer also where no factor touches a variable (it stays where it is)
Loose(p, st) ==
  LET pr == Prob(p, st)   k == OneOf(st, 8, <<"V1", "V3", "SE2", "SO3", "SE3", "SO2">>)
      free == <<Var(<<"q", 1>>, k, El(k, st, 77))>> \o (IF Pick(st, 9, 3) = 0 THEN <<Var(<<"q", 2>>, "V2", El("V2", st, 78))>> ELSE <<>>)
      more == [pr EXCEPT !.vars = IF Pick(st, 10, 2) = 0 THEN free \o pr.vars ELSE pr.vars \o free]
  IN Case(more, st, IF Pick(st, 25, 2) = 0 THEN <<>> ELSE <<"neg", "true", "nan", "true", "true">>, <<2>>,
          [min |-> OneOf(st, 20, <<RZero, RDec(1, -4), ROne>>), max |-> RInt(100000), fac |-> OneOf(st, 22, <<RInt(10), RTwo>>), diag |-> FALSE])
Looses == Flatten([p \in 1..Len(SmallPools) |-> [i \in 1..Pick2(4, 20) |-> Loose(p, 92000 + 800 * p + 8 * i)]])
Scenarios == Looses \o Wides \o FromHist \o Random \o Others
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
