------------------------------ MODULE C02_Gen ------------------------------
EXTENDS GenProb

Noises == <<"none", "unit", "scalar_sigma", "vec_sigma", "vec_inf", "matrix_cov", "matrix_inf", "user">>
Kernels == <<"none", "none", "L2", "L1", "Huber", "Fair", "Cauchy", "GemanMcClure", "Welsch", "Tukey", "user">>
Solvers == <<"chol", "qr", "lu", "user">>
Case(pr, st, affine) == [t |-> "gnstep", vars |-> pr.vars, facs |-> pr.facs, vs |-> pr.vs, solver |-> OneOf(st, 4, Solvers), steps |-> OneOf(st, 5, <<1, 2, 3>>), affine |-> affine,
  mix |-> Pick(st, 6, 2) = 0]      \* mix: init and every step get maps of the same variables with different histories
Offs == <<RZero, RDec(1, -6), RDec(1, -1), RDec(5, -1), ROne>>
ApartPools == << <<"V1", "V1", "V2", "V3">>, <<"V2", "SE2", "SO2", "V1">>, <<"SO3", "V3", "SE3">>, <<"V6", "BIAS", "V1", "V4">>, [i \in 1..8 |-> "V1"] >>
N == Pick2(20, 60)
Mixed == Flatten([p \in 1..Len(ProbPools) |-> [i \in 1..N |-> LET st == 1500 * p + 20 * i IN
           Case(Problem(ProbPools[p], st, Pick(st, 1, 6), RDec(1, -1), OneOf(st, 2, Offs), RDec(2, -1), Noises, Kernels), st, FALSE)]])
Affine == Flatten([p \in 1..Len(VecPools) |-> [i \in 1..N |-> LET st == 30000 + 1500 * p + 20 * i IN
           Case(Problem(VecPools[p], st, Pick(st, 1, 6), ROne, OneOf(st, 2, <<ROne, RInt(100)>>), RZero, Noises, <<"none", "L2">>), st, TRUE)]])
Chains == Flatten([p \in 1..Len(ChainPools) |-> [i \in 1..N |-> LET st == 50000 + 1500 * p + 20 * i IN
           Case(Chain(ChainPools[p], st, Pick(st, 1, 5), RDec(1, -1), OneOf(st, 2, <<RZero, RDec(1, -1), RDec(3, -1)>>), Noises, Kernels), st, FALSE)]])
Decades == <<RDec(1, -7), RDec(1, -5), RDec(1, -4), RDec(1, -2), ROne, RInt(100), RInt(10000)>>
Distant == Flatten([p \in 1..Len(ApartPools) |-> [i \in 1..N |-> LET st == 65000 + 1500 * p + 20 * i IN
           Case(Apart(ApartPools[p], st, Pick(st, 1, 2), Decades, Noises), st, FALSE)]])
Units == <<RDec(1, -18), RDec(1, -15), RDec(1, -13), RDec(1, -11), RDec(1, -9), RDec(1, -6), RDec(1, 6), RDec(1, 9), RDec(1, 12)>>
Others == Flatten([p \in 1..Len(VecPools) |-> [i \in 1..N |-> LET st == 75000 + 1500 * p + 20 * i IN
           Case(InUnits(VecPools[p], st, Pick(st, 1, 4), OneOf(st, 3, Units), Noises), st, FALSE)]])
Scenarios == Others \o Distant \o Mixed \o Affine \o Chains
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
