------------------------------ MODULE C01_Gen ------------------------------
EXTENDS GenProb

\* ---- scripted runs, several on one instance, longer than the model's
Ex == <<RZero, RDec(1, -9), RDec(25, -2), RDec(5, -1), ROne, RTwo, RInt(4), RInt(1000), RDiv(RZero, RZero), RDiv(ROne, RZero), RInt(-1), RInt(-4)>>
\* just above and just below the thresholds
Close == Flatten([i \in 1..5 |-> LET v == <<RDec(1, -6), RDec(1, -9), RDec(25, -2), RDec(5, -1), ROne>>[i] IN
                   <<RMul(v, RAdd(ROne, RDec(1, -10))), RMul(v, RSub(ROne, RDec(1, -10)))>>])
ErrAt(st, m, k) == \* mostly decreasing, so that runs get long
  LET down == RMul(RInt(1024), RExp(RMul(RDec(-7, -1), RInt(k)))) IN IF Pick(st, 100 * m + k, 4) = 0 THEN OneOf(st, 100 * m + 50 + k, Ex \o Close) ELSE down
TolOf(st, k) == OneOf(st, k, <<RZero, RDec(1, -6), RDec(1, -9), RDec(25, -2), RInt(-1), RInt(100), RDec(3, -1), RDec(5, -1), RInt(-1000)>>)
RunOf(st, m) ==
  LET mx == OneOf(st, 10 * m + 1, <<0, 1, 2, 5, 10, 20, 100>>)   fa == IF Pick(st, 10 * m + 2, 3) = 0 THEN 1 + Pick(st, 10 * m + 3, 12) ELSE 0 IN
  [p |-> [max |-> mx, tol |-> TolOf(st, 10 * m + 4), abs |-> TolOf(st, 10 * m + 5), rel |-> TolOf(st, 10 * m + 6)],
   err |-> [k \in 1..(mx + 1) |-> ErrAt(st, m, k)], fail |-> [at |-> fa, why |-> OneOf(st, 10 * m + 7, <<"invalid", "failed", "maxother">>)]]
\* without a limit (the run must end by itself or by a failure), and longer than any small number
Endless(st) == [p |-> [max |-> -1, tol |-> TolOf(st, 4), abs |-> TolOf(st, 5), rel |-> TolOf(st, 6)], err |-> [k \in 1..14 |-> ErrAt(st, 1, k)],
                fail |-> [at |-> 1 + Pick(st, 3, 12), why |-> OneOf(st, 7, <<"invalid", "failed", "maxother">>)]]
LongRun(n) == [p |-> [max |-> n, tol |-> RInt(-1), abs |-> RInt(-1), rel |-> RInt(-1)], err |-> [k \in 1..(n + 1) |-> RDiv(ROne, RInt(k))], fail |-> [at |-> 0, why |-> "none"]]
\* a criterion met only after many steps
LateRun(n, why) == [p |-> [max |-> 5000, tol |-> IF why = 1 THEN RDiv(RTwo, RInt((2 * n) + 3)) ELSE RInt(-1), abs |-> IF why = 2 THEN RDec(25, -2) ELSE RInt(-1), rel |-> IF why = 3 THEN RDec(25, -2) ELSE RInt(-1)],
                    err |-> [k \in 1..(n + 5) |-> IF why = 1 THEN RDiv(ROne, RInt(k)) ELSE IF why = 2 THEN RInt(4 * n - (IF k <= n THEN k ELSE n)) ELSE IF k = 1 THEN RDec(1, 200) ELSE IF k > n THEN RDec(1, -100) ELSE RMul(RDec(1, 200), RExp(RMul(RDec(-7, -1), RInt(k - 1))))],
                    fail |-> [at |-> 0, why |-> "none"]]
Lates == [i \in 1..9 |-> [t |-> "optloop", runs |-> <<LateRun(<<70, 150, 300>>[1 + (i % 3)], 1 + (i \div 4)), RunOf(90200 + i, 2)>>]]
Longs == Lates \o [i \in 1..20 |-> [t |-> "optloop", runs |-> <<Endless(90000 + i), RunOf(90000 + i, 2)>>]] \o [i \in 1..1 |-> [t |-> "optloop", runs |-> <<LongRun(Pick2(1500, 12000)), RunOf(90100, 2)>>]]
Loops == [i \in 1..Pick2(150, 2000) |-> [t |-> "optloop", runs |-> [m \in 1..3 |-> RunOf(i, m)]]]

\* ---- real optimizers
Noises == <<"none", "scalar_sigma", "vec_sigma", "matrix_cov">>
Kernels == <<"none", "none", "Huber", "Cauchy">>
Real(t, pi, st) ==
  LET pr == Problem(ProbPools[pi], st, Pick(st, 1, 5), RDec(1, -1), OneOf(st, 2, <<RZero, RDec(1, -1), RDec(5, -1)>>), RDec(2, -1), Noises, Kernels) IN
  [t |-> t, vars |-> pr.vars, facs |-> pr.facs, opt |-> OneOf(st, 3, <<"gn", "lm">>), solver |-> OneOf(st, 4, <<"chol", "qr", "lu">>), nobs |-> IF Pick(st, 15, 8) = 0 THEN 4 + Pick(st, 5, 20) ELSE 1 + Pick(st, 5, 3),
   p |-> IF Pick(st, 14, 4) = 0 THEN [max |-> 30, tol |-> RInt(-1), abs |-> RInt(-1), rel |-> RInt(-1)] ELSE
         [max |-> OneOf(st, 6, <<0, 1, 2, 3, 10, 100>>), tol |-> OneOf(st, 7, <<RZero, RZero, RDec(1, -3), RDec(5, -1), RInt(1000)>>),
          abs |-> OneOf(st, 8, <<RDec(1, -6), RDec(1, -6), RZero, RDec(1, -2)>>), rel |-> OneOf(st, 9, <<RDec(1, -6), RZero, RDec(1, -2), RDec(5, -1)>>)],
   idx |-> [i \in 1..3 |-> OneOf(st, 10 + i, <<1, 2, 3, 7, 0, 41, 70000, 16777217, 2147483647>>)]]
Reals == Flatten([p \in 1..Len(ProbPools) |-> [i \in 1..Pick2(12, 100) |-> Real("optobs", p, 20000 + 1500 * p + 12 * i)]])
Directs == Flatten([p \in 1..Len(ProbPools) |-> [i \in 1..Pick2(4, 30) |-> Real("optdirect", p, 50000 + 1500 * p + 12 * i)]])
Scenarios == Longs \o Loops \o Reals \o Directs
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
