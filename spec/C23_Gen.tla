------------------------------ MODULE C23_Gen ------------------------------
EXTENDS GenProb

Shown == <<"V2", "V3", "SO2", "SE2", "SO3", "SE3">>
Far(k, raw, f) == CASE k = "SE2" -> SubSeq(raw, 1, 2) \o VScale(f, SubSeq(raw, 3, 4)) [] k = "SE3" -> SubSeq(raw, 1, 4) \o VScale(f, SubSeq(raw, 5, 7))
                    [] k \in {"V2", "V3"} -> VScale(f, raw) [] OTHER -> raw
Factors == <<ROne, ROne, ROne, ROne, RInt(1000), RDec(1, 7), RDec(1, 30), RDec(1, -6), RDec(1, -20), RZero>>
AnyEl(k, st, i) == Far(k, El(k, st, i), OneOf(st, 512 * i + 503, Factors))
Ones == Flatten([a \in 1..Len(Shown) |-> [x \in 1..Pick2(40, 400) |-> LET st == 1000 * a + x IN
  [t |-> "shown", vars |-> [i \in 1..2 |-> Var(KeyNo(st, i), Shown[a], AnyEl(Shown[a], st, i))]]]])
Gathered == <<"V2", "V3", "SE2", "SE3">>
Alls == Flatten([a \in 1..Len(Gathered) |-> [x \in 1..Pick2(20, 120) |-> LET st == 8000 + 500 * a + x   n == IF x < 4 THEN x - 1 ELSE Pick(st, 1, IF x % 7 = 0 THEN 300 ELSE 12) IN
  [t |-> "showall", kind |-> Gathered[a], vars |-> [i \in 1..n |-> [raw |-> AnyEl(Gathered[a], st, i)]]]]])

\* observers: types and topics
Obs == << [kind |-> "V2", to |-> "Points2D"], [kind |-> "V3", to |-> "Points3D"], [kind |-> "SE2", to |-> "Arrows2D"], [kind |-> "SE2", to |-> "Points2D"],
          [kind |-> "SE3", to |-> "Arrows3D"], [kind |-> "SE3", to |-> "Points3D"] >>
Topics == <<"base/solution", "traj", "a/b/c", "topic_4", "Land", "m/1">>
ObsOf(st, k) == LET n == 1 + Pick(st, k, 4)   p == Permutation(st, k + 1, Len(Obs))   q == Permutation(st, k + 21, Len(Topics)) IN
  [i \in 1..n |-> [kind |-> Obs[p[i]].kind, to |-> Obs[p[i]].to, topic |-> Topics[q[i]]]]
ShowPools == Pools \o << <<"SE2", "SE2", "SE2", "SE2", "V2", "V2", "V2">>, <<"SE3", "SE3", "SE3", "V3", "V3", "V3", "SO3">>, <<"SE2", "SE3", "V2", "V3">>, <<>>, <<"SE2">>, <<"SE3">>, <<"V2">>, <<"V3">> >>
Times == <<ROne, RTwo, RInt(3), RInt(17), RInt(1000), RZero, RDec(25, -1)>>
\* the set of variables may change between steps
StepOf(pool, st, m) ==
  LET keep == SelectSeq([i \in 1..Len(pool) |-> i], LAMBDA i : Pick(st, 5000 + 40 * m + i, 5) # 0) IN
  [at |-> IF Pick(st, 5900 + m, 3) = 0 THEN OneOf(st, 5950 + m, Times) ELSE RInt(m),
   vars |-> [i \in 1..Len(keep) |-> Var(KeyNo(st, keep[i]), pool[keep[i]], RndGeneric(pool[keep[i]], st + (5000 * m), keep[i]))]]
Steps == Flatten([p \in 1..Len(ShowPools) |-> [x \in 1..Pick2(4, 30) |-> LET st == 20000 + 300 * p + x IN
  [t |-> "showsteps", obs |-> ObsOf(st, 1), steps |-> [m \in 1..(1 + Pick(st, 2, 6)) |-> StepOf(ShowPools[p], st, m)]]]])
RunPools == << <<"SE2", "SE2", "SE2">>, <<"SE3", "SE3">>, <<"SE2", "V2", "V2", "SE2">>, <<"SE3", "V3", "BIAS">>, <<"V2", "V1", "V3", "V2">>, <<"SO3", "SO3", "V3">> >>
Runs == Flatten([p \in 1..Len(RunPools) |-> [x \in 1..Pick2(4, 30) |-> LET st == 50000 + 1000 * p + 12 * x
     pr == Problem(RunPools[p], st, Pick(st, 1, 5), RDec(1, -1), RDec(1, -1), RDec(2, -1), <<"none", "scalar_sigma">>, <<"none", "Huber">>) IN
  [t |-> "showrun", vars |-> pr.vars, facs |-> pr.facs, opt |-> OneOf(st, 3, <<"gn", "lm">>), obs |-> ObsOf(st, 4),
   p |-> [max |-> OneOf(st, 6, <<0, 1, 2, 5, 100>>), tol |-> RZero, abs |-> RDec(1, -6), rel |-> RDec(1, -6)]]]])
Scenarios == Ones \o Alls \o Steps \o Runs
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
