------------------------------ MODULE C22_Gen ------------------------------
(* Worlds: a hidden truth, measurements of it without error (and, among robust ones, a few gross ones), and values  *)
(* to start from that are off the truth.                                                                              *)
EXTENDS GenProb, GenImu

Noises == <<"none", "unit", "scalar_sigma", "vec_sigma", "vec_inf", "matrix_cov", "matrix_inf", "user">>
Kernels == <<"none", "none", "none", "L2", "L1", "Huber", "Fair", "Cauchy", "GemanMcClure", "Welsch", "Tukey", "user">>
Offs == <<RDec(1, -6), RDec(1, -3), RDec(5, -2), RDec(1, -1), RDec(2, -1)>>
Opts == <<"gn", "lm", "lmi">>
Solvers == <<"chol", "qr", "lu">>
\* as constructed, or until nothing more is gained (L1 is not a square, Fair rounds like one that is not)
ParOf(st, abs, own) == IF ~own /\ Pick(st, 4, 3) = 0 THEN [max |-> 100, tol |-> RZero, abs |-> RDec(1, -6), rel |-> RDec(1, -6), own |-> FALSE]
             ELSE [max |-> 100, tol |-> RDec(1, IF abs THEN -16 ELSE -26), abs |-> RZero, rel |-> RZero, own |-> TRUE]
World(st, vars, truth, facs, imus, file, gross) ==
  [t |-> "recover", vars |-> vars, truth |-> truth, facs |-> facs, imus |-> imus, file |-> file, gross |-> gross, unit |-> RZero, robust |-> \E x \in 1..Len(facs) : facs[x].kernel.n \notin {"none", "L2"},
   opt |-> OneOf(st, 5, Opts), solver |-> OneOf(st, 6, Solvers), p |-> ParOf(st, \E x \in 1..Len(facs) : facs[x].kernel.n \in {"L1", "Fair"}, FALSE)]
NoFile == <<>>

MixPools == << <<"V1", "V1", "V2">>, <<"V2", "V1", "V3", "V2">>, <<"SE2", "SE2", "SE2">>, <<"SO2", "SE2", "SO2">>, <<"SO3", "SO3", "V3">>, <<"SE3", "SE3">>, <<"SE2", "V2", "V2", "SE2">>,
               <<"SO2", "V1", "SE2", "SO3">>, <<"SE3", "V3", "BIAS">>, <<"V6", "V4", "V5">>, <<"SO2", "SE2", "SO3", "SE3", "V2">> >>
\* any attitude, half turns included
TruthsOf(pool, st) == IF Pick(st, 10, 2) = 0 THEN Truths(pool, st) ELSE [i \in 1..Len(pool) |-> El(pool[i], st, i)]
Mixed(i, st) ==
  LET pool == MixPools[1 + (i % Len(MixPools))]   off == OneOf(st, 2, Offs)   T == TruthsOf(pool, st)
      pr == ProblemAt(pool, T, st, 1 + Pick(st, 1, 4), RZero, off, RDec(1, -1), Noises, Kernels)
  IN World(st, pr.vars, T, pr.facs, <<>>, NoFile, FALSE)
\* vectors from far away: the problem is linear, so no distance is too far
Faraway(i, st) ==
  LET pool == VecPools[1 + (i % Len(VecPools))]   T == Truths(pool, st)
      pr == ProblemAt(pool, T, st, 1 + Pick(st, 1, 4), RZero, OneOf(st, 2, <<RInt(10), RInt(1000), RDec(1, 5)>>), RZero, Noises, <<"none", "L2">>)
  IN World(st, pr.vars, T, pr.facs, <<>>, NoFile, FALSE)
\* vectors in other units
Units(i, st) ==
  LET pool == VecPools[1 + (i % Len(VecPools))]   unit == OneOf(st, 2, <<RDec(1, -6), RDec(1, -3), RDec(1, 3), RDec(1, 6)>>)
      pr == InUnitsAt(pool, st, Pick(st, 1, 4), unit, RZero, Noises)
      w == World(st, pr.vars, UnitTruths(pool, st, unit), pr.facs, <<>>, NoFile, FALSE)
  IN [w EXCEPT !.unit = unit, !.p = ParOf(0, FALSE, TRUE)]
\* almost there already
Nearby(i, st) ==
  LET pool == MixPools[1 + (i % Len(MixPools))]   off == OneOf(st, 2, <<RDec(1, -9), RDec(1, -7)>>)   T == TruthsOf(pool, st)
      pr == ProblemAt(pool, T, st, 1 + Pick(st, 1, 4), RZero, off, RDec(1, -1), Noises, <<"none", "L2", "Huber", "Cauchy", "Tukey">>)
      w == World(st, pr.vars, T, pr.facs, <<>>, NoFile, FALSE)
  IN [w EXCEPT !.unit = off, !.opt = "gn", !.p = ParOf(0, FALSE, TRUE)]

\* a gross measurement, under a kernel that gives it no weight at all
Gross(a, b, pool, T, names, st) ==
  LET k == pool[a]   z == RawMul(k, RawMul(k, RawInv(k, T[a]), T[b]), RawOf(k, Axis(st, 77), RDec(2, 0), 1, [i \in 1..6 |-> RInt(2 + i)])) IN
  [res |-> [r |-> "between", kind |-> k, z |-> z], keys |-> <<names[a], names[b]>>, noise |-> [n |-> "scalar_sigma", v |-> <<RDec(1, -2)>>],
   kernel |-> OneOf(st, 78, << [n |-> "Tukey"], [n |-> "Tukey", c |-> ROne], [n |-> "Welsch"] >>), swap |-> FALSE]
Chains(i, st) ==
  LET pool == ChainPools[1 + (i % Len(ChainPools))]   n == Len(pool)   off == OneOf(st, 2, Offs)
      T == TruthsOf(pool, st)
      pr == ChainAt(pool, T, st, Pick(st, 1, 4), RZero, off, Noises, Kernels)
      names == Named(st, n)
      gross == [x \in 1..Pick(st, 7, 3) |-> Gross(1 + Pick(st, 8 + x, n - 1), n, pool, T, names, st + x)]
      at == Pick(st, 9, Len(pr.facs) + 1)
  IN World(st, pr.vars, T, SubSeq(pr.facs, 1, at) \o gross \o SubSeq(pr.facs, at + 1, Len(pr.facs)), <<>>, NoFile, gross # <<>>)
\* a long trajectory that moves a little at each step, with loops: the initial values are dead reckoning that drifts
Kin(k, st, i) == RawOf(k, Axis(st, 8 * i + 2), RMul(RDec(4, -1), U(st, 512 * i + 7)), IF Pick(st, 512 * i + 8, 2) = 0 THEN 1 ELSE -1, SymVec(st, 8 * i + 4, 6))
RECURSIVE Walk(_, _, _, _)
Walk(k, st, n, drift) == IF n = 1 THEN <<Mild(k, st, 1)>>
                         ELSE LET w == Walk(k, st, n - 1, drift)   step == Kin(k, st, n % 60) IN
                              Append(w, RawMul(k, w[n - 1], IF RLe(drift, RZero) THEN step ELSE RawMul(k, step, Small(k, st, n % 60, drift))))
Trajectory(k, st, n, drift) ==
  LET T == Walk(k, st, n, RZero)   S == Walk(k, st, n, drift)   pool == [i \in 1..n |-> k]
      names == [i \in 1..n |-> <<OneOf(st, 3, Letters), (i * 7) % 1009>>]
      lk(x) == LET a == 1 + Pick(st, 8600 + x, n)   b == 1 + ((a + Pick(st, 8650 + x, n - 1)) % n) IN <<a, b>>
      nl == n \div 4
      fs == <<PriorFac(1, pool, T, names, st + 30, RZero, Noises, <<"none">>)>>
            \o [i \in 1..(n - 1) |-> BetweenFac(i, i + 1, pool, T, names, st + (i % 16), RZero, Noises, <<"none">>)]
            \o [x \in 1..nl |-> BetweenFac(lk(x)[1], lk(x)[2], pool, T, names, st + (x % 16), RZero, Noises, Kernels)]
      sh == Shuffled(fs, st, 8800)
      w == World(st, [i \in 1..n |-> Var(names[i], k, S[i])], T, [x \in 1..Len(sh) |-> sh[x].f], <<>>, NoFile, FALSE)
      \* over long distances Levenberg-Marquardt, which looks at the linearized cost only, may go uphill and stop there
  IN IF Thorough THEN [w EXCEPT !.opt = "gn"] ELSE w

\* a graph of a thousand variables and more, each starting near its place
Large(k, st, n) ==
  LET T == [i \in 1..n |-> Mild(k, st + (i \div 60), i % 60)]   pool == [i \in 1..n |-> k]
      names == [i \in 1..n |-> <<Letters[1 + (i % 3)], (i * 7919) % 10007>>]
      nl == n \div 4
      ns == <<"none", "unit", "scalar_sigma", "vec_sigma", "matrix_cov">>
      fs == <<PriorFac(1, pool, T, names, st + 30, RZero, ns, <<"none">>)>>
            \o [i \in 1..(n - 1) |-> BetweenFac(i, i + 1, pool, T, names, st + (i % 64), RZero, ns, <<"none">>)]
            \o [x \in 1..nl |-> LET a == 1 + Pick(st, 8600 + x, n)   b == 1 + ((a + Pick(st, 18650 + x, 9)) % n) IN BetweenFac(a, b, pool, T, names, st + (x % 64), RZero, ns, <<"none">>)]
      m == Len(fs)
      w == World(st, [i \in 1..n |-> Var(names[i], k, Near(k, T[i], st + (i \div 60), 70 + (i % 60), RDec(5, -2)))], T, [x \in 1..m |-> fs[1 + ((x * 7919) % m)].f], <<>>, NoFile, FALSE)
  IN [w EXCEPT !.p = ParOf(0, FALSE, TRUE)]

\* inertial: states 1..m linked by preintegrated measurements only, known at one end
ImuRates == <<RZero, RDec(1, -3), RDec(1, -1), RDec(5, -1), ROne>>
ImuLink(st, j, b, g, gname, qq) ==
  LET n == 1 + Pick(st, 50020 + j, 6)
      b0 == IF Pick(st, 50030 + j, 2) = 0 THEN b ELSE VAdd(b, Bias(st, 680 + j, RDec(3, -2)))
      ms == [i \in 1..n |-> [gyro |-> VAdd(SubSeq(b, 1, 3), VScale(OneOf(st, 100 * i + 41000 + j, ImuRates), Axis(st, 700 + 20 * j + 2 * i))),
                             accel |-> VAdd(SubSeq(b, 4, 6), Vec3(st, 900 + 20 * j + i, RInt(3))), dt |-> OneOf(st, 100 * i + 42000 + j, <<RDec(2, -3), RDec(1, -2), RDec(5, -2), RDec(1, -1), RDec(3, -1)>>)]]
  IN [b0 |-> b0, ms |-> ms, s |-> ImuRun(ImuInit, ms, n, b0, qq.q)]
RECURSIVE States(_, _, _, _, _)
States(st, links, n, b, g) ==
  IF n = 1 THEN <<[x |-> Mild("SE3", st, 1), v |-> Vec3(st, 401, RTwo)]>>
  ELSE LET w == States(st, links, n - 1, b, g)   h == w[n - 1]   lk == links[n - 1]   inc == Incr(lk.s, lk.b0, b)
           pr == Predict(lk.s, inc, MBlock(Mat("SE3", h.x), 0, 0, 3, 3), SubSeq(h.x, 5, 7), h.v, g)
       IN Append(w, [x |-> QMul(SubSeq(h.x, 1, 4), QExp(inc.th)) \o pr.p, v |-> pr.v])
Inertial(st, m) ==
  LET gname == OneOf(st, 50002, <<"up", "down", "vec", "zero">>)   g == GravVec(gname, st)
      b == IF Pick(st, 50000, 4) = 0 THEN VZero(6) ELSE Bias(st, 640, RDec(1, -1))
      qq == QOf(OneOf(st, 50004, <<"default", "scalars", "matrices">>), st)
      links == [j \in 1..(m - 1) |-> ImuLink(st, j, b, g, gname, qq)]
      ss == States(st, links, m, b, g)
      pool == Flatten([i \in 1..m |-> <<"SE3", "V3", "BIAS">>])
      T == Flatten([i \in 1..m |-> <<ss[i].x, ss[i].v, b>>])
      nm(i) == Pick(st, 50003, 40) + i
      names == Flatten([i \in 1..m |-> << <<"x", nm(i)>>, <<"v", nm(i)>>, <<"b", nm(i)>> >>])
      off == OneOf(st, 2, <<RDec(1, -4), RDec(1, -3), RDec(1, -2)>>)
      known == IF Pick(st, 50007, 2) = 0 THEN 0 ELSE 3 * (m - 1)
      pk(q) == PriorFac(known + q, pool, T, names, st + q, RZero, <<"firm">>, <<"none">>).f
  IN World(st, [i \in 1..(3 * m) |-> Var(names[i], pool[i], Near(pool[i], T[i], st, 60 + (i % 9), off))], T, <<pk(1), pk(2), pk(3)>>,
           [j \in 1..(m - 1) |-> [b0 |-> links[j].b0, gname |-> gname, g |-> g, qset |-> qq, ms |-> links[j].ms, typed |-> Pick(st, 50008 + j, 2) = 0,
                                  keys |-> SubSeq(names, 3 * j - 2, 3 * j + 3)]], NoFile, FALSE)

\* a g2o file: vertices off the truth except the anchor, which is the first vertex line, edges without error
Tri(n, M) == Flatten([i \in 1..n |-> [j \in 1..(n + 1 - i) |-> M[i][i + j - 1]]])
NumsOf(k, raw, ang) == IF k = "SE2" THEN <<raw[3], raw[4], ang>> ELSE <<raw[5], raw[6], raw[7], raw[1], raw[2], raw[3], raw[4]>>
Filed(k, st, n) ==
  LET \* in the plane angles are kept along with the elements, as the file has angles
      ang == [i \in 1..n |-> RMul(RInt(2), Sym(st, 512 * i + 506))]
      noise == [i \in 1..n |-> IF i = 1 THEN RZero ELSE RMul(RDec(1, -1), Sym(st, 512 * i + 507))]
      T == [i \in 1..n |-> IF k = "SE2" THEN LET t == SymVec(st, 8 * i + 1, 2) IN <<RCos(ang[i]), RSin(ang[i]), RMul(RTwo, t[1]), RMul(RTwo, t[2])>> ELSE Mild(k, st, i)]
      S == [i \in 1..n |-> IF i = 1 THEN T[1]
             ELSE IF k = "SE2" THEN LET a == RAdd(ang[i], noise[i])  IN <<RCos(a), RSin(a), RAdd(T[i][3], noise[i]), RSub(T[i][4], noise[i])>> ELSE Near(k, T[i], st, 60 + i, RDec(1, -1))]
      ids == [i \in 1..n |-> OneOf(st, 3003, <<0, 0, 3000, 2000000000>>) + ((i * 37 + Pick(st, 3001, 50)) % 211)]
      inf(x) == Tri(TanDim(k), SpdOf(st, 1200 + 10 * x, TanDim(k), RDec(4, -1)))
      edge(x, a, b) == [k |-> "edge", a |-> ids[a], b |-> ids[b], v |-> NumsOf(k, RawMul(k, RawInv(k, T[a]), T[b]), RSub(ang[b], ang[a])), inf |-> inf(x)]
      vs == [i \in 1..n |-> [k |-> "vertex", id |-> ids[i], v |-> NumsOf(k, S[i], RAdd(ang[i], noise[i]))]]
      es == [i \in 1..(n - 1) |-> IF Pick(st, 8750 + i, 2) = 0 THEN edge(i, i, i + 1) ELSE edge(i, i + 1, i)]
            \o [x \in 1..3 |-> LET a == 1 + Pick(st, 8600 + x, n)   b == 1 + ((a + Pick(st, 8650 + x, n - 1)) % n) IN edge(n + x, a, b)]
      rest == Shuffled(SubSeq(vs, 2, n) \o es, st, 8800)
  IN World(st, [i \in 1..n |-> Var(<<"x", ids[i]>>, k, S[i])], T, <<>>, <<>>,
           [kind |-> k, style |-> OneOf(st, 3002, <<"plain", "exp", "crlf", "trail", "nonl", "double", "tabs", "lead">>), lines |-> <<vs[1]>> \o rest], FALSE)

\* in single precision: looser tolerances, and the worlds whose measurements are well conditioned
Coarse(w) == [w EXCEPT !.p = [max |-> 100, tol |-> RDec(1, -6), abs |-> RDec(1, -5), rel |-> RDec(1, -4), own |-> TRUE]]
Singles ==
     [i \in 1..Pick2(80, 600) |-> Coarse(Mixed(i, 20 * i))]
  \o [i \in 1..Pick2(60, 400) |-> Coarse(Chains(i, 33000 + 20 * i))]
  \o Flatten([kk \in 1..2 |-> [i \in 1..Pick2(15, 80) |-> Coarse(Filed(<<"SE2", "SE3">>[kk], 70000 + 5000 * kk + 20 * i, 4 + (i % 7)))]])
Scenarios == IF "SINGLE" \in DOMAIN IOEnv THEN Singles ELSE
     [i \in 1..Pick2(160, 1600) |-> Mixed(i, 20 * i)]
  \o [i \in 1..Pick2(120, 1200) |-> Chains(i, 33000 + 20 * i)]
  \o [i \in 1..Pick2(30, 200) |-> Faraway(i, 50000 + 20 * i)]
  \o [i \in 1..Pick2(30, 200) |-> Units(i, 54000 + 20 * i)]
  \o [i \in 1..Pick2(40, 300) |-> Nearby(i, 80000 + 20 * i)]
  \o [i \in 1..Pick2(16, 60) |-> Trajectory(<<"SE2", "SE3", "V2", "SO3">>[1 + (i % 4)], 60000 + 20 * i, Pick2(30, 80) + i, OneOf(i, 1, <<RDec(1, -3), Pick2(RDec(5, -3), RDec(2, -3))>>))]
  \o [i \in 1..Pick2(2, 12) |-> Large(<<"V1", "SE2", "V3", "SO3">>[1 + ((i + Seed) % 4)], 64000 + 100 * i, Pick2(1030, 1100) + 10 * i)]
  \o [i \in 1..Pick2(24, 200) |-> Inertial(62000 + 20 * i, 2 + (i % 3))]
  \o Flatten([kk \in 1..2 |-> [i \in 1..Pick2(20, 120) |-> Filed(<<"SE2", "SE3">>[kk], 70000 + 5000 * kk + 20 * i, 4 + (i % 7))]])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
