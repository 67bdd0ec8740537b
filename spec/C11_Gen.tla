------------------------------ MODULE C11_Gen ------------------------------
EXTENDS Gen, Diff

Sigs == << [n |-> "SO2", k |-> <<"SO2">>], [n |-> "SE2", k |-> <<"SE2">>], [n |-> "SO3", k |-> <<"SO3">>], [n |-> "SE3", k |-> <<"SE3">>],
           [n |-> "V1", k |-> <<"V1">>], [n |-> "V4", k |-> <<"V4">>], [n |-> "BIAS", k |-> <<"BIAS">>],
           [n |-> "SE2,SE2", k |-> <<"SE2", "SE2">>], [n |-> "SE3,V3", k |-> <<"SE3", "V3">>], [n |-> "V2,SO2", k |-> <<"V2", "SO2">>],
           [n |-> "V1,SE2,SO3", k |-> <<"V1", "SE2", "SO3">>], [n |-> "SE3,SO2,V2", k |-> <<"SE3", "SO2", "V2">>],
           [n |-> "SO2,V3,SE2,V1", k |-> <<"SO2", "V3", "SE2", "V1">>], [n |-> "BIAS,V2,SO3,V2", k |-> <<"BIAS", "V2", "SO3", "V2">>],
           [n |-> "V1,V2,V3,V4,V5", k |-> <<"V1", "V2", "V3", "V4", "V5">>], [n |-> "SO2,SE2,SO3,SE3,V2", k |-> <<"SO2", "SE2", "SO3", "SE3", "V2">>],
           [n |-> "V6,SO3,V1,SE2,SO2,V2", k |-> <<"V6", "SO3", "V1", "SE2", "SO2", "V2">>],
           [n |-> "SE3,V3,BIAS,SE3,V3,BIAS", k |-> <<"SE3", "V3", "BIAS", "SE3", "V3", "BIAS">>] >>

\* element with any rotation class but moderate translation (the functions multiply entries of all arguments)
El(k, st, i) == RawOf(k, Axis(st, 8 * i), AngleOf(st, 512 * i + 500, AllAngles), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
                      VScale(RTwo, SymVec(st, 8 * i + 1, 6)))
Coefs(ks, st, rows, scale) == [r \in 1..rows |-> [i \in 1..Len(ks) |-> VScale(scale, SymVec(st, 100 * r + i, PhiDim(ks[i])))]]
JacCase(sg, x, st) ==
  LET ks == sg.k  rows == 1 + Pick(st, 9000001, 6) IN
  [t |-> "diffjac", sig |-> sg.n, k |-> ks, x |-> [i \in 1..Len(ks) |-> El(ks[i], st, i)],
   a |-> Coefs(ks, st, rows, RTwo), b |-> Coefs(ks, st + 1, rows, RDec(4, -1))]
NJ == Pick2(20, 200)
JacCases == Flatten([g \in 1..Len(Sigs) |-> [x \in 1..NJ |-> JacCase(Sigs[g], x, 2000 * g + 2 * x)]])

NG == Pick2(4, 40)
GrpCases == Flatten([k \in 1..Len(KindSeq) |-> Flatten([n \in 1..6 |-> [x \in 1..NG |->
   LET kd == KindSeq[k]  st == 50000 + 3000 * k + 200 * n + x IN
   [t |-> "diffgrp", kind |-> kd, x |-> [i \in 1..n |-> El(kd, st, i)], 
    word |-> [i \in 1..(IF x % 2 = 0 THEN n ELSE n + 2) |-> IF i <= n THEN i ELSE 1 + Pick(st, 9000040 + i, n)],
    inv |-> [i \in 1..(n + 2) |-> Pick(st, 9000010 + i, 3) = 0]]]])])
PoseCases == [x \in 1..(2 * NG) |-> LET st == 40000 + x IN
   [t |-> "diffpose", swap |-> x % 2 = 0, x |-> <<El("SO3", st, 1), El("V3", st, 2)>>]]
Ops == <<"apply", "applyinv", "exp", "oplus">>
OpPoint(st, n) == VScale(OneOf(st, 3, <<RZero, RZero, RDec(1, -9), ROne, RTwo>>), SymVec(st, 5, n))
OpTan(k, st) == TanOf(k, Axis(st, 8), IF Pick(st, 600, 5) = 0 THEN RZero ELSE AngleOf(st, 500, AllAngles), IF Pick(st, 501, 2) = 0 THEN 1 ELSE -1, OpPoint(st, 6))
OpCases == Flatten([k \in 1..4 |-> Flatten([o \in 1..4 |-> [x \in 1..Pick2(16, 160) |->
   LET kd == LieSeq[k]  st == 70000 + 2000 * k + 400 * o + x  el == El(kd, st, 9) IN
   [t |-> "diffops", op |-> Ops[o], kind |-> kd,
    x |-> CASE o <= 2 -> <<el, OpPoint(st + 200, PtDim(kd))>> [] o = 3 -> <<OpTan(kd, st)>> [] o = 4 -> <<el, OpTan(kd, st)>>]]])])
Fs == <<"poly", "sin", "exp", "rat">>
ScalarCases == [x \in 1..Pick2(60, 600) |-> LET st == 41000 + x IN
   [t |-> "diffscalar", f |-> Fs[1 + (x % 4)], c |-> VScale(RTwo, SymVec(st, 1, 4)), x |-> RMul(OneOf(st, 7, <<RZero, RDec(1, -3), ROne, RInt(3)>>), Sym(st, 8))]]

Scenarios == JacCases \o OpCases \o GrpCases \o PoseCases \o ScalarCases
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
