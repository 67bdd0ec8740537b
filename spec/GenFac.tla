------------------------------- MODULE GenFac -------------------------------
(* Generated variables, noise descriptions, kernels and factors.                                               *)
EXTENDS Gen, Diff

Letters == <<"x", "l", "a", "z", "b">>
\* distinct keys that do not sort in the order of their use
\* (now and then the first and the last key there are: "nul" is character 0, "max" the last one)
KeyNo(st, i) ==
  IF Pick(st, 9902, 4) = 0 /\ i = 1 + Pick(st, 9903, 4) THEN <<"nul", 0>>
  ELSE IF Pick(st, 9902, 4) = 0 /\ i = 5 + Pick(st, 9904, 3) THEN <<"max", 2147483647>>
  ELSE <<Letters[1 + ((Pick(st, 9900, 5) + 3 * i) % 5)], (7 * i + Pick(st, 9901, 50)) % 97>>

\* element with any rotation class and moderate translation
El(k, st, i) == RawOf(k, Axis(st, 8 * i), AngleOf(st, 512 * i + 500, AllAngles), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
                      VScale(RTwo, SymVec(st, 8 * i + 1, 6)))
\* generic element: rotation well below pi
Mild(k, st, i) == RawOf(k, Axis(st, 8 * i), Between(st, 512 * i + 500, RZero, RDec(15, -1)), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
                      VScale(RTwo, SymVec(st, 8 * i + 1, 6)))

SpdOf(st, k, n, ridge) ==
  LET G == [i \in 1..n |-> SymVec(st, k + i, n)]
      T == MAdd(MMul(G, MT(G)), MScale(ridge, MId(n)))
  IN [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN T[i][j] ELSE T[j][i]]]
PosOf(st, k) == RMul(OneOf(st, 2 * k, <<RDec(1, -1), ROne, RInt(4)>>), RAdd(RDec(3, -1), U(st, 2 * k + 1)))
NoiseKinds == <<"none", "unit", "scalar_sigma", "vec_sigma", "vec_inf", "matrix_cov", "matrix_inf", "user">>
NoiseOf(nk, st, n) ==
  CASE nk \in {"none", "unit"} -> [n |-> nk]
    [] nk = "scalar_sigma" -> [n |-> nk, v |-> <<PosOf(st, 8000)>>]
    [] nk \in {"vec_sigma", "vec_inf"} -> [n |-> nk, v |-> [i \in 1..n |-> PosOf(st, 8010 + i)]]
    [] nk \in {"matrix_cov", "matrix_inf"} -> [n |-> nk, m |-> SpdOf(st, 210, n, RDec(3, -1))]
    [] nk = "spread" -> [n |-> "vec_sigma", v |-> [i \in 1..n |-> RMul(OneOf(st, 8060 + i, <<RDec(1, -3), RDec(1, -1), ROne, RInt(30), RInt(1000)>>), PosOf(st, 8010 + i))]]
    [] nk = "weak" -> [n |-> "scalar_sigma", v |-> <<RMul(OneOf(st, 8060, <<RInt(30), RInt(1000), RInt(100000)>>), PosOf(st, 8000))>>]
    [] nk = "firm" -> [n |-> "scalar_sigma", v |-> <<RMul(OneOf(st, 8060, <<RDec(1, -1), RDec(1, -2), RDec(3, -3)>>), PosOf(st, 8000))>>]
    [] nk = "strong" -> [n |-> "scalar_sigma", v |-> <<RMul(OneOf(st, 8060, <<RDec(3, -2), RDec(1, -3), RDec(1, -6)>>), PosOf(st, 8000))>>]
    [] nk = "user" -> [n |-> nk, m |-> MAdd([i \in 1..n |-> SymVec(st, 220 + i, n)], MScale(RTwo, MId(n)))]
KernelKinds == <<"none", "L2", "L1", "Huber", "Fair", "Cauchy", "GemanMcClure", "Welsch", "Tukey", "user">>
KernelOf(kk, st) ==
  IF kk \in {"none", "L2", "L1"} THEN [n |-> kk]
  ELSE IF kk # "user" /\ Pick(st, 8300, 3) = 0 THEN [n |-> kk]
  ELSE [n |-> kk, c |-> RAdd(RDec(3, -1), RMul(RTwo, U(st, 8301)))]

FacSigs == << [n |-> "SO2", k |-> <<"SO2">>], [n |-> "SE2", k |-> <<"SE2">>], [n |-> "SO3", k |-> <<"SO3">>], [n |-> "SE3", k |-> <<"SE3">>],
              [n |-> "V1", k |-> <<"V1">>], [n |-> "V2", k |-> <<"V2">>], [n |-> "V3", k |-> <<"V3">>],
              [n |-> "V1,V1", k |-> <<"V1", "V1">>], [n |-> "V2,V2", k |-> <<"V2", "V2">>], [n |-> "V3,V3", k |-> <<"V3", "V3">>],
              [n |-> "V2,V1", k |-> <<"V2", "V1">>], [n |-> "V1,V3", k |-> <<"V1", "V3">>], [n |-> "V2,V3", k |-> <<"V2", "V3">>],
              [n |-> "SE2,SE2", k |-> <<"SE2", "SE2">>], [n |-> "SE2,V2", k |-> <<"SE2", "V2">>], [n |-> "SO2,SE2", k |-> <<"SO2", "SE2">>],
              [n |-> "SE3,V3", k |-> <<"SE3", "V3">>],
              [n |-> "V1,SE2,SO3", k |-> <<"V1", "SE2", "SO3">>], [n |-> "V2,V1,V3", k |-> <<"V2", "V1", "V3">>],
              [n |-> "SO2,V3,SE2,V1", k |-> <<"SO2", "V3", "SE2", "V1">>],
              [n |-> "SO2,SE2,SO3,SE3,V2", k |-> <<"SO2", "SE2", "SO3", "SE3", "V2">>],
              [n |-> "V1,V2,V3,V4,V5", k |-> <<"V1", "V2", "V3", "V4", "V5">>],
              [n |-> "V6,SO3,V1,SE2,SO2,V2", k |-> <<"V6", "SO3", "V1", "SE2", "SO2", "V2">>],
              [n |-> "SE3,V3,BIAS,SE3,V3,BIAS", k |-> <<"SE3", "V3", "BIAS", "SE3", "V3", "BIAS">>] >>
SigNo(n) == CHOOSE i \in 1..Len(FacSigs) : FacSigs[i].n = n

Coefs(ks, st, rows, scale) == [r \in 1..rows |-> [i \in 1..Len(ks) |-> VScale(scale, SymVec(st, 100 * r + i, PhiDim(ks[i])))]]
\* a residual of the combined family (b = 0 makes it affine in the features)
CombRes(sg, st, rows, bscale) ==
  [r |-> "comb", sig |-> sg.n, a |-> Coefs(sg.k, st, rows, ROne), b |-> Coefs(sg.k, st + 1, rows, bscale), c |-> VScale(RTwo, SymVec(st, 90, rows))]
UnaryRes(k, st) == [r |-> "prior", kind |-> k, z |-> Mild(k, st, 40)]
BinaryRes(k, st) == [r |-> "between", kind |-> k, z |-> Mild(k, st, 41)]
Var(key, k, raw) == [key |-> key, kind |-> k, raw |-> raw]
=============================================================================
