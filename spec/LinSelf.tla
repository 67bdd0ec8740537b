------------------------------ MODULE LinSelf ------------------------------
(* The Java evaluation of Lin against the definitions written in Lin.tla.  TLC runs this twice: without Lin.java,   *)
(* where the definitions themselves are evaluated and written to OUT, and with it, where the results are compared;  *)
(* MSolve and MDet, which have no executable definition, are checked against what they mean.                        *)
EXTENDS Lin, TLC, IOUtils, Json

Seed == atoi(IOEnv.VERIF_SEED) % 1000
Rn(st, k) == RMul(RSub(RMul(RTwo, RUnif(Seed * 1000000 + st, k)), ROne), RDec(3, -(k % 3)))
V(st, n) == [i \in 1..n |-> Rn(st, i)]
M(st, r, c) == [i \in 1..r |-> [j \in 1..c |-> Rn(st, 20 * i + j)]]
Dims == <<1, 2, 3, 5>>
At(d, q) ==
  LET n == Dims[d]   st == 100 * d + 10 * q
      u == V(st, n)  v == V(st + 1, n)  A == M(st + 2, n, n)  B == M(st + 3, n, n + 1)  C == M(st + 4, n, n)  a == Rn(st + 5, 1) IN
  [sum |-> <<RSum(u), VDot(u, v), VNorm2(u), VNorm(u), VMaxAbs(u), MMaxAbs(A)>>,
   vecs |-> <<VZero(n), VUnit(n, n), VAdd(u, v), VSub(u, v), VNeg(u), VScale(a, u), MVec(A, u), MCol(B, n + 1)>>,
   mats |-> <<MZero(n, n), MId(n), MDiag(u), MT(A), MAdd(A, C), MSub(A, C), MScale(a, A), MMul(A, C), MBlock(B, n - 1, 1, 1, n),
              MPut(MPut(MZero(2 * n, 2 * n), 0, 0, A), n, n, C)>>,
   rect |-> MMul(A, B), col |-> MAsCol(u), dims |-> <<Rows(B), Cols(B)>>,
   flags |-> << VFinite(u), MFinite(A), IsMat(B, n, n + 1), IsMat(B, n + 1, n), MClose(A, C, RDec(1, -9)), MClose(A, A, RDec(1, -9)), VClose(u, v, RTwo),
                VNear(u, v, RDec(1, -3), RTwo), MNear(A, C, RInt(9), ROne), VFinite(<<RDiv(RZero, RZero)>>) >>]
All == [d \in 1..Len(Dims) |-> [q \in 1..3 |-> At(d, q)]]
Tol == RDec(1, -12)
Same(x, y) ==
  /\ VClose(x.sum, y.sum, Tol) /\ x.flags = y.flags /\ x.dims = y.dims
  /\ \A i \in 1..Len(x.vecs) : VClose(x.vecs[i], y.vecs[i], Tol)
  /\ \A i \in 1..Len(x.mats) : MClose(x.mats[i], y.mats[i], Tol)
  /\ MClose(x.rect, y.rect, Tol) /\ MClose(x.col, y.col, Tol)
Solves == \A d \in 1..Len(Dims) : \A q \in 1..3 :
  LET n == Dims[d]  A == MAdd(M(900 + 10 * d + q, n, n), MScale(RInt(9), MId(n)))  B == M(950 + 10 * d + q, n, 2) IN
  /\ MClose(MMul(A, MSolve(A, B)), B, Tol) /\ MClose(MMul(A, MInv(A)), MId(n), Tol)
  /\ VClose(MVec(A, VSolve(A, MCol(B, 2))), MCol(B, 2), Tol)
\* the determinant: alternating, multiplicative, 1 at the identity
Dets == LET A == M(970, 3, 3)  B == M(971, 3, 3)  sw == <<A[2], A[1], A[3]>> IN
  /\ RClose(MDet(MMul(A, B)), RMul(MDet(A), MDet(B)), Tol) /\ RClose(MDet(sw), RNeg(MDet(A)), Tol) /\ MDet(MId(4)) = ROne
  /\ RClose(MDet(<<<<A[1][1], A[1][2]>>, <<A[2][1], A[2][2]>>>>), RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1])), Tol)
ASSUME IF IOEnv.MODE = "define" THEN ndJsonSerialize(IOEnv.OUT, <<[all |-> All]>>)
       ELSE LET D == ndJsonDeserialize(IOEnv.OUT)[1].all  A == All IN
            /\ Assert(\A d \in 1..Len(Dims) : \A q \in 1..3 : Same(D[d][q], A[d][q]), "Lin.java differs from Lin.tla")
            /\ Assert(Solves, "MSolve") /\ Assert(Dets, "MDet")
=============================================================================
