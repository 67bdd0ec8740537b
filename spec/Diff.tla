-------------------------------- MODULE Diff --------------------------------
(* The functions differentiated by the check, and their exact derivatives along the variables' oplus           *)
(* directions: moving X along e_j changes its matrix at the rate X hat(e_j) (right) or hat(e_j) X (left).       *)
EXTENDS Lie

\* the entries of a group element that functions use (linear in its matrix)
PhiRows(k) == IF k \in VecKinds THEN TanDim(k) ELSE RotDim(k)
RECURSIVE CatRows(_, _)
CatRows(M, n) == IF n = 0 THEN <<>> ELSE CatRows(M, n - 1) \o M[n]
Phi(k, M) == IF k \in VecKinds THEN SubSeq(MCol(M, MatDim(k)), 1, TanDim(k)) ELSE CatRows(M, PhiRows(k))
PhiDim(k) == IF k \in VecKinds THEN TanDim(k) ELSE PhiRows(k) * MatDim(k)

Rate(k, M, j, left) == LET E == Hat(k, VUnit(TanDim(k), j)) IN IF left THEN MMul(E, M) ELSE MMul(M, E)

RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN ROne ELSE RMul(ProdTo(f, n - 1), f[n])

\* out_r = sum_i A[r][i].phi_i + prod_i (1 + B[r][i].phi_i)
FVal(ks, Ms, A, B) ==
  LET n == Len(ks)  ph == [i \in 1..n |-> Phi(ks[i], Ms[i])] IN
  [r \in 1..Len(A) |-> RAdd(RSum([i \in 1..n |-> VDot(A[r][i], ph[i])]),
                            ProdTo([i \in 1..n |-> RAdd(ROne, VDot(B[r][i], ph[i]))], n))]
\* columns of one variable
FCols(ks, Ms, A, B, v, left) ==
  LET n == Len(ks)  ph == [i \in 1..n |-> Phi(ks[i], Ms[i])] IN
  [j \in 1..TanDim(ks[v]) |->
     LET d == Phi(ks[v], Rate(ks[v], Ms[v], j, left)) IN
     [r \in 1..Len(A) |-> RAdd(VDot(A[r][v], d),
        RMul(VDot(B[r][v], d), ProdTo([i \in 1..n |-> IF i = v THEN ROne ELSE RAdd(ROne, VDot(B[r][i], ph[i]))], n)))]]
RECURSIVE ColsTo(_, _, _, _, _, _)
ColsTo(ks, Ms, A, B, n, left) == IF n = 0 THEN <<>> ELSE ColsTo(ks, Ms, A, B, n - 1, left) \o FCols(ks, Ms, A, B, n, left)
FJac(ks, Ms, A, B, left) == MT(ColsTo(ks, Ms, A, B, Len(ks), left))

\* group-valued: G = prod_i Y_i with Y_i = X_i or its inverse
Fac(k, M, inv) == IF inv THEN GInv(k, M) ELSE M
RECURSIVE GProd(_, _, _, _)
GProd(k, Ys, a, b) == IF a > b THEN GId(k) ELSE MMul(GProd(k, Ys, a, b - 1), Ys[b])
\* rate of the inverse: -X^-1 dX X^-1
FacRate(k, M, inv, j, left) ==
  LET D == Rate(k, M, j, left) IN
  IF inv THEN MScale(RInt(-1), MMul(MMul(GInv(k, M), D), GInv(k, M))) ELSE D
\* word: which argument each factor of the product is (arguments may be repeated, or not occur)
GWord(k, Ms, word, inv) == [i \in 1..Len(word) |-> Fac(k, Ms[word[i]], inv[i])]
GCol(k, Ms, word, inv, v, j, left) ==
  LET n == Len(word)  Ys == GWord(k, Ms, word, inv)  Gi == GInv(k, GProd(k, Ys, 1, n))
      part(i) == LET dG == MMul(MMul(GProd(k, Ys, 1, i - 1), FacRate(k, Ms[v], inv[i], j, left)), GProd(k, Ys, i + 1, n)) IN
                 Vee(k, IF left THEN MMul(dG, Gi) ELSE MMul(Gi, dG))
      RECURSIVE sum(_)
      sum(i) == IF i = 0 THEN VZero(TanDim(k)) ELSE IF word[i] = v THEN VAdd(sum(i - 1), part(i)) ELSE sum(i - 1)
  IN sum(n)
RECURSIVE GColsTo(_, _, _, _, _, _)
GColsTo(k, Ms, word, inv, n, left) ==
  IF n = 0 THEN <<>> ELSE GColsTo(k, Ms, word, inv, n - 1, left) \o [j \in 1..TanDim(k) |-> GCol(k, Ms, word, inv, n, j, left)]
GJac(k, Ms, word, inv, left) == MT(GColsTo(k, Ms, word, inv, Len(Ms), left))

\* pose from rotation R and translation t
PoseJac(R, t, swap, left) ==
  LET G == Rigid(R, t)  Gi == GInv("SE3", G)
      tan(dG) == Vee("SE3", IF left THEN MMul(dG, Gi) ELSE MMul(Gi, dG))
      rc == [j \in 1..3 |-> tan(MPut(MZero(4, 4), 0, 0, Rate("SO3", R, j, left)))]
      tc == [j \in 1..3 |-> tan(MPut(MZero(4, 4), 0, 3, MAsCol(VUnit(3, j))))]
  IN MT(IF swap THEN tc \o rc ELSE rc \o tc)

\* the group operations as functions: action on a point (of X or of its inverse), exp, oplus
ActRate(k, D, p) ==
  LET n == PtDim(k)   h == IF k \in {"SO2", "SO3"} THEN p ELSE p \o <<ROne>> IN SubSeq(MVec(D, h), 1, n)
ExpRate(k, v, j) == MMul(ExpMat(k, v, FALSE), Hat(k, MCol(RightJac(k, v), j)))
OpVal(op, k, X, left) ==
  CASE op = "apply"    -> Act(k, Mat(k, X[1]), X[2])
    [] op = "applyinv" -> Act(k, GInv(k, Mat(k, X[1])), X[2])
    [] op = "exp"      -> Phi(k, ExpMat(k, X[1], FALSE))
    [] op = "oplus"    -> Phi(k, OplusMat(k, Mat(k, X[1]), X[2], FALSE, left))
OpCols(op, k, X, left) ==
  LET n == TanDim(k) IN
  CASE op \in {"apply", "applyinv"} ->
         LET M == Mat(k, X[1])   inv == op = "applyinv"   Y == Fac(k, M, inv)   m == PtDim(k) IN
         [j \in 1..n |-> ActRate(k, FacRate(k, M, inv, j, left), X[2])] \o [j \in 1..m |-> MCol(MBlock(Y, 0, 0, m, m), j)]
    [] op = "exp" -> [j \in 1..n |-> Phi(k, ExpRate(k, X[1], j))]
    [] op = "oplus" ->
         LET M == Mat(k, X[1])   E == ExpMat(k, X[2], FALSE) IN
         [j \in 1..n |-> Phi(k, IF left THEN MMul(E, Rate(k, M, j, left)) ELSE MMul(Rate(k, M, j, left), E))] \o
         [j \in 1..n |-> Phi(k, IF left THEN MMul(ExpRate(k, X[2], j), M) ELSE MMul(M, ExpRate(k, X[2], j)))]
OpJac(op, k, X, left) == MT(OpCols(op, k, X, left))

\* scalar functions
SVal(f, k, x) ==
  CASE f = "poly" -> RAdd(k[1], RMul(x, RAdd(k[2], RMul(x, RAdd(k[3], RMul(x, k[4]))))))
    [] f = "sin"  -> RMul(k[1], RSin(RMul(k[2], x)))
    [] f = "exp"  -> RMul(k[1], RExp(RMul(k[2], x)))
    [] f = "rat"  -> RDiv(k[1], RAdd(ROne, RSq(RMul(k[2], x))))
SDer(f, k, x) ==
  CASE f = "poly" -> RAdd(k[2], RMul(x, RAdd(RMul(RTwo, k[3]), RMul(RInt(3), RMul(x, k[4])))))
    [] f = "sin"  -> RMul(RMul(k[1], k[2]), RCos(RMul(k[2], x)))
    [] f = "exp"  -> RMul(RMul(k[1], k[2]), RExp(RMul(k[2], x)))
    [] f = "rat"  -> RNeg(RDiv(RMul(RMul(RTwo, k[1]), RMul(RSq(k[2]), x)), RSq(RAdd(ROne, RSq(RMul(k[2], x))))))
=============================================================================
