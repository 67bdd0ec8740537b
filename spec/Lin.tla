-------------------------------- MODULE Lin --------------------------------
(* Dense linear algebra over RealNum: a vector is a sequence of reals, a matrix a sequence of equally long     *)
(* rows.  The definitions are the usual ones; java/Lin.java evaluates the same operators eagerly (TLC's lazy   *)
(* function values would re-evaluate entries), and LinSelf.tla checks the two against each other.              *)
EXTENDS RealNum, FiniteSets

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN RZero ELSE RAdd(SumTo(f, n - 1), f[n])
RSum(v) == SumTo(v, Len(v))

VZero(n)     == [i \in 1..n |-> RZero]
VUnit(n, k)  == [i \in 1..n |-> IF i = k THEN ROne ELSE RZero]
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VNeg(u)      == [i \in 1..Len(u) |-> RNeg(u[i])]
VScale(a, u) == [i \in 1..Len(u) |-> RMul(a, u[i])]
VDot(u, v)   == RSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VNorm2(u)    == VDot(u, u)
VNorm(u)     == RSqrt(VNorm2(u))
RECURSIVE MaxTo(_, _)
MaxTo(f, n)  == IF n = 0 THEN RZero ELSE RMax(MaxTo(f, n - 1), RAbs(f[n]))
VMaxAbs(u)   == MaxTo(u, Len(u))
VFinite(u)   == \A i \in 1..Len(u) : RFinite(u[i])

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
IsMat(A, r, c) == Len(A) = r /\ \A i \in 1..r : Len(A[i]) = c
MZero(r, c)  == [i \in 1..r |-> [j \in 1..c |-> RZero]]
MId(n)       == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ROne ELSE RZero]]
MDiag(v)     == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE RZero]]
MT(A)        == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
MAdd(A, B)   == [i \in 1..Rows(A) |-> VAdd(A[i], B[i])]
MSub(A, B)   == [i \in 1..Rows(A) |-> VSub(A[i], B[i])]
MScale(a, A) == [i \in 1..Rows(A) |-> VScale(a, A[i])]
MVec(A, v)   == [i \in 1..Rows(A) |-> VDot(A[i], v)]
MMul(A, B)   == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> RSum([k \in 1..Rows(B) |-> RMul(A[i][k], B[k][j])])]]
MCol(A, j)   == [i \in 1..Rows(A) |-> A[i][j]]
MBlock(A, r0, c0, nr, nc) == [i \in 1..nr |-> [j \in 1..nc |-> A[r0 + i][c0 + j]]]   \* r0, c0 counted from 0
MPut(A, r0, c0, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |->
                         IF i > r0 /\ i <= r0 + Rows(B) /\ j > c0 /\ j <= c0 + Cols(B)
                         THEN B[i - r0][j - c0] ELSE A[i][j]]]
MMaxAbs(A)   == MaxTo([i \in 1..Rows(A) |-> VMaxAbs(A[i])], Rows(A))
MFinite(A)   == \A i \in 1..Len(A) : VFinite(A[i])
MAsCol(v)    == [i \in 1..Len(v) |-> <<v[i]>>]

\* The solution X of A X = B for invertible A (TLC: Gaussian elimination with pivoting and refinement)
MSolve(A, B) == CHOOSE X \in {} : MMul(A, X) = B
MInv(A)      == MSolve(A, MId(Rows(A)))
VSolve(A, b) == MCol(MSolve(A, MAsCol(b)), 1)
\* determinant (TLC: by elimination)
MDet(A)      == Unevaluated

VClose(u, v, tol) ==
  /\ Len(u) = Len(v) /\ VFinite(u) /\ VFinite(v)
  /\ RLe(VMaxAbs(VSub(u, v)), RMul(tol, RAdd(ROne, RMax(VMaxAbs(u), VMaxAbs(v)))))
VNear(u, v, tol, scale) ==
  /\ Len(u) = Len(v) /\ VFinite(u) /\ VFinite(v) /\ RLe(VMaxAbs(VSub(u, v)), RMul(tol, scale))
MSame(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
MClose(A, B, tol) ==
  /\ MSame(A, B) /\ MFinite(A) /\ MFinite(B)
  /\ RLe(MMaxAbs(MSub(A, B)), RMul(tol, RAdd(ROne, RMax(MMaxAbs(A), MMaxAbs(B)))))
MNear(A, B, tol, scale) ==
  /\ MSame(A, B) /\ MFinite(A) /\ MFinite(B) /\ RLe(MMaxAbs(MSub(A, B)), RMul(tol, scale))

(* Matrix exponential: Taylor series with scaling and squaring. *)
RECURSIVE ExpTerms(_, _, _, _)
ExpTerms(A, term, k, n) ==   \* term = A^(k-1)/(k-1)!
  IF k > n THEN MZero(Rows(A), Rows(A))
  ELSE LET t == MScale(RDiv(ROne, RInt(k)), MMul(term, A)) IN MAdd(t, ExpTerms(A, t, k + 1, n))
ExpSeries(A) == MAdd(MId(Rows(A)), ExpTerms(A, MId(Rows(A)), 1, 18))
RECURSIVE Squared(_, _)
Squared(A, k) == IF k = 0 THEN A ELSE LET B == MMul(A, A) IN Squared(B, k - 1)
RECURSIVE Halvings(_, _)
Halvings(m, k) == IF RLe(m, RHalf) \/ k > 60 THEN k ELSE Halvings(RMul(m, RHalf), k + 1)
RECURSIVE Halved(_, _)
Halved(A, k) == IF k = 0 THEN A ELSE LET B == MScale(RHalf, A) IN Halved(B, k - 1)
MExp(A) == LET k == Halvings(RMul(RInt(Rows(A)), MMaxAbs(A)), 0)
           IN Squared(ExpSeries(Halved(A, k)), k)
=============================================================================
