----------------------------- MODULE C19_Trace -----------------------------
EXTENDS Trace, G2o

LeftConv == IOEnv.LEFT = "1"
Tol == RDec(1, -8)
TJac == RDec(2, -5)
IdOf(scn, id) == CHOOSE i \in 1..Len(scn.vars) : scn.vars[i].key[2] = id
At(scn, i) == Mat(scn.kind, scn.vars[i].raw)

SymClose(A, B, tol) ==
  /\ MSame(A, B) /\ MFinite(A) /\ MFinite(B)
  /\ \A i, j \in 1..Len(B) : RLe(RAbs(RSub(A[i][j], B[i][j])), RMul(tol, RAdd(ROne, RSqrt(RAbs(RMul(B[i][i], B[j][j]))))))

\* residual of a between edge / of the anchor at the probe values: a logarithm below half a turn, from the matrix
LogR(k, M) ==  \* rotation angle below pi assumed
  LET kk == IF k = "SE2" THEN "SO2" ELSE "SO3"   n == RotDim(k)   R == MBlock(M, 0, 0, n, n)   t == MCol(MBlock(M, 0, n, n, 1), 1)
      w == IF k = "SE2" THEN <<RAtan2(R[2][1], R[1][1])>>
           ELSE LET ax == <<RSub(R[3][2], R[2][3]), RSub(R[1][3], R[3][1]), RSub(R[2][1], R[1][2])>>
                    sn == RMul(RHalf, VNorm(ax))   cs == RMul(RHalf, RSub(RAdd(RAdd(R[1][1], R[2][2]), R[3][3]), ROne))
                IN IF RLe(sn, RDec(1, -9)) THEN VScale(RHalf, ax) ELSE VScale(RDiv(RAtan2(sn, cs), RMul(RTwo, sn)), ax)
      \* exp(w, rho) has translation V rho with V the upper right block of the exponential of [hat w, I; 0, 0]
      V == MBlock(MExp(MPut(MPut(MZero(2 * n, 2 * n), 0, 0, Hat(kk, w)), 0, n, MId(n))), 0, n, n, n)
  IN w \o VSolve(V, t)
CosOf(k, M) == IF k = "SE2" THEN M[1][1] ELSE RMul(RHalf, RSub(RAdd(RAdd(M[1][1], M[2][2]), M[3][3]), ROne))
Usable(k, M) == RLt(RDec(-98, -2), CosOf(k, M))

\* one block of rows of the system at the probe values
Rows0(ev, from, n) == [i \in 1..n |-> ev.a[from + i]]
B0(ev, from, n) == SubSeq(ev.b, from + 1, from + n)
Col0(scn, v) == LET RECURSIVE s(_)  s(i) == IF scn.order[i] = v THEN 0 ELSE TanDim(scn.kind) + s(i + 1) IN s(1)
OnlyAt(scn, A, vs) ==   \* nonzero only in the columns of variables vs
  \A x \in 1..Len(A) : \A y \in 1..Len(A[x]) : RLe(RAbs(A[x][y]), RZero) \/ scn.order[1 + ((y - 1) \div TanDim(scn.kind))] \in vs

EdgeOk(scn, ev, e, from) ==
  LET k == scn.kind   n == TanDim(k)   i == IdOf(scn, e.a)   j == IdOf(scn, e.b)
      res == [r |-> "between", kind |-> k, z |-> e.z]   Ms == <<At(scn, i), At(scn, j)>>
      M == ResidMat(res, Ms, LeftConv)   A == Rows0(ev, from, n)   b == B0(ev, from, n)
      A12 == [x \in 1..n |-> MBlock(A, 0, Col0(scn, i), n, n)[x] \o MBlock(A, 0, Col0(scn, j), n, n)[x]]
  IN /\ OnlyAt(scn, A, {i, j})
     /\ Usable(k, M) =>
          LET r == LogR(k, M)   J == ResidJac(res, Ms, r, LeftConv, FALSE)
              JO == MMul(MT(J), e.info)
          IN /\ SymClose(MMul(MT(A12), A12), MMul(JO, J), TJac)
             /\ VNear(MVec(MT(A12), b), VNeg(MVec(JO, r)), TJac, RAdd(ROne, VMaxAbs(MVec(JO, r))))
             /\ RNear(VNorm2(b), VDot(r, MVec(e.info, r)), Tol, RAdd(ROne, VNorm2(b)))
AnchorOk(scn, ev, anchor, from) ==
  LET k == scn.kind   n == TanDim(k)   i == IdOf(scn, anchor[1])
      res == [r |-> "prior", kind |-> k, z |-> anchor[2]]   Ms == <<At(scn, i)>>
      M == ResidMat(res, Ms, LeftConv)   A == Rows0(ev, from, n)   b == B0(ev, from, n)
      Ai == MBlock(A, 0, Col0(scn, i), n, n)
  IN /\ OnlyAt(scn, A, {i})
     /\ Usable(k, M) =>
          LET r == LogR(k, M)   J == ResidJac(res, Ms, r, LeftConv, FALSE)
              JO == MMul(MT(J), AnchorInfo(k))
          IN \* W r = -b with W = Ai J^-1, and W'W is the anchor's information
             /\ SymClose(MMul(MT(Ai), Ai), MMul(JO, J), TJac)
             /\ VNear(VNeg(MVec(MMul(J, MInv(Ai)), b)), r, TJac, RAdd(ROne, VMaxAbs(r)))

\* the rows are those of the edges in file order with the anchor's rows somewhere among them
Layout(scn, ev, st) ==
  LET n == TanDim(scn.kind)   ne == Len(st.edges)
      at(p, q) == n * (IF q < p THEN q - 1 ELSE q)          \* first row of edge q when the anchor comes before edge p
  IN IF st.anchor = <<>> THEN \A q \in 1..ne : EdgeOk(scn, ev, st.edges[q], n * (q - 1))
     ELSE \E p \in 1..(ne + 1) : AnchorOk(scn, ev, st.anchor, n * (p - 1)) /\ \A q \in 1..ne : EdgeOk(scn, ev, st.edges[q], at(p, q))

Clauses(scn, ev, st) ==
  IF ev.e # "loaded" THEN << <<"outcome:" \o ev.e, FALSE>> >>
  ELSE LET k == scn.kind   ids == DOMAIN st.pose   nf == Len(st.edges) + (IF st.anchor = <<>> THEN 0 ELSE 1)
           rows == nf * TanDim(k)
       IN << <<"one variable per vertex", ev.nvals = Cardinality(ids)>>,
             <<"stated poses under X(id)", \A i \in 1..Len(scn.vars) : LET id == scn.vars[i].key[2]   got == ev.vals[i] IN
                IF id \in ids THEN Len(got) = RawDim(k) /\ MClose(Mat(k, got), Mat(k, st.pose[id]), Tol) ELSE got = <<>>>>,
             <<"one factor per edge and one prior", ev.nfac = nf>>,
             <<"system size", Len(ev.b) = rows /\ Len(ev.a) = rows>>,
             <<"factors", (Len(ev.b) = rows /\ Len(ev.a) = rows) => Layout(scn, ev, st)>>,
             <<"error is half the squared system", RNear(ev.err, RMul(RHalf, VNorm2(ev.b)), Tol, RAdd(ROne, ev.err))>> >>

VARIABLES c, l, st
Init == c \in 1..Len(Cases) /\ l = 0 /\ st = LoadInit
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev IN
  /\ l <= Len(evs)
  /\ st' = LoadAll(LoadInit, scn.lines, Len(scn.lines), scn.kind)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(Clauses(scn, evs[l + 1], st')))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = 1>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
