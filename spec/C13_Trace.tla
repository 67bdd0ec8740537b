----------------------------- MODULE C13_Trace -----------------------------
(* The graph's system is the stacking of its factors' blocks; the state carries the rows assembled so far.     *)
EXTENDS Trace, Lie

Tol == RDec(1, -10)
NV(scn) == Len(scn.vars)
DimV(scn, v) == TanDim(scn.vars[v].kind)
\* the ordering is a partition: every variable given has a block of its dimension, blocks tile 0..total
RECURSIVE Total(_, _)
Total(scn, vs) == IF vs = {} THEN 0 ELSE LET v == CHOOSE x \in vs : TRUE IN DimV(scn, v) + Total(scn, vs \ {v})
Given(scn) == {v \in 1..NV(scn) : v # scn.drop}
OrderOk(scn, ord) ==
  /\ \A v \in Given(scn) : Len(ord[v]) = 2 /\ ord[v][2] = DimV(scn, v) /\ ord[v][1] >= 0 /\ ord[v][1] + ord[v][2] <= Total(scn, Given(scn))
  /\ \A v, w \in Given(scn) : v # w => ord[v][1] + ord[v][2] <= ord[w][1] \/ ord[w][1] + ord[w][2] <= ord[v][1]

\* rows of one factor: blocks placed at their keys' columns (a key used twice accumulates)
RECURSIVE Placed(_, _, _, _, _)
Placed(ord, keys, blocks, n, M) ==
  IF n = 0 THEN M
  ELSE LET at == ord[keys[n]][1]   B == blocks[n]
           M2 == MPut(M, 0, at, MAdd(MBlock(M, 0, at, Rows(B), Cols(B)), B))
       IN Placed(ord, keys, blocks, n - 1, M2)
RECURSIVE Stack(_, _, _, _)
Stack(ord, fs, tot, n) ==
  IF n = 0 THEN <<>>
  ELSE Stack(ord, fs, tot, n - 1) \o Placed(ord, fs[n].keys, fs[n].blocks, Len(fs[n].keys), MZero(Len(fs[n].b), tot))
RECURSIVE CatB(_, _)
CatB(fs, n) == IF n = 0 THEN <<>> ELSE CatB(fs, n - 1) \o fs[n].b
\* for every row the largest entry of its factor
RECURSIVE CatS(_, _, _)
CatS(fs, n, blocks) == IF n = 0 THEN <<>>
  ELSE LET f == fs[n]   big == IF blocks THEN VMaxAbs([j \in 1..Len(f.blocks) |-> MMaxAbs(f.blocks[j])]) ELSE VMaxAbs(f.b)
       IN CatS(fs, n - 1, blocks) \o [i \in 1..Len(f.b) |-> big]
Touched(fs) == UNION {{fs[i].keys[j] : j \in 1..Len(fs[i].keys)} : i \in 1..Len(fs)}

\* as expected: close when finite, the same infinity or NaN otherwise
RLike(a, b, tol, scale) == IF RFinite(b) THEN RNear(a, b, tol, scale) ELSE IF RIsNaN(b) THEN RIsNaN(a) ELSE a = b
SystemClauses(scn, fs, ev) ==
  LET tot == Total(scn, Given(scn))   missing == scn.drop \in Touched(fs)
      rows == LET RECURSIVE s(_)  s(i) == IF i = 0 THEN 0 ELSE s(i - 1) + Len(fs[i].b) IN s(Len(fs))
  IN IF missing THEN << <<"missing key reported by panic (ordering)", ev.pat = "panic">>, <<"missing key reported by panic (values)", ev.lin = "panic">> >>
     ELSE IF ev.pat # "ok" \/ ev.lin # "ok" THEN << <<"unexpected panic", FALSE>> >>
     ELSE LET A == Stack(ev.order, fs, tot, Len(fs))   b == CatB(fs, Len(fs))
              scA == CatS(fs, Len(fs), TRUE)   scb == CatS(fs, Len(fs), FALSE)
              \* every factor's rows on the scale of that factor
              fine(M) == IsMat(M, rows, tot) /\ IF MFinite(A) THEN MFinite(M) /\ \A i \in 1..rows : RLe(VMaxAbs(VSub(M[i], A[i])), RMul(Tol, scA[i]))
                         ELSE \A i \in 1..rows : \A j \in 1..tot : (RFinite(A[i][j]) /\ ~RFinite(scA[i])) \/ RLike(M[i][j], A[i][j], Tol, scA[i])
              half(v) == RDiv(VNorm2(v), RTwo)
              e0 == half(b)
              \* dx is laid out in the ordering's columns
              ed == half(VSub(IF rows = 0 THEN <<>> ELSE MVec(A, scn.dx), b))
          IN << <<"ordering is a partition", OrderOk(scn, ev.order)>>,
                <<"rows", Len(ev.b) = rows /\ \A i \in 1..rows : (RFinite(b[i]) /\ ~RFinite(scb[i])) \/ RLike(ev.b[i], b[i], Tol, scb[i])>>,
                <<"blocks", rows = 0 \/ fine(ev.a)>>,
                <<"blocks (linear graph's own pattern)", "a2" \notin DOMAIN ev \/ rows = 0 \/ fine(ev.a2)>>,
                <<"pattern size", "rows" \notin DOMAIN ev \/ (ev.rows = rows /\ ev.cols = tot)>>,
                <<"linear error at zero", (rows > 0 /\ ~MFinite(A)) \/ RLike(ev.err0, e0, Tol, e0)>>,
                <<"linear error at dx", ~RFinite(ed) \/ RNear(ev.errdx, ed, Tol, RMax(e0, ed))>> >>
GraphClauses(scn, fs, i, ev) ==
  LET nf == Len(scn.facs) IN
  IF i <= nf THEN << <<"factor", ev.e = "fac" /\ ev.keys = scn.vs[i] /\ Len(ev.blocks) = Len(ev.keys)
                        /\ \A j \in 1..Len(ev.keys) : IsMat(ev.blocks[j], Len(ev.b), DimV(scn, ev.keys[j]))>> >>
  ELSE IF i = nf + 1 /\ ev.e = "counts" THEN << <<"len and is_empty count the factors", ev.n = [k \in 1..(nf + 1) |-> <<k - 1, k = 1>>]>> >>
  ELSE IF i = nf + 2 /\ ev.e = "error" THEN
     (IF scn.drop \in Touched(fs) THEN << <<"missing key reported by panic (error)", ev.out = "panic">> >>
      ELSE LET sum == RSum([k \in 1..nf |-> fs[k].err]) IN
           << <<"error is the sum of the factors' errors", ev.out = "ok" /\ RLike(ev.err, sum, Tol, RSum([k \in 1..nf |-> RAbs(fs[k].err)]))>> >>)
  ELSE IF i = nf + 3 /\ ev.e = "system" THEN SystemClauses(scn, fs, ev)
  ELSE << <<"outcome:" \o ev.e, FALSE>> >>
LinClauses(scn, evs, i, ev) ==
  LET nf == Len(scn.facs)   fs == scn.facs IN
  IF i <= nf /\ ev.e = "lfac" THEN
     LET f == fs[i]   gone == \E j \in 1..Len(f.keys) : f.keys[j] = scn.drop IN
     << <<"linear factor", ev.dout = Len(f.b) /\ ev.out = (IF gone THEN "panic" ELSE "ok")>> >>
  ELSE IF i = nf + 1 /\ ev.e = "system" THEN
     SystemClauses(scn, fs, ev) \o
     << <<"linear error is the sum of the factors' errors", scn.drop \in Touched(fs) \/
            LET sum == RSum([k \in 1..nf |-> evs[k].err]) IN ~RFinite(sum) \/ RNear(ev.errdx, sum, Tol, sum)>> >>
  ELSE << <<"outcome:" \o ev.e, FALSE>> >>

VARIABLES c, l
Init == c \in 1..Len(Cases) /\ l = 0
Expect(scn) == Len(scn.facs) + (IF scn.t = "graph" THEN 3 ELSE 1)
Next ==
  LET scn == Cases[c].scn   evs == Cases[c].ev
      fs == IF scn.t = "graph" THEN SubSeq(evs, 1, Len(scn.facs)) ELSE scn.facs IN
  /\ l <= Len(evs)
  /\ IF l < Len(evs) THEN Report(Cases[c].id, l + 1, Broken(IF scn.t = "graph" THEN GraphClauses(scn, fs, l + 1, evs[l + 1]) ELSE LinClauses(scn, evs, l + 1, evs[l + 1])))
     ELSE Report(Cases[c].id, 0, Broken(<< <<"events missing", Len(evs) = Expect(scn)>> >>))
  /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
