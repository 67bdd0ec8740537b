------------------------------- MODULE LinSys -------------------------------
(* The linear system of a graph: factors' blocks stacked, columns in the order of the scenario's variables.      *)
EXTENDS Lie

RECURSIVE SumDims(_, _)
SumDims(vars, n) == IF n = 0 THEN 0 ELSE SumDims(vars, n - 1) + TanDim(vars[n].kind)
ColAt(vars, v) == SumDims(vars, v - 1)
TotDim(vars) == SumDims(vars, Len(vars))

RECURSIVE PlaceAll(_, _, _, _)
PlaceAll(vars, f, n, M) ==
  IF n = 0 THEN M
  ELSE LET at == ColAt(vars, f.keys[n])   B == f.blocks[n] IN
       PlaceAll(vars, f, n - 1, MPut(M, 0, at, MAdd(MBlock(M, 0, at, Rows(B), Cols(B)), B)))
RECURSIVE StackAll(_, _, _)
StackAll(vars, fs, n) ==
  IF n = 0 THEN <<>>
  ELSE StackAll(vars, fs, n - 1) \o PlaceAll(vars, fs[n], Len(fs[n].keys), MZero(Len(fs[n].b), TotDim(vars)))
RECURSIVE RhsAll(_, _)
RhsAll(fs, n) == IF n = 0 THEN <<>> ELSE RhsAll(fs, n - 1) \o fs[n].b
SysA(vars, fs) == StackAll(vars, fs, Len(fs))
SysB(fs) == RhsAll(fs, Len(fs))

\* the least-squares minimiser
Minimiser(A, b) == LET At == MT(A) IN VSolve(MMul(At, A), MVec(At, b))
\* variables that factors tie together, directly or through others, and their share of the system
RECURSIVE Grown(_, _)
Grown(fs, S) == LET T == S \cup UNION {{f.keys[j] : j \in 1..Len(f.keys)} : f \in {fs[i] : i \in {x \in 1..Len(fs) : \E j \in 1..Len(fs[x].keys) : fs[x].keys[j] \in S}}}
                IN IF T = S THEN S ELSE Grown(fs, T)
Components(vars, fs) == {Grown(fs, {v}) : v \in 1..Len(vars)}
Listed(S, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in S)
PosIn(sq, x) == CHOOSE i \in 1..Len(sq) : sq[i] = x
SubSys(vars, fs, S) ==
  LET ix == Listed(S, Len(vars))   mine == SelectSeq(fs, LAMBDA f : f.keys[1] \in S) IN
  [ix |-> ix, vars |-> [i \in 1..Len(ix) |-> vars[ix[i]]], fs |-> [k \in 1..Len(mine) |-> [mine[k] EXCEPT !.keys = [j \in 1..Len(mine[k].keys) |-> PosIn(ix, mine[k].keys[j])]]]]
VAbs(v) == [i \in 1..Len(v) |-> RAbs(v[i])]
MAbs(A) == [i \in 1..Len(A) |-> VAbs(A[i])]
SliceOf(vars, dx, v) == SubSeq(dx, ColAt(vars, v) + 1, ColAt(vars, v) + TanDim(vars[v].kind))
Moved(vars, raws, dx, fake, left) ==
  [v \in 1..Len(vars) |-> OplusMat(vars[v].kind, Mat(vars[v].kind, raws[v]), SliceOf(vars, dx, v), fake, left)]
\* what the optimizer was told about a factor has the right shape
WellShaped(vars, f) == Len(f.blocks) = Len(f.keys) /\ \A j \in 1..Len(f.keys) : f.keys[j] \in 1..Len(vars) /\ IsMat(f.blocks[j], Len(f.b), TanDim(vars[f.keys[j]].kind))
SameVars(vars, raws) == Len(raws) = Len(vars) /\ \A v \in 1..Len(vars) : Len(raws[v]) = RawDim(vars[v].kind)
=============================================================================
