-------------------------------- MODULE G2o --------------------------------
(* What a g2o file means, line by line: the state is the poses read so far (a map from ids), the sequence of    *)
(* between measurements and the anchor, i.e. the first vertex line of the file.                                 *)
EXTENDS Resid, TLC

LoadInit == [pose |-> <<>>, edges |-> <<>>, anchor |-> <<>>]      \* pose: a function from ids

\* information matrix of an edge line, from g2o's translation-first upper triangle to rotation-first
Full(n, tri) ==  \* symmetric matrix from its upper triangle by rows
  LET at(i, j) == ((i - 1) * n) - (((i - 1) * (i - 2)) \div 2) + (j - i) + 1
  IN [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN tri[at(i, j)] ELSE tri[at(j, i)]]]
Perm(kind) == IF kind = "SE2" THEN <<3, 1, 2>> ELSE <<4, 5, 6, 1, 2, 3>>
InfoOf(kind, tri) == LET n == TanDim(kind)  F == Full(n, tri)  p == Perm(kind) IN [i \in 1..n |-> [j \in 1..n |-> F[p[i]][p[j]]]]

\* the anchor: unit weight in the plane; in space variances 1e-6 of the rotation and 1e-4 of the translation
AnchorInfo(kind) == IF kind = "SE2" THEN MId(3) ELSE MDiag([i \in 1..6 |-> IF i <= 3 THEN RDec(1, 6) ELSE RDec(1, 4)])

\* pose of a line: SE2 numbers are x y theta, SE3 numbers x y z qx qy qz qw
RawPose(kind, v) == IF kind = "SE2" THEN <<RCos(v[3]), RSin(v[3]), v[1], v[2]>> ELSE <<v[4], v[5], v[6], v[7], v[1], v[2], v[3]>>

LoadLine(s, ln, kind) ==
  CASE ln.k = "vertex" ->
         [s EXCEPT !.pose = (ln.id :> RawPose(kind, ln.v)) @@ @,
                   !.anchor = IF @ = <<>> THEN <<ln.id, RawPose(kind, ln.v)>> ELSE @]
    [] ln.k = "edge" -> [s EXCEPT !.edges = Append(@, [a |-> ln.a, b |-> ln.b, z |-> RawPose(kind, ln.v), info |-> InfoOf(kind, ln.inf)])]
    [] OTHER -> s
RECURSIVE LoadAll(_, _, _, _)
LoadAll(s, lines, n, kind) == IF n = 0 THEN s ELSE LET t == LoadAll(s, lines, n - 1, kind) IN LoadLine(t, lines[n], kind)
=============================================================================
