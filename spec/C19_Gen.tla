------------------------------ MODULE C19_Gen ------------------------------
(* Files: vertices and edges in every kind of order, duplicates, foreign lines between them.                   *)
EXTENDS GenGraph

Small(k, st, i) == RawOf(k, Axis(st, 8 * i), Between(st, 512 * i + 500, RZero, RDec(7, -1)), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
                         VScale(RTwo, SymVec(st, 8 * i + 1, 6)))
\* numbers of a pose as written in the file
Nums(k, st, i) ==
  IF k = "SE2" THEN LET t == VScale(RInt(3), SymVec(st, 8 * i + 1, 2)) IN
                    <<t[1], t[2], RMul(OneOf(st, 512 * i + 505, <<ROne, RDec(3, -1), RInt(3), RInt(5), RInt(8), RInt(400)>>), Sym(st, 512 * i + 506))>>
  ELSE LET r == El("SE3", st, i) IN <<r[5], r[6], r[7], r[1], r[2], r[3], r[4]>>
Tri(n, M) == Flatten([i \in 1..n |-> [j \in 1..(n + 1 - i) |-> M[i][i + j - 1]]])
\* information matrices: general, diagonal, a multiple of the identity, of any size
InfMat(st, i, n) ==
  LET size == OneOf(st, 3700 + i, <<ROne, ROne, RDec(1, -2), RInt(500), RInt(1000000)>>)
      S == SpdOf(st, 1200 + 10 * i, n, RDec(4, -1))
      what == Pick(st, 3800 + i, 5)
  IN MScale(size, CASE what = 0 -> MId(n) [] what = 1 -> MDiag([j \in 1..n |-> S[j][j]]) [] OTHER -> S)
Edge(k, st, i, a, b) == [k |-> "edge", a |-> a, b |-> b, v |-> Nums(k, st, 60 + i), inf |-> Tri(TanDim(k), InfMat(st, i, TanDim(k)))]
Vertex(k, st, i, id) == [k |-> "vertex", id |-> id, v |-> Nums(k, st, 100 + i)]
Junk == <<"# a comment", "", "FIX 0", "VERTEX_XY 7 1.0 2.0", "EDGE_SE2_XY 0 1 1 2 1 0 1", "VERTEX_SE2X 0 0 0 0", "EDGE_SE3:QUATX 1 2", "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1",
          "vertex_se2 1 2 3 4", "VERTEX_SE2: 1 2 3 4", "VERTEX_SE2:QUAT 3 0 0 0", "EDGE_SE2: 0 1 1 0 0 1 0 0 1 0 1", "XVERTEX_SE2 1 2 3 4", "#VERTEX_SE2 1 2 3 4", "EDGE_SE3 0 1", "Vertex_SE3:Quat 0", "VERTEX_SE3 1 0 0 0 0 0 0 1">>

IdPools == << <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>, <<5, 2, 9, 0, 7, 33, 21, 14, 255, 256, 257, 65536>>,
              <<100, 7, 1000000, 3, 12, 20, 19, 18, 17, 16, 15, 14>>, <<2147483647, 0, 10, 11, 4, 31, 30, 29, 28, 27, 26, 25>> >>
Styles == <<"plain", "exp", "crlf", "trail", "nonl", "double", "tabs", "lead">>
Shuffle(sq, st, k) == LET p == Permutation(st, k, Len(sq)) IN [i \in 1..Len(sq) |-> sq[p[i]]]
\* np: number of ids used; edges may name an id that has no vertex line (it is then a key to be supplied later)
File(k, st, np, nv, ne, order, junk, dup, dangling) ==
  LET ids == SubSeq(OneOf(st, 3001, IdPools), 1, np)
      vs == [i \in 1..nv |-> Vertex(k, st, i, ids[i])]
            \o (IF dup THEN <<Vertex(k, st, 11, ids[1]), Vertex(k, st, 12, ids[nv])>> ELSE <<>>)
      nn == IF dangling THEN np ELSE nv
      pair(i) == LET a == Pick(st, 3100 + i, nn)   b == (a + 1 + Pick(st, 3200 + i, nn - 1)) % nn IN <<ids[1 + a], ids[1 + b]>>
      es == IF nn < 2 THEN <<>> ELSE [i \in 1..ne |-> LET p == pair(i) IN Edge(k, st, i, p[1], p[2])]
            \o (IF dup /\ ne > 0 THEN <<LET p == pair(1) IN Edge(k, st, 1, p[1], p[2]), LET p == pair(1) IN Edge(k, st, 15, p[2], p[1])>> ELSE <<>>)
      body == CASE order = "ve" -> vs \o es [] order = "ev" -> es \o vs [] order = "mixed" -> Shuffle(vs \o es, st, 3300)
      js == IF junk THEN [i \in 1..4 |-> [k |-> "other", text |-> OneOf(st, 3400 + i, Junk)]] ELSE <<>>
      lines == IF junk THEN (IF order = "mixed" THEN Shuffle(body \o js, st, 3500) ELSE SubSeq(js, 1, 2) \o body \o SubSeq(js, 3, 4)) ELSE body
  IN [t |-> "g2o", kind |-> k, lines |-> lines, style |-> OneOf(st, 3002, Styles),
      \* every id, present or not, with a pose to evaluate the graph at
      vars |-> [i \in 1..np |-> Var(<<"x", ids[i]>>, k, Small(k, st, 140 + i))],
      order |-> Permutation(st, 3600, np)]
\* long files: many vertices and a few edges between them, or many edges between a few vertices
Long(k, st, nv, ne) ==
  LET ids == [i \in 1..nv |-> (i * 7919) % 10007]
      vs == [i \in 1..nv |-> Vertex(k, st + (i \div 40), i % 40, ids[i])]
      es == [i \in 1..ne |-> LET a == (i * 613) % nv   b == (a + 1 + Pick(st, 3200 + i, nv - 1)) % nv IN Edge(k, st + (i \div 30), i % 30, ids[1 + a], ids[1 + b])]
      body == IF Pick(st, 3004, 2) = 0 THEN vs \o es ELSE LET m == nv + ne   all == es \o vs IN [i \in 1..m |-> all[1 + ((i * 7907) % m)]]
  IN [t |-> "g2o", kind |-> k, lines |-> body, style |-> OneOf(st, 3002, Styles),
      vars |-> [i \in 1..nv |-> Var(<<"x", ids[i]>>, k, Small(k, st + (i \div 40), 140 + (i % 40)))], order |-> [i \in 1..nv |-> 1 + ((i * 7907) % nv)]]
N == Pick2(20, 60)
Orders == <<"ve", "ev", "mixed">>
Scenarios == Flatten([kk \in 1..2 |-> Flatten([o \in 1..3 |-> Flatten([j1 \in 1..4 |-> [i \in 1..N |->
    LET st == 20000 * kk + 6000 * (o - 1) + 1000 * j1 + i   j == j1 - 1 IN
    File(<<"SE2", "SE3">>[kk], st, 5, 1 + (i % 5), (i + o) % 6, Orders[o], j \in {1, 3}, j >= 2, i % 7 = 3)]] )] )])
  \* bigger files, files without vertices, without edges, with nothing that counts
  \o Flatten([kk \in 1..2 |-> [i \in 1..Pick2(12, 80) |-> LET st == 70000 + 1000 * kk + i IN
       File(<<"SE2", "SE3">>[kk], st, 12, 6 + (i % 7), 5 + Pick(st, 3003, 12), Orders[1 + (i % 3)], i % 2 = 0, i % 3 = 0, i % 5 = 0)]])
  \o Flatten([kk \in 1..2 |-> [i \in 1..6 |-> LET st == 75000 + 1000 * kk + i IN
       File(<<"SE2", "SE3">>[kk], st, 3, IF i % 3 = 0 THEN 0 ELSE 1 + (i % 2), IF i % 3 = 1 THEN 0 ELSE 3, Orders[1 + (i % 3)], i > 3, FALSE, i % 3 # 1)]])
  \o [i \in 1..Pick2(2, 6) |-> Long(<<"SE2", "SE3">>[1 + (i % 2)], 80000 + 100 * i, 1030 + i, 4 + i)]
  \o [i \in 1..Pick2(2, 6) |-> Long(<<"SE2", "SE3">>[1 + (i % 2)], 81000 + 100 * i, 4 + i, Pick2(520, 1040) + i)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
