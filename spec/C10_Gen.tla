------------------------------ MODULE C10_Gen ------------------------------
(* Inputs for hat, vee, adjoint, hat_swap and dexp.                                                            *)
EXTENDS Gen

N == Pick2(60, 600)
Rnd(k, i) == RndTan(k, 60000 + KindNo(k), i, AllAngles)
Units(k) == [i \in 1..TanDim(k) |-> VUnit(TanDim(k), i)]
Ops(k) ==
  LET st == 61000 + KindNo(k)
      tans == Units(k) \o [i \in 1..N |-> Rnd(k, i)]
      els == [i \in 1..N |-> RndRaw(k, st, i)]
      pts == [i \in 1..PtDim(k) |-> VUnit(PtDim(k), i)] \o [i \in 1..N |-> VScale(OneOf(st, 512 * i + 9, Sizes), SymVec(st, 5000 + i, PtDim(k)))]
  IN [i \in 1..Len(tans) |-> <<"hat", tans[i]>>] \o [i \in 1..Len(tans) |-> <<"vee", Hat(k, tans[i])>>]
     \o [i \in 1..Len(tans) |-> <<"veehat", tans[i]>>]
     \o [i \in 1..Len(els) |-> <<"adjoint", els[i]>>] \o [i \in 1..Len(pts) |-> <<"hat_swap", pts[i]>>]
     \o (IF k = "SO3" THEN Flatten([a \in 1..Len(Axes3) |-> [j \in 1..Len(AllAngles) |-> <<"dexp", VScale(AllAngles[j], Axes3[a])>>]])
                          \o [i \in 1..(2 * N) |-> <<"dexp", VScale(AngleOf(st, 512 * i + 20, AllAngles), Axis(st, 9000 + i))>>] ELSE <<>>)
Chunk == 60
RECURSIVE Chunks(_, _)
Chunks(k, ops) == IF Len(ops) <= Chunk THEN << [t |-> "liealg", kind |-> k, ops |-> ops] >>
                  ELSE << [t |-> "liealg", kind |-> k, ops |-> SubSeq(ops, 1, Chunk)] >> \o Chunks(k, SubSeq(ops, Chunk + 1, Len(ops)))
Scenarios == Flatten([i \in 1..4 |-> Chunks(LieSeq[i], Ops(LieSeq[i]))])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
