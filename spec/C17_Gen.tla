------------------------------ MODULE C17_Gen ------------------------------
EXTENDS GenImu
Lens == <<0, 1, 2, 3, 5, 8, 24>>
N == Pick2(84, 700)
Scenarios == [i \in 1..N |-> ImuCase(i, Lens[1 + (i % 7)], (i % 5) = 0, <<"scalars", "matrices", "default">>[1 + (i % 3)], (i % 2) = 0, FALSE)]
  \* long histories
  \o [i \in 1..Pick2(4, 24) |-> ImuCase(10000 + i, Pick2(130, 200) + i, (i % 4) = 0, <<"scalars", "matrices", "default">>[1 + (i % 3)], (i % 2) = 0, FALSE)]
  \* large turns, long steps, large covariances
  \o [i \in 1..Pick2(24, 200) |-> ImuCaseX(40000 + i, <<1, 2, 3, 5, 8, 16>>[1 + (i % 6)], FALSE, <<"scalars", "matrices", "default", "huge">>[1 + (i % 4)], (i % 2) = 0, FALSE, (i % 5) # 0)]
  \* another bias than the one that was removed: what the first state says about the second one's bias
  \o [i \in 1..Pick2(14, 100) |-> ImuCase(70000 + i, Lens[1 + (i % 7)], FALSE, <<"scalars", "matrices", "default">>[1 + (i % 3)], (i % 2) = 0, TRUE)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
