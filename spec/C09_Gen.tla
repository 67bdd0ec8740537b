------------------------------ MODULE C09_Gen ------------------------------
(* exp, log and the retractions over every class of rotation angle, axis, quaternion sign and translation.     *)
EXTENDS Gen

Chunk == 60
RECURSIVE Chunks(_, _)
Chunks(k, ops) == IF Len(ops) <= Chunk THEN << [t |-> "lietan", kind |-> k, ops |-> ops] >>
                  ELSE << [t |-> "lietan", kind |-> k, ops |-> SubSeq(ops, 1, Chunk)] >> \o Chunks(k, SubSeq(ops, Chunk + 1, Len(ops)))

Rot3(k) == k \in {"SO3", "SE3"}
AxesFor(k) == IF ~Rot3(k) THEN <<Axes3[1]>> ELSE IF Thorough THEN Axes3 ELSE <<Axes3[1], Axes3[5], Axes3[6], Axes3[10], Axes3[12]>>
SizesFor(k) == IF k \in {"SE2", "SE3"} \/ k \in VecKinds THEN IF Thorough THEN Sizes \o <<RDec(1, -10), RDec(1, -6), RInt(10000), RInt(1000000)>> ELSE <<RZero, RDec(1, -10), RDec(1, -6), RDec(1, -3), ROne, RInt(100), RInt(100000)>> ELSE <<ROne>>
Trans(k, st, i) == SymVec(st, i, 6)

\* all classes: angle x axis x sign x size
Grid(k, angles) ==
  LET A == AxesFor(k)  Z == SizesFor(k)  na == Len(angles)  nx == Len(A)  nz == Len(Z) IN
  [i \in 1..(na * nx * nz * 2) |->
     LET j == i - 1 IN
     [ang |-> angles[1 + (j % na)], axis |-> A[1 + ((j \div na) % nx)], size |-> Z[1 + ((j \div (na * nx)) % nz)],
      sgn |-> IF j \div (na * nx * nz) = 0 THEN 1 ELSE -1, n |-> i]]
TanG(k, g) == TanOf(k, g.axis, g.ang, g.sgn, VScale(g.size, Trans(k, 40000 + KindNo(k), g.n)))
RawG(k, g) == RawOf(k, g.axis, g.ang, g.sgn, VScale(g.size, Trans(k, 41000 + KindNo(k), g.n)))
AngFor(k, angles) == IF k \in VecKinds THEN <<RZero>> ELSE angles

FarAngles == <<RDec(333, -1), RInt(60), RInt(250), RInt(1000), RInt(12345)>>
ExpOps(k) == LET G == Grid(k, AngFor(k, AllAngles \o FarAngles)) IN [i \in 1..Len(G) |-> <<"exp", TanG(k, G[i])>>]
LogOps(k) == LET G == Grid(k, AngFor(k, AllAngles)) IN [i \in 1..Len(G) |-> <<"log", RawG(k, G[i])>>]
LogExpOps(k) == LET G == Grid(k, AngFor(k, TinyAngles \o MidAngles \o SubSeq(PiAngles, 1, 4))) IN [i \in 1..Len(G) |-> <<"logexp", TanG(k, G[i])>>]

\* retraction operators: random elements, and pairs a prescribed rotation apart
N == Pick2(25, 250)
Pair(k, st, i, j) ==     \* two elements whose relative rotation is the j-th angle class (same axis)
  LET a == Between(st, 512 * i + 3, RZero, RInt(2))  ax == Axis(st, i)  d == OneOf(st, 512 * i + 4, UpToPi) IN
  RawOf(k, ax, IF j = 1 THEN a ELSE RAdd(a, d), IF Pick(st, 512 * i + 4 + j, 3) = 0 THEN -1 ELSE 1,
        VScale(OneOf(st, 512 * i + 8, Sizes), SymVec(st, i + j, 6)))
RetrOps(k) ==
  Flatten([i \in 1..N |->
    LET st == 50000 + KindNo(k)
        x == IF i % 2 = 0 THEN RndRaw(k, st, i) ELSE Pair(k, st, i, 1)
        y == IF i % 2 = 0 THEN RndRaw(k, st, i + 3000) ELSE Pair(k, st, i, 2)
        xi == RndTan(k, st, i + 6000, IF i % 7 = 0 THEN FarAngles ELSE AllAngles)
    IN << <<"oplus", x, xi>>, <<"oplus_right", x, xi>>, <<"oplus_left", x, xi>>, <<"oplus_mut", x, xi>>,
          <<"ominus", x, y>>, <<"ominus_right", x, y>>, <<"ominus_left", x, y>>, <<"minus", x, y>>, <<"back", x, y>>,
          <<"ominus", x, x>>, <<"back", y, x>> >>])

Scenarios == Flatten([i \in 1..Len(KindSeq) |-> LET k == KindSeq[i] IN
               Chunks(k, ExpOps(k)) \o Chunks(k, LogOps(k)) \o Chunks(k, LogExpOps(k)) \o Chunks(k, RetrOps(k))])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
