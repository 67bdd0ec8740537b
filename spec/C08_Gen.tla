------------------------------ MODULE C08_Gen ------------------------------
(* Programs over group elements: every element class against every other, long random products, and           *)
(* from_matrix of rotations chosen by the specification (half turns, ties between the branches).               *)
EXTENDS Gen

Ang == Pick2(<<RZero, RDec(1, -7), RDec(5, -1), RDiv(RPi, RTwo), RInt(3), PiPlus(-1, -6), RPi, RInt(5)>>, AllAngles)

Pts(k, st) == IF k \in LieKinds THEN <<VZero(PtDim(k)), SymVec(st, 900001, PtDim(k)), VScale(RInt(50), SymVec(st, 900002, PtDim(k)))>> ELSE <<>>

\* the group laws for one triple of elements
Laws(k, a, b, c) ==
  << <<"new", a>>, <<"new", b>>, <<"new", c>>,
     <<"compose", 1, 2>>, <<"compose", 4, 3>>, <<"compose", 2, 3>>, <<"compose", 1, 6>>,      \* (ab)c and a(bc)
     <<"inverse", 1>>, <<"compose", 8, 1>>, <<"compose", 1, 8>>, <<"inverse", 8>>,
     <<"identity">>, <<"compose", 12, 1>>, <<"compose", 1, 12>>, <<"inverse", 12>>,
     <<"inverse", 4>>, <<"compose", 16, 4>>, <<"clone", 4>>, <<"compose", 1, 1>> >>
  \o (IF k \in LieKinds THEN << <<"mul", 1, 2>>, <<"mulref", 1, 2>>, <<"mul", 2, 1>> >>
      ELSE IF k = "BIAS" THEN << <<"sub", 1, 2>>, <<"subref", 1, 2>>, <<"unbias", 1, 2>>, <<"subref", 3, 1>>, <<"sub", 3, 3>>, <<"zeros", a>>, <<"zeros2", a>> >>
      ELSE << <<"from", a>>, <<"into", b>> >>)

\* a long product with inverses thrown in: registers grow one by one
RECURSIVE Long(_, _, _, _)
Long(k, st, i, n) ==     \* i registers so far
  IF i >= n THEN <<>>
  ELSE LET p == Pick(st, 2000 + i, 5)
           op == CASE p = 0 -> <<"inverse", i>>
                   [] p = 1 -> <<"compose", 1 + Pick(st, 3000 + i, i), i>>
                   [] p = 2 /\ k \in LieKinds -> <<"mulref", i, 1 + Pick(st, 3000 + i, i)>>
                   [] OTHER -> <<"compose", i, 1 + Pick(st, 3000 + i, 3)>>
       IN <<op>> \o Long(k, st, i + 1, n)

\* an axis with one component larger than the others, by more or less
Lean(st, x) == LET b == 1 + (x % 3)   d == SymVec(st, 8 * x, 3)   f == OneOf(st, 512 * x + 77, <<RDec(1, -3), RDec(3, -1), RDec(9, -1)>>) IN
  Normalised([i \in 1..3 |-> IF i = b THEN (IF Pick(st, 512 * x + 78, 2) = 0 THEN ROne ELSE RInt(-1)) ELSE RMul(f, d[i])])
Case(k, st, ops) == [t |-> "lieprog", kind |-> k, pts |-> Pts(k, st), ops |-> ops]

ClassCases(k) ==
  LET n == Len(Ang)
      El(st, i, ang, sgn) == RawOf(k, Axis(st, i), ang, sgn, VScale(OneOf(st, 512 * i + 7, Sizes), SymVec(st, i + 500, 6)))
  IN [x \in 1..(n * n) |->
       LET i == 1 + ((x - 1) \div n)   j == 1 + ((x - 1) % n)   st == 1000 * KindNo(k) + (x % 1000) IN
       Case(k, st, Laws(k, El(st, x, Ang[i], IF x % 3 = 0 THEN -1 ELSE 1), El(st, x + 3000, Ang[j], IF x % 5 = 0 THEN -1 ELSE 1),
                        RndRaw(k, st, 77)))]
VecCases(k) == [x \in 1..Pick2(20, 200) |-> LET st == 1000 * KindNo(k) + x IN
                 Case(k, st, Laws(k, RndRaw(k, st, 1), RndRaw(k, st, 2), RndRaw(k, st, 3)))]
LongCases(k) == [x \in 1..Pick2(10, 100) |-> LET st == 20000 + 1000 * KindNo(k) + x IN
                  Case(k, st, << <<"new", RndRaw(k, st, 1)>>, <<"new", RndGeneric(k, st, 2)>>, <<"new", RndRaw(k, st, 3)>> >>
                              \o Long(k, st, 3, Pick2(30, 80)))]

\* from_matrix: all axes with half turns and near half turns (both quaternion signs give the same matrix)
FromMat(k) ==
  LET angs == <<RZero, RDec(1, -6), ROne, RDiv(RPi, RTwo), RDec(2094, -3), RDec(2095, -3), PiPlus(-1, -3), PiPlus(-1, -6), PiPlus(-1, -9), RPi, PiPlus(1, -6), RInt(5)>>
      El(a, g) == RawOf(k, Axes3[a], g, 1, SymVec(31, a, 6))
      Exact == << MDiag(<<ROne, RInt(-1), RInt(-1)>>), MDiag(<<RInt(-1), ROne, RInt(-1)>>), MDiag(<<RInt(-1), RInt(-1), ROne>>), MId(3),
                  << <<RZero, ROne, RZero>>, <<ROne, RZero, RZero>>, <<RZero, RZero, RInt(-1)>> >>,
                  << <<RZero, RZero, ROne>>, <<RZero, RInt(-1), RZero>>, <<ROne, RZero, RZero>> >>,
                  << <<RZero, RInt(-1), RZero>>, <<RInt(-1), RZero, RZero>>, <<RZero, RZero, RInt(-1)>> >>,
                  << <<RInt(-1), RZero, RZero>>, <<RZero, RZero, ROne>>, <<RZero, ROne, RZero>> >>,
                  << <<RZero, RZero, ROne>>, <<ROne, RZero, RZero>>, <<RZero, ROne, RZero>> >> >>
      mats == [x \in 1..(Len(angs) * Len(Axes3)) |->
                 Mat(k, El(1 + ((x - 1) \div Len(angs)), angs[1 + ((x - 1) % Len(angs))]))]
              \o (IF k = "SO3" THEN Exact ELSE IF k = "SE3" THEN [i \in 1..Len(Exact) |-> Rigid(Exact[i], SymVec(32, i, 3))] ELSE <<>>)
              \o [x \in 1..Pick2(60, 1000) |-> Mat(k, RndRaw(k, 33, x))]
              \* more than 120 degrees: each branch on the largest diagonal entry, well inside and near its border
              \o [x \in 1..Pick2(160, 2000) |-> Mat(k, RawOf(k, Lean(34, x), Between(34, 512 * x + 500, RDec(209, -2), RAdd(RPi, RDec(1, 0))), IF x % 2 = 0 THEN 1 ELSE -1, VScale(RInt(3), SymVec(35, x, 6))))]
  IN << Case(k, 1, [i \in 1..Len(mats) |-> <<"frommat", mats[i]>>]) >>

Scenarios == Flatten([i \in 1..4 |-> ClassCases(LieSeq[i])]) \o Flatten([i \in 1..(Len(KindSeq) - 4) |-> VecCases(KindSeq[i + 4])])
             \o Flatten([i \in 1..Len(KindSeq) |-> LongCases(KindSeq[i])]) \o Flatten([i \in 1..4 |-> FromMat(LieSeq[i])])
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
