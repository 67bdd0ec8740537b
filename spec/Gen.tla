-------------------------------- MODULE Gen --------------------------------
(* Vocabulary for generating inputs: seeded pseudo-random numbers and the classes of rotations, translations   *)
(* and tangent vectors at which implementations switch formulas.                                               *)
EXTENDS Lie, TLC, IOUtils, Json

Seed == atoi(IOEnv.VERIF_SEED) % 1000
Thorough == IOEnv.VERIF_TIER = "thorough"
Pick2(quick, thorough) == IF Thorough THEN thorough ELSE quick

\* stream number n (< 100000) of this run
Stream(n) == Seed * 1000000 + n
U(st, k)   == RUnif(Stream(st), k)                                     \* in [0, 1)
Sym(st, k) == RSub(RMul(RTwo, U(st, k)), ROne)                         \* in [-1, 1)
Between(st, k, a, b) == RAdd(a, RMul(RSub(b, a), U(st, k)))
Pick(st, k, n) == RPick(Stream(st), k, n)                              \* in 0..n-1
OneOf(st, k, sq) == sq[1 + Pick(st, k, Len(sq))]
SymVec(st, k, n) == [i \in 1..n |-> Sym(st, 64 * k + i)]
Normalised(v) == VScale(RDiv(ROne, VNorm(v)), v)

\* Directions of rotation axes: coordinate axes of both signs, ties between components, generic ones
Axes3 == << <<ROne, RZero, RZero>>, <<RZero, ROne, RZero>>, <<RZero, RZero, ROne>>,
            <<RInt(-1), RZero, RZero>>, <<RZero, RInt(-1), RZero>>, <<RZero, RZero, RInt(-1)>>,
            Normalised(<<ROne, ROne, RZero>>), Normalised(<<ROne, RZero, RInt(-1)>>), Normalised(<<RZero, ROne, ROne>>),
            Normalised(<<ROne, ROne, ROne>>), Normalised(<<RInt(-1), ROne, RInt(2)>>),
            Normalised(<<RDec(3, -1), RDec(-7, -1), RDec(5, -1)>>), Normalised(<<RDec(-11, -1), RDec(-2, -1), RDec(9, -1)>>) >>
Axis(st, k) == IF Pick(st, 64 * k, 2) = 0 THEN OneOf(st, 64 * k + 1, Axes3) ELSE Normalised(SymVec(st, k, 3))

\* Rotation angles: tiny, around the implementation's switches, ordinary, around pi/2, pi and 2 pi, beyond
PiPlus(m, k) == RAdd(RPi, RDec(m, k))
TwoPiPlus(m, k) == RAdd(RMul(RTwo, RPi), RDec(m, k))
TinyAngles == << RZero, RDec(1, -12), RDec(1, -9), RDec(1, -7), RDec(1, -6), RDec(5, -6), RDec(99, -7), RDec(101, -7), RDec(1, -4),
                 RDec(7, -4), RDec(99, -5), RDec(101, -5), RDec(19, -4), RDec(201, -5), RDec(31, -4), RDec(32, -4), RDec(5, -3) >>
MidAngles == << RDec(1, -2), RDec(3, -2), RDec(9, -2), RDec(1, -1), RDec(2, -1), RDec(5, -1), ROne, RDiv(RPi, RTwo), RAdd(RDiv(RPi, RTwo), RDec(1, -10)), RSub(RDiv(RPi, RTwo), RDec(1, -6)), RDec(16, -1), RInt(2), RDec(25, -1), RInt(3) >>
PiAngles == << PiPlus(-1, -3), PiPlus(-1, -5), PiPlus(-1, -6), PiPlus(-1, -9), RPi >>
BeyondAngles == << PiPlus(1, -9), PiPlus(1, -6), PiPlus(1, -3), RDec(35, -1), RDec(45, -1), RInt(6), TwoPiPlus(-1, -6), TwoPiPlus(1, -6), TwoPiPlus(1, -3),
                   RInt(7), RInt(9), RInt(12), RDec(127, -1), RInt(20) >>
UpToPi == TinyAngles \o MidAngles \o PiAngles
AllAngles == UpToPi \o BeyondAngles

Sizes == << RZero, RDec(1, -8), RDec(1, -3), ROne, RInt(3), RInt(100) >>   \* magnitudes of translations and vectors

\* an angle of the list, or one anywhere between 1e-9 and pi, every decade alike
AngleOf(st, k, angles) ==
  IF Pick(st, k + 7, 3) = 0 THEN RMul(Between(st, k + 8, RDec(3, -1), RDec(31, -1)), RDec(1, -Pick(st, k + 9, 10)))
  ELSE OneOf(st, k, angles)

Quat(axis, angle, sgn) ==
  LET h == RDiv(angle, RTwo)
      v == VScale(RMul(RInt(sgn), RSin(h)), axis) IN
  <<v[1], v[2], v[3], RMul(RInt(sgn), RCos(h))>>

\* the first n components; vectors longer than six go on with half of what came before
Fit(t, n) == [i \in 1..n |-> IF i <= 6 THEN t[i] ELSE RMul(RDec(5, -1), t[i - 6])]
\* Raw components of an element of kind k with rotation by `angle` about `axis` and the given translation/vector
RawOf(k, axis, angle, sgn, t) ==
  CASE k = "SO2" -> <<RCos(RMul(RInt(sgn), angle)), RSin(RMul(RInt(sgn), angle))>>
    [] k = "SE2" -> <<RCos(RMul(RInt(sgn), angle)), RSin(RMul(RInt(sgn), angle)), t[1], t[2]>>
    [] k = "SO3" -> Quat(axis, angle, sgn)
    [] k = "SE3" -> Quat(axis, angle, sgn) \o <<t[1], t[2], t[3]>>
    [] OTHER -> Fit(t, RawDim(k))

\* a random element: index k of stream st
RndRaw(k, st, i) ==
  RawOf(k, Axis(st, 8 * i), AngleOf(st, 512 * i + 500, AllAngles), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
        VScale(OneOf(st, 512 * i + 502, Sizes), SymVec(st, 8 * i + 1, 6)))
RndGeneric(k, st, i) ==
  RawOf(k, Axis(st, 8 * i), Between(st, 512 * i + 500, RZero, RPi), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
        VScale(RInt(2), SymVec(st, 8 * i + 1, 6)))
\* a tangent vector with the given rotation angle (about +-axis) and translation
TanOf(k, axis, angle, sgn, t) ==
  CASE k = "SO2" -> <<RMul(RInt(sgn), angle)>>
    [] k = "SE2" -> <<RMul(RInt(sgn), angle), t[1], t[2]>>
    [] k = "SO3" -> VScale(RMul(RInt(sgn), angle), axis)
    [] k = "SE3" -> VScale(RMul(RInt(sgn), angle), axis) \o <<t[1], t[2], t[3]>>
    [] OTHER -> Fit(t, TanDim(k))
RndTan(k, st, i, angles) ==
  TanOf(k, Axis(st, 8 * i), AngleOf(st, 512 * i + 500, angles), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
        VScale(OneOf(st, 512 * i + 502, Sizes), SymVec(st, 8 * i + 1, 6)))

KindSeq == << "SO2", "SE2", "SO3", "SE3", "V1", "V2", "V3", "V4", "V5", "V6", "BIAS", "V9" >>
LieSeq == << "SO2", "SE2", "SO3", "SE3" >>
KindNo(k) == CHOOSE i \in 1..Len(KindSeq) : KindSeq[i] = k

\* group operations on raw components
QMul(a, b) == << RSub(RAdd(RAdd(RMul(a[4], b[1]), RMul(a[1], b[4])), RMul(a[2], b[3])), RMul(a[3], b[2])),
                 RSub(RAdd(RAdd(RMul(a[4], b[2]), RMul(a[2], b[4])), RMul(a[3], b[1])), RMul(a[1], b[3])),
                 RSub(RAdd(RAdd(RMul(a[4], b[3]), RMul(a[3], b[4])), RMul(a[1], b[2])), RMul(a[2], b[1])),
                 RSub(RSub(RSub(RMul(a[4], b[4]), RMul(a[1], b[1])), RMul(a[2], b[2])), RMul(a[3], b[3])) >>
QInv(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3]), a[4]>>
QRot(a, v) == MVec(QuatMat(a[1], a[2], a[3], a[4]), v)
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CInv(a) == <<a[1], RNeg(a[2])>>
RawMul(k, a, b) ==
  CASE k = "SO2" -> CMul(a, b)
    [] k = "SE2" -> CMul(a, b) \o VAdd(CMul(a, <<b[3], b[4]>>), <<a[3], a[4]>>)
    [] k = "SO3" -> QMul(a, b)
    [] k = "SE3" -> QMul(a, b) \o VAdd(QRot(a, SubSeq(b, 5, 7)), SubSeq(a, 5, 7))
    [] OTHER -> VAdd(a, b)
RawInv(k, a) ==
  CASE k = "SO2" -> CInv(a)
    [] k = "SE2" -> CInv(a) \o VNeg(CMul(CInv(a), <<a[3], a[4]>>))
    [] k = "SO3" -> QInv(a)
    [] k = "SE3" -> QInv(a) \o VNeg(QRot(QInv(a), SubSeq(a, 5, 7)))
    [] OTHER -> VNeg(a)

RECURSIVE Flat(_, _)
Flat(ss, n) == IF n = 0 THEN <<>> ELSE Flat(ss, n - 1) \o ss[n]
Flatten(ss) == Flat(ss, Len(ss))
=============================================================================
