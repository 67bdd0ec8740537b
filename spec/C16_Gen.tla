------------------------------ MODULE C16_Gen ------------------------------
EXTENDS GenFac

\* variable at a chosen discrepancy from agreement: zero, tiny, ordinary, near half a turn, translated
Angles == <<RZero, RZero, RDec(1, -11), RDec(1, -9), RDec(3, -8), RDec(1, -6), RDec(1, -4), RDec(15, -4), RDec(5, -3), RDec(1, -1), ROne, RDiv(RPi, RTwo), RDiv(RMul(RTwo, RPi), RInt(3)), RInt(2), RDec(3, 0), RDec(31, -1), RDec(3141, -3)>>
Rel(k, st, i) == RawOf(k, Axis(st, 8 * i), OneOf(st, 512 * i + 500, Angles), IF Pick(st, 512 * i + 501, 2) = 0 THEN 1 ELSE -1,
                       VScale(OneOf(st, 512 * i + 502, <<RZero, RDec(1, -11), RDec(1, -9), RDec(1, -7), RDec(1, -5), RDec(1, -3), ROne, RInt(20)>>), SymVec(st, 8 * i + 1, 6)))
\* raw components of a matrix are needed only for kinds where composition is simple: take x := z or x2 := x1 z through the measurement instead
Ident(k) == RawOf(k, Axes3[1], RZero, 1, VZero(6))
Neg(k, raw) == CASE k = "SO3" -> VNeg(raw) [] k = "SE3" -> VNeg(SubSeq(raw, 1, 4)) \o SubSeq(raw, 5, 7) [] OTHER -> raw
Extra(st) == << Var(<<"w", 5>>, "V2", SymVec(st, 70, 2)), Var(<<"w", 6>>, "SE3", Mild("SE3", st, 71)) >>
Case(vars, res, keys) == [t |-> "residual", vars |-> vars, res |-> res, keys |-> keys, bad |-> FALSE]

PriorCase(k, x, st) ==
  LET z == El(k, st, 1)
      v == CASE x % 5 = 0 -> z [] x % 5 = 1 -> Neg(k, z) [] x % 5 = 2 -> Rel(k, st, 2) [] OTHER -> El(k, st, 2)
      zz == IF x % 5 = 2 THEN Ident(k) ELSE z
  IN Case(<<Var(KeyNo(st, 1), k, v)>> \o Extra(st), [r |-> "prior", kind |-> k, z |-> zz], <<KeyNo(st, 1)>>)
BetweenCase(k, x, st) ==
  LET a == El(k, st, 1)
      b == CASE x % 5 = 0 -> a [] x % 5 = 1 -> Neg(k, a) [] x % 5 = 2 -> a [] OTHER -> El(k, st, 2)
      z == CASE x % 5 \in {0, 1} -> Ident(k) [] x % 5 = 2 -> Rel(k, st, 3) [] OTHER -> El(k, st, 3)
      ka == KeyNo(st, 1)   kb == KeyNo(st, 2)
  IN Case(<<Var(kb, k, b)>> \o Extra(st) \o <<Var(ka, k, a)>>, [r |-> "between", kind |-> k, z |-> z], <<ka, kb>>)
N == Pick2(30, 150)
Lib == Flatten([k \in 1..Len(KindSeq) |-> [x \in 1..N |-> PriorCase(KindSeq[k], x, 400 * k + x)] \o [x \in 1..N |-> BetweenCase(KindSeq[k], x, 10000 + 400 * k + x)]])

\* every rotation kind at every discrepancy of the list, both ways round
At(k, st, a, sgn) == RawOf(k, Axis(st, 16), Angles[a], sgn, VScale(OneOf(st, 3, <<RZero, ROne, RTwo>>), SymVec(st, 17, 6)))
Each == Flatten([k \in 1..4 |-> Flatten([a \in 1..Len(Angles) |-> Flatten([x \in 1..2 |->
  LET kd == LieSeq[k]   st == 36000 + 400 * k + 8 * a + x   v == At(kd, st, a, IF x = 1 THEN 1 ELSE -1)   e == El(kd, st, 1)   ka == KeyNo(st, 1)   kb == KeyNo(st, 2) IN
  << Case(<<Var(ka, kd, v)>> \o Extra(st), [r |-> "prior", kind |-> kd, z |-> Ident(kd)], <<ka>>),
     Case(<<Var(kb, kd, e)>> \o Extra(st) \o <<Var(ka, kd, e)>>, [r |-> "between", kind |-> kd, z |-> v], <<ka, kb>>) >>])])])
User(s, st) ==
  LET sg == FacSigs[s]   ks == sg.k   keys == [i \in 1..Len(ks) |-> KeyNo(st, i)]   rows == 1 + Pick(st, 5, 4) IN
  Case(Extra(st) \o [i \in 1..Len(ks) |-> Var(keys[Len(ks) + 1 - i], ks[Len(ks) + 1 - i], El(ks[Len(ks) + 1 - i], st, Len(ks) + 1 - i))], CombRes(sg, st, rows, RDec(3, -1)), keys)
Users == Flatten([s \in 1..Len(FacSigs) |-> [x \in 1..Pick2(3, 30) |-> User(s, 20000 + 200 * s + 2 * x)]])

\* a key missing, or holding a variable of another type (of the same dimension where there is one)
Other(k) == CASE k = "SO2" -> "V1" [] k = "SE2" -> "SO3" [] k = "SO3" -> "V3" [] k = "SE3" -> "BIAS" [] k = "V1" -> "SO2" [] k = "V2" -> "V3"
              [] k = "V3" -> "SE2" [] k = "V4" -> "V5" [] k = "V5" -> "V4" [] k = "V6" -> "BIAS" [] k = "BIAS" -> "V6" [] k = "V9" -> "V6"
Spoil(cs, st) ==
  LET ki == 1 + Pick(st, 1, Len(cs.keys))
      vi == CHOOSE i \in 1..Len(cs.vars) : cs.vars[i].key = cs.keys[ki]   v == cs.vars[vi]
      vars == IF Pick(st, 2, 2) = 0 THEN SelectSeq(cs.vars, LAMBDA w : w.key # v.key)
              ELSE [cs.vars EXCEPT ![vi] = Var(v.key, Other(v.kind), Mild(Other(v.kind), st, 9))]
  IN [cs EXCEPT !.vars = vars, !.bad = TRUE]
Spoiled == Flatten([k \in 1..Len(KindSeq) |-> [x \in 1..Pick2(2, 10) |-> Spoil(PriorCase(KindSeq[k], x, 30000 + 40 * k + x), 30000 + 40 * k + x)]
                                           \o [x \in 1..Pick2(3, 10) |-> Spoil(BetweenCase(KindSeq[k], x, 32000 + 40 * k + x), 32000 + 40 * k + x)]])
           \o Flatten([s \in 1..Len(FacSigs) |-> [x \in 1..Pick2(3, 12) |-> Spoil(User(s, 34000 + 60 * s + 2 * x), 34000 + 60 * s + 2 * x)]])
Scenarios == Lib \o Each \o Users \o Spoiled
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
