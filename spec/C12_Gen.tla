------------------------------ MODULE C12_Gen ------------------------------
(* Factors: every residual shape with every combination of noise and kernel, and every form of fac!.           *)
EXTENDS GenFac

Rev(sq) == [i \in 1..Len(sq) |-> sq[Len(sq) + 1 - i]]
MkCase(ks, res, rows, nk, kk, st) ==
  LET keys == [i \in 1..Len(ks) |-> KeyNo(st, i)]
      vars == [i \in 1..Len(ks) |-> Var(keys[i], ks[i], El(ks[i], st, i))]
  IN [t |-> "factor", vars |-> Rev(vars),
      f |-> [res |-> res, keys |-> keys, noise |-> NoiseOf(nk, st, rows), kernel |-> KernelOf(kk, st), swap |-> Pick(st, 77, 2) = 0, redo |-> Pick(st, 78, 3) = 0]]

Reps == Pick2(1, 8)
AllNoises == NoiseKinds \o <<"spread", "weak", "strong">>
NN == Len(AllNoises)   NK == Len(KernelKinds)
\* all noise x kernel pairs, spread over the residual shapes
Shapes == Len(FacSigs) + 2 * Len(KindSeq)
ShapeCase(s, nk, kk, st) ==
  IF s <= Len(FacSigs) THEN LET rows == 1 + Pick(st, 9000001, 4) IN MkCase(FacSigs[s].k, CombRes(FacSigs[s], st, rows, RDec(3, -1)), rows, nk, kk, st)
  ELSE IF s <= Len(FacSigs) + Len(KindSeq) THEN LET k == KindSeq[s - Len(FacSigs)] IN MkCase(<<k>>, UnaryRes(k, st), TanDim(k), nk, kk, st)
  ELSE LET k == KindSeq[s - Len(FacSigs) - Len(KindSeq)] IN MkCase(<<k, k>>, BinaryRes(k, st), TanDim(k), nk, kk, st)
Main == Flatten([s \in 1..Shapes |-> Flatten([x \in 1..Reps |-> [j \in 1..10 |->
   LET st == 1 + 600 * s + 20 * x + j
       a == (s + 3 * x + j) % NN   b == (j + s + x) % NK
   IN ShapeCase(s, AllNoises[1 + a], KernelKinds[1 + b], st)]])])
Pairs == Flatten([a \in 1..NN |-> [b \in 1..NK |-> LET st == 40000 + 20 * a + b IN
   ShapeCase(1 + ((7 * a + b) % Len(FacSigs)), AllNoises[a], KernelKinds[b], st)]])

\* forms of fac!
FormSigs == <<"V2", "V2,V1", "V2,V1,V3", "SO2,V3,SE2,V1", "SO2,SE2,SO3,SE3,V2", "V6,SO3,V1,SE2,SO2,V2">>
FormLetters == << <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"q", "c", "p", "v">>, <<"q", "p", "r", "e", "a">>, <<"g", "r", "b", "p", "q", "a">> >>
FormRows == <<2, 3, 2, 3, 2, 4>>
ListForms == <<"arr", "arr,n", "arr,n,k", "tup", "tup,n", "tup,n,k", "tup,n,k,trailing">>
OneForms == <<"one", "one,n", "one,n,k", "var", "var,n", "var,n,k", "index", "index,n", "index,n,k", "path,n,k", "unit", "unit,k">>
Has(form, what) == \E i \in 1..Len(what) : what[i] = form
FormCase(s, form, st) ==
  LET sg == FacSigs[SigNo(FormSigs[s])]   ks == sg.k   rows == FormRows[s]
      keys == [i \in 1..Len(ks) |-> <<FormLetters[s][i], (5 * i + Pick(st, 9901, 50)) % 97>>]
      noisy == form \in {"arr,n", "arr,n,k", "tup,n", "tup,n,k", "tup,n,k,trailing", "one,n", "one,n,k", "var,n", "var,n,k", "index,n", "index,n,k", "path,n,k"}
      kern == form \in {"arr,n,k", "tup,n,k", "tup,n,k,trailing", "one,n,k", "var,n,k", "index,n,k", "path,n,k", "unit,k"}
  IN [t |-> "facform", form |-> form, vars |-> [i \in 1..Len(ks) |-> Var(keys[i], ks[i], El(ks[i], st, i))],
      f |-> [res |-> CombRes(sg, st, rows, RDec(3, -1)), keys |-> keys,
             noise |-> IF noisy THEN NoiseOf("matrix_inf", st, rows) ELSE IF form \in {"unit", "unit,k"} THEN [n |-> "unit"] ELSE [n |-> "none"],
             kernel |-> IF kern THEN [n |-> "Huber", c |-> RAdd(RDec(1, -1), U(st, 5))] ELSE [n |-> "none"]]]
Forms == Flatten([s \in 1..Len(FormSigs) |-> LET fs == IF s = 1 THEN ListForms \o OneForms ELSE ListForms IN
   Flatten([x \in 1..Pick2(2, 8) |-> [i \in 1..Len(fs) |-> FormCase(s, fs[i], 60000 + 1000 * s + 40 * x + i)]])])

\* a variable with a component that is not a number
NaN == RDiv(RZero, RZero)
HoleSigs == <<"V1", "V2,V1", "V3,V3", "V2,V1,V3", "SO2,V3,SE2,V1", "V1,V2,V3,V4,V5">>
Hole(sc, who, j) == [sc EXCEPT !.vars = [i \in 1..Len(@) |-> IF i = who THEN [@[i] EXCEPT !.raw = [@ EXCEPT ![j] = NaN]] ELSE @[i]]]
HoleCase(s, nk, kk, st) ==
  LET sc == ShapeCase(SigNo(HoleSigs[s]), nk, kk, st)
      vec == SelectSeq([i \in 1..Len(sc.vars) |-> i], LAMBDA i : sc.vars[i].kind \in VecKinds)
      who == OneOf(st, 71, vec) IN Hole(sc, who, 1 + Pick(st, 72, TanDim(sc.vars[who].kind)))
Holes == Flatten([a \in 1..Len(HoleSigs) |-> [b \in 1..(NK * Pick2(1, 4)) |-> LET st == 50000 + 200 * a + b IN
   HoleCase(a, AllNoises[1 + ((a + (3 * b)) % NN)], KernelKinds[1 + (b % NK)], st)]])

\* nothing left to explain: the residual is zero
Exact(k, nk, kk, st, two) ==
  LET sc == MkCase(IF two THEN <<k, k>> ELSE <<k>>, UnaryRes(k, st), TanDim(k), nk, kk, st)   x == sc.vars[1].raw IN
  [sc EXCEPT !.vars = [i \in 1..Len(@) |-> [@[i] EXCEPT !.raw = x]],
             !.f.res = IF two THEN [r |-> "between", kind |-> k, z |-> RawMul(k, RawInv(k, x), x)] ELSE [r |-> "prior", kind |-> k, z |-> x]]
Exacts == Flatten([a \in 1..Len(KindSeq) |-> [b \in 1..(NK * Pick2(1, 4)) |-> LET st == 55000 + 100 * a + b IN
   Exact(KindSeq[a], AllNoises[1 + ((a + (3 * b)) % NN)], KernelKinds[1 + (b % NK)], st, (a + b) % 3 = 0)]])
\* so far off that the squared residual is no longer finite: the error is what the kernel makes of infinity
FarKinds == <<"V1", "V2", "V3", "V4", "V6", "V9">>
FarCase(k, nk, kk, st, two) ==
  LET sc == MkCase(IF two THEN <<k, k>> ELSE <<k>>, IF two THEN BinaryRes(k, st) ELSE UnaryRes(k, st), TanDim(k), nk, kk, st) IN
  [sc EXCEPT !.vars[1].raw[1 + Pick(st, 73, TanDim(k))] = OneOf(st, 74, <<RDec(1, 200), RDec(-1, 200), RDec(1, 165), RDec(1, 145)>>)]
Fars == Flatten([a \in 1..Len(FarKinds) |-> [b \in 1..(NK * Pick2(1, 4)) |-> LET st == 57000 + 100 * a + b IN
   FarCase(FarKinds[a], AllNoises[1 + ((a + (3 * b)) % NN)], KernelKinds[1 + (b % NK)], st, (a + b) % 3 = 0)]])
Scenarios == Fars \o Exacts \o Main \o Pairs \o Forms \o Holes
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
