------------------------------ MODULE C05_Gen ------------------------------
(* Problems for the histories of C05_Model (HIST), and the same problem posed to many instances at once.           *)
EXTENDS GenProb

Hist == ndJsonDeserialize(IOEnv.HIST)
Noises == <<"none", "scalar_sigma", "vec_sigma", "vec_inf", "matrix_cov", "matrix_inf">>
Kernels == <<"none", "none", "Huber", "Fair", "Cauchy">>
MixPools == << <<"V1", "V1", "V2">>, <<"V2", "V1", "V3", "V2">>, <<"SE2", "SE2", "SE2">>, <<"SO2", "SE2", "SO2">>, <<"SO3", "SO3", "V3">>, <<"SE3", "SE3">>, <<"SE2", "V2", "V2", "SE2">>,
            <<"SO2", "V1", "SE2", "SO3">> >>
ParamOf(lim) ==
  CASE lim = "full" -> [max |-> 60, tol |-> RZero, abs |-> RDec(1, -7), rel |-> RDec(1, -7)]
    [] lim = "one" -> [max |-> 1, tol |-> RZero, abs |-> RDec(1, -7), rel |-> RDec(1, -7)]
    [] lim = "exhaust" -> [max |-> 25, tol |-> RNeg(ROne), abs |-> RNeg(RInt(100)), rel |-> RNeg(RInt(100))]
OrderOf(ord, n) == CASE ord = "fwd" -> [i \in 1..n |-> i] [] ord = "rev" -> [i \in 1..n |-> 1 + n - i] [] ord = "more" -> [i \in 1..n |-> i] [] ord = "short" -> [i \in 1..(n - 1) |-> i]
\* names for the variables, the j-th way: other letters, other numbers, other order
NamesOf(st, n, j) == LET pm == Permutation(st, 9100 + j, n) IN [i \in 1..n |-> KeyNo(st + 3 * j, pm[i] + 2 * j)]
InstOf(st, j, opt, pr) ==
  [opt |-> opt, solver |-> OneOf(st, 9000 + j, <<"chol", "qr", "lu">>), facs |-> Permutation(st, 9050 + j, Len(pr.facs)), names |-> NamesOf(st, Len(pr.vars), j)]
Moved2(vars, st) == [i \in 1..Len(vars) |-> [vars[i] EXCEPT !.raw = Near(vars[i].kind, vars[i].raw, st, 70 + i, RDec(3, -1))]]
Case(pr, st, opt, ninst, runs, affine) ==
  [t |-> "posed", vars |-> pr.vars, facs |-> pr.facs, starts |-> <<pr.vars, Moved2(pr.vars, st)>>, affine |-> affine,
   insts |-> [j \in 1..ninst |-> InstOf(st, j, opt, pr)], runs |-> runs]
\* "more": variables in the map that no factor mentions, which only identity damping can leave where they are
RunOf(r, n, opt, x) == [inst |-> r.inst, start |-> r.start, lim |-> r.lim, order |-> OrderOf(r.ord, n), p |-> ParamOf(r.lim), extra |-> IF r.ord = "more" /\ opt = "lmi" THEN 1 + (((x \div 2) + n) % 2) ELSE 0, wide |-> x % 2 = 0]
Off(st) == OneOf(st, 2, <<RDec(1, -1), RDec(3, -1)>>)
Prob(i, st) ==
  LET p == 1 + (i % (Len(MixPools) + Len(ChainPools))) IN
  IF p <= Len(MixPools) THEN Problem(MixPools[p], st, 1 + Pick(st, 1, 4), RDec(2, -1), Off(st), RDec(1, -1), Noises, Kernels)
  ELSE Chain(ChainPools[p - Len(MixPools)], st, 1 + Pick(st, 1, 3), RDec(1, -1), Off(st), Noises, Kernels)
AffProb(i, st) == Problem(VecPools[1 + (i % Len(VecPools))], st, 1 + Pick(st, 1, 5), ROne, OneOf(st, 2, <<ROne, RInt(10)>>), RZero, Noises, <<"none">>)
Opt(st) == OneOf(st, 3, <<"gn", "lm", "lmi">>)
FromHist == [i \in 1..Len(Hist) |->
  LET st == 20 * (i % 1500)   aff == i % 5 = 0   pr == IF aff THEN AffProb(i, st) ELSE Prob(i, st)   n == Len(pr.vars)   h == Hist[i] IN
  Case(pr, st, Opt(st), 3, [k \in 1..Len(h) |-> RunOf(h[k], n, Opt(st), k + i)] \o <<RunOf([inst |-> 3, start |-> h[Len(h)].start, lim |-> "full", ord |-> OneOf(st, 6, <<"fwd", "rev">>)], n, Opt(st), 0)>>, aff)]
N == Pick2(60, 600)
Many == [i \in 1..N |->
  LET st == 32000 + 20 * i   aff == i % 3 = 0   pr == IF aff THEN AffProb(i, st) ELSE Prob(i, st)   n == Len(pr.vars) IN
  Case(pr, st, Opt(st), 5, [k \in 1..5 |-> [RunOf([inst |-> k, start |-> 1, lim |-> "full", ord |-> OneOf(st, 60 + k, <<"fwd", "fwd", "more">>)], n, Opt(st), k) EXCEPT !.order = Permutation(st, 9200 + k, n)]], aff)]
ASSUME ndJsonSerialize(IOEnv.OUT, FromHist \o Many)
=============================================================================
