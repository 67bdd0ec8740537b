------------------------------- MODULE Leven -------------------------------
(* The damping rules of Levenberg-Marquardt.  lam is the damping of the next attempt; p = [min, max, fac, diag]. *)
EXTENDS RealNum

LamInit == RDec(1, -5)
AfterAccept(p, lam) == RMax(RDiv(lam, p.fac), p.min)
AfterReject(p, lam) == RMul(lam, p.fac)
\* lam has grown beyond the limit; "tie" when only rounding could tell
Beyond(p, lam) == RLt(p.max, lam)
Tie(p, lam) == lam # p.max /\ RLe(RAbs(RSub(lam, p.max)), RMul(RDec(1, -9), p.max))
=============================================================================
