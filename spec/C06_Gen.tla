------------------------------ MODULE C06_Gen ------------------------------
(* Long histories over more keys, types and values.                                                            *)
EXTENDS Gen, ValuesMap
Keys == <<"x1", "x2", "l1", "a7", "x0", "l0", "a0", "x3", "l9", "a3", "x40", "l2">>
Types == <<"V1", "V2", "V3", "SO2", "SE2", "SO3", "SE3", "BIAS", "V6", "V9">>
RndOp(st, i, nk, nt) ==
  LET o == OneOf(st, 10 * i, <<"ins", "ins", "ins", "get", "mut", "mut", "rem", "entry_or", "entry_mod", "entry_rem", "filter", "clone", "ins", "get", "into", "fresh">>)
      h == 1 + Pick(st, 10 * i + 1, 2)   k == Keys[1 + Pick(st, 10 * i + 2, nk)]   t == Types[1 + Pick(st, 10 * i + 3, nt)]   v == 1 + Pick(st, 10 * i + 4, 4)
  IN CASE o = "ins" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"insert", "insert_unchecked">>), h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "get" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"get", "get_unchecked", "get_mut", "get_unchecked_mut">>), h |-> h, k |-> k, t |-> t]
       [] o = "mut" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"get_mut", "get_unchecked_mut">>), h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "rem" -> [o |-> o, h |-> h, k |-> k, t |-> t]
       [] o \in {"entry_or", "entry_mod"} -> [o |-> o, h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "entry_rem" -> [o |-> o, h |-> h, k |-> k]
       [] o = "filter" -> [o |-> o, h |-> h, t |-> t]
       [] OTHER -> [o |-> o, h |-> h]
Rnd(st) == [t |-> "values", ops |-> [i \in 1..40 |-> RndOp(st, i, 2 + (st % 3), 2 + (st % 8))]]
\* larger maps: every key has a type it mostly keeps, the map is filled first and then worked on
Home(st, k) == Types[1 + Pick(st, 9000 + k, Len(Types))]
BigOp(st, i, nk) ==
  LET fill == i <= 2 * nk
      o == IF fill THEN "ins" ELSE OneOf(st, 10 * i, <<"ins", "get", "mut", "rem", "rem", "entry_or", "entry_mod", "entry_rem", "filter", "ins", "mut", "rem",
              IF Pick(st, 10 * i + 7, 3) = 0 THEN "clone" ELSE "rem", IF Pick(st, 10 * i + 7, 12) = 0 THEN "into" ELSE "ins">>)
      kn == IF fill THEN 1 + (i % nk) ELSE 1 + Pick(st, 10 * i + 2, nk)
      h == IF i <= nk THEN 1 ELSE IF fill THEN 2 ELSE 1 + Pick(st, 10 * i + 1, 2)
      t == IF Pick(st, 10 * i + 3, 8) = 0 THEN Types[1 + Pick(st, 10 * i + 6, Len(Types))] ELSE Home(st, kn)
      x == RndOp(st, i, nk, Len(Types))   v == 1 + Pick(st, 10 * i + 4, 4)   k == Keys[kn]
  IN CASE o = "ins" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"insert", "insert_unchecked">>), h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "get" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"get", "get_unchecked", "get_mut", "get_unchecked_mut">>), h |-> h, k |-> k, t |-> t]
       [] o = "mut" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"get_mut", "get_unchecked_mut">>), h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "rem" -> [o |-> o, h |-> h, k |-> k, t |-> t]
       [] o \in {"entry_or", "entry_mod"} -> [o |-> o, h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "entry_rem" -> [o |-> o, h |-> h, k |-> k]
       [] o = "filter" -> [o |-> o, h |-> h, t |-> t]
       [] OTHER -> [o |-> o, h |-> h]
Big(st) == LET nk == 3 + (st % 10) IN [t |-> "values", ops |-> [i \in 1..(2 * nk + 30) |-> BigOp(st, i, nk)]]
\* maps of many variables: filled, thinned out, filled again, with looks in between
\* (two of them raw keys of the user's own symbol type: the first and the last key there are)
ManyKeys(n) == [i \in 1..n |-> IF i = 3 THEN "#0" ELSE IF i = 11 THEN "#18446744073709551615" ELSE <<"x", "l", "a">>[1 + (i % 3)] \o ToString(IF i % 5 = 0 THEN 1000000 + i ELSE i)]
ManyOp(st, i, n) ==
  LET ks == ManyKeys(n)   fill == i <= n
      kn == IF fill THEN i ELSE 1 + Pick(st, 10 * i + 2, n)
      o == IF fill THEN "ins" ELSE OneOf(st, 10 * i, <<"ins", "get", "mut", "rem", "rem", "rem", "entry_or", "entry_mod", "entry_rem", "filter",
              IF Pick(st, 10 * i + 7, 8) = 0 THEN "clone" ELSE "rem", IF Pick(st, 10 * i + 7, 60) = 0 THEN "into" ELSE "ins">>)
      h == IF fill THEN 1 ELSE 1 + (IF Pick(st, 10 * i + 1, 5) = 0 THEN 1 ELSE 0)
      t == IF Pick(st, 10 * i + 3, 8) = 0 THEN Types[1 + Pick(st, 10 * i + 6, Len(Types))] ELSE Home(st, kn)
      v == 1 + Pick(st, 10 * i + 4, 4)   k == ks[kn]
  IN CASE o = "ins" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"insert", "insert_unchecked">>), h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "get" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"get", "get_unchecked", "get_mut", "get_unchecked_mut">>), h |-> h, k |-> k, t |-> t]
       [] o = "mut" -> [o |-> o, api |-> OneOf(st, 10 * i + 5, <<"get_mut", "get_unchecked_mut">>), h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "rem" -> [o |-> o, h |-> h, k |-> k, t |-> t]
       [] o \in {"entry_or", "entry_mod"} -> [o |-> o, h |-> h, k |-> k, t |-> t, v |-> v]
       [] o = "entry_rem" -> [o |-> o, h |-> h, k |-> k]
       [] o = "filter" -> [o |-> o, h |-> h, t |-> t]
       [] OTHER -> [o |-> o, h |-> h]
Many(st, n) == [t |-> "values", keys |-> ManyKeys(n), ops |-> [i \in 1..(n + 60) |-> ManyOp(st, i, n)]]
Manys == [i \in 1..Pick2(6, 40) |-> Many(40000 + i, <<20, 40, 70>>[1 + (i % 3)])]
Scenarios == Manys \o [i \in 1..Pick2(120, 1500) |-> Big(20000 + i)] \o [i \in 1..Pick2(100, 1500) |-> Rnd(i)]
ASSUME ndJsonSerialize(IOEnv.OUT, Scenarios)
=============================================================================
