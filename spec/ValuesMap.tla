----------------------------- MODULE ValuesMap -----------------------------
(* Values as a finite map from keys to typed variables.  The state holds two maps (handles 1 and 2, so that     *)
(* clones can be followed); a slot is <<>> or <<type, value>>.  Outcomes(m, op) is the set of <<next state,      *)
(* result>> an operation may have: a singleton except for remove with a type that does not match, of which the  *)
(* interface only says that nothing is returned.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty(Keys) == [k \in Keys |-> <<>>]
Has(s, t) == s # <<>> /\ s[1] = t
Other(h) == 3 - h
Put(m, h, k, s) == [m EXCEPT ![h][k] = s]
Entries(mp) == {<<k, mp[k][1], mp[k][2]>> : k \in {x \in DOMAIN mp : mp[x] # <<>>}}
Size(mp) == Cardinality({k \in DOMAIN mp : mp[k] # <<>>})
\* how many variables of type t have value v
CountOf(mp, t, v) == Cardinality({k \in DOMAIN mp : mp[k] = <<t, v>>})
Filtered(mp, t) == {<<v, CountOf(mp, t, v)>> : v \in {mp[k][2] : k \in {x \in DOMAIN mp : Has(mp[x], t)}}}

Outcomes(m, op) ==
  LET h == op.h   mp == m[h] IN
  CASE op.o = "ins"       -> {<<Put(m, h, op.k, <<op.t, op.v>>), mp[op.k]>>}
    [] op.o = "get"       -> {<<m, IF Has(mp[op.k], op.t) THEN <<mp[op.k][2]>> ELSE <<>>>>}
    [] op.o = "mut"       -> IF Has(mp[op.k], op.t) THEN {<<Put(m, h, op.k, <<op.t, op.v>>), <<mp[op.k][2]>>>>} ELSE {<<m, <<>>>>}
    [] op.o = "rem"       -> IF Has(mp[op.k], op.t) THEN {<<Put(m, h, op.k, <<>>), <<mp[op.k][2]>>>>}
                             ELSE {<<m, <<>>>>, <<Put(m, h, op.k, <<>>), <<>>>>}
    [] op.o = "entry_or"  -> IF mp[op.k] = <<>> THEN {<<Put(m, h, op.k, <<op.t, op.v>>), <<op.t, op.v>>>>} ELSE {<<m, mp[op.k]>>}
    [] op.o = "entry_mod" -> IF Has(mp[op.k], op.t) THEN {<<Put(m, h, op.k, <<op.t, op.v>>), <<TRUE>>>>} ELSE {<<m, <<mp[op.k] # <<>>>>>>}
    [] op.o = "entry_rem" -> {<<Put(m, h, op.k, <<>>), mp[op.k]>>}
    [] op.o = "filter"    -> {<<m, Filtered(mp, op.t)>>}
    [] op.o = "clone"     -> {<<[m EXCEPT ![Other(h)] = mp], <<>>>>}
    [] op.o = "into"      -> {<<[m EXCEPT ![h] = Empty(DOMAIN mp)], Entries(mp)>>}
    [] op.o = "fresh"     -> {<<[m EXCEPT ![h] = Empty(DOMAIN mp)], <<>>>>}

AllOps(Hs, Ks, Ts, Vs) ==
  LET kt == {[h |-> h, k |-> k, t |-> t] : h \in Hs, k \in Ks, t \in Ts}
      ktv == {[h |-> h, k |-> k, t |-> t, v |-> v] : h \in Hs, k \in Ks, t \in Ts, v \in Vs} IN
  {[o |-> "ins", api |-> a] @@ x : a \in {"insert", "insert_unchecked"}, x \in ktv}
  \cup {[o |-> "get", api |-> a] @@ x : a \in {"get", "get_unchecked", "get_mut", "get_unchecked_mut"}, x \in kt}
  \cup {[o |-> "mut", api |-> a] @@ x : a \in {"get_mut", "get_unchecked_mut"}, x \in ktv}
  \cup {[o |-> "rem"] @@ x : x \in kt}
  \cup {[o |-> "entry_or"] @@ x : x \in ktv} \cup {[o |-> "entry_mod"] @@ x : x \in ktv}
  \cup {[o |-> "entry_rem", h |-> h, k |-> k] : h \in Hs, k \in Ks}
  \cup {[o |-> "filter", h |-> h, t |-> t] : h \in Hs, t \in Ts}
  \cup {[o |-> x, h |-> h] : x \in {"clone", "into", "fresh"}, h \in Hs}
\* the keys of handle h an operation may change
Touches(op, Ks) == IF op.o \in {"get", "filter"} THEN {} ELSE IF "k" \in DOMAIN op THEN {op.k} ELSE Ks
=============================================================================
