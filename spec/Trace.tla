------------------------------- MODULE Trace -------------------------------
(* Shape of every conformance check.  A recorded trace has one case per scenario: the scenario that was given  *)
(* to the harness and the events the real code produced.  A behaviour of the check takes one case, consumes    *)
(* its events one by one and then ends; the including module says what state it keeps and which clauses of the *)
(* specification an event breaks.  An event that breaks a clause is printed as a rejection; the run conforms   *)
(* when every event of every case was consumed and nothing was rejected.                                       *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json, RealNum

Cases == ndJsonDeserialize(IOEnv.TRACE)

\* sequence of <<name, holds>> -> set of names that do not hold
Broken(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}

\* reports the broken clauses of event n of a case
Report(id, n, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", id, n, bad>>)

\* what a recorded number is, for messages
RECURSIVE Show(_)
Show(v) == IF Len(v) = 0 THEN <<>> ELSE <<RShow(Head(v))>> \o Show(Tail(v))
=============================================================================
