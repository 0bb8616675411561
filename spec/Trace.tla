------------------------------- MODULE Trace -------------------------------
(* Common part of the conformance checks: the traces recorded from the      *)
(* implementation are read from the file named by the environment; a module *)
(* of a component defines Start(cfg) and Step(cfg, state, record), which    *)
(* executes one recorded command on the specification and compares what was *)
(* observed:  [st |-> next state, bad |-> set of <<aspect, ...>> that       *)
(* differ, exp |-> what was expected (for the report)].                     *)
(* Every trace is one behaviour, from its own initial state, and ends with  *)
(* a DONE or a MISMATCH message.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

Diff(name, a, b) == IF a = b THEN {} ELSE {name}

\* The multiset of the elements of a sequence.
BagOf(s) == LET R == {s[i] : i \in DOMAIN s}
            IN [x \in R |-> Cardinality({i \in DOMAIN s : s[i] = x})]

Report(t, i, r) ==
  PrintT(<<"MISMATCH", ToJson([id |-> t.id, i |-> i, bad |-> r.bad, exp |-> r.exp])>>)
Finished(t) == PrintT(<<"DONE", t.id>>)
=============================================================================
