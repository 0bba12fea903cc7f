------------------------------ MODULE TraceKit ------------------------------
(* Common parts of the trace specifications: reading a trace recorded from  *)
(* the implementation, and total verdicts naming the violated clauses.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, F64

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* C is a record of booleans, one per clause of the specification
Failing(C) == {c \in DOMAIN C : ~C[c]}

Has(r, f) == f \in DOMAIN r

\* total access: a missing field is the NaN of every type
Get(r, f) == IF f \in DOMAIN r THEN r[f] ELSE "missing"

Report(i, bad) == IF bad = {} THEN TRUE
                  ELSE PrintT("FAIL " \o ToString(i) \o " " \o ToJson(bad))

\* merge of clause records
RECURSIVE MergeAll(_)
MergeAll(s) == IF s = <<>> THEN << >> ELSE Head(s) @@ MergeAll(Tail(s))

AllIn(s, P(_)) == \A i \in DOMAIN s : P(s[i])
=============================================================================
