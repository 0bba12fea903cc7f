------------------------------ MODULE TraceRun ------------------------------
(* Runs a judge over every record of the trace in W independent chains, so   *)
(* that several TLC workers share the work.  Every record is consumed; every *)
(* violated clause is reported by name.                                      *)
EXTENDS TraceKit
CONSTANT Judge(_)       \* record -> record of booleans (clauses)
VARIABLES w, l, ncl, done
vars == <<w, l, ncl, done>>
W == 12
Init == w \in 0..(W-1) /\ l = 0 /\ ncl = 0 /\ done = FALSE
Idx == l * W + w + 1
Step == /\ Idx <= Len(Trace)
        /\ LET C == Judge(Trace[Idx]) IN
             /\ Report(Idx, Failing(C))
             /\ ncl' = ncl + Cardinality(DOMAIN C)
        /\ l' = l + 1
        /\ UNCHANGED <<w, done>>
Finish == /\ Idx > Len(Trace) /\ ~done
          /\ PrintT("DONE " \o ToString(l) \o " " \o ToString(ncl))
          /\ done' = TRUE
          /\ UNCHANGED <<w, l, ncl>>
Next == Step \/ Finish
=============================================================================
