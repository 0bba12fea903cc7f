----------------------------- MODULE MC_Solution -----------------------------
(* Enumerates registries, event requests and integrator options; every       *)
(* finished behaviour is printed as a case and replayed in the real code.     *)
EXTENDS Solution, TLC, Json
CONSTANTS Pool, EvKinds, MaxEv
\* <<level, direction, terminal>>
Kinds == {<<"never", 0, 0>>, <<"low", 1, 0>>, <<"low", -1, 0>>, <<"high", 0, 0>>, <<"high", -1, 1>>, <<"low", 1, 1>>}
VARIABLES calls, evs, phase
vars == <<calls, evs, phase>>

Used == {Names(calls)[i] : i \in DOMAIN Names(calls)}
Groups == {<<a>> : a \in Pool} \cup {p \in Pool \X Pool : p[1] # p[2]}
Init == calls = <<>> /\ evs = <<>> /\ phase = "register"
Register == /\ phase = "register" /\ Cardinality(Used) < 3
            /\ \E g \in Groups : /\ {g[i] : i \in DOMAIN g} \cap Used = {}
                                 /\ Cardinality(Used) + Len(g) <= 3
                                 /\ calls' = Append(calls, g)
            /\ UNCHANGED <<evs, phase>>
StartEvents == phase = "register" /\ Used # {} /\ phase' = "events" /\ UNCHANGED <<calls, evs>>
AddEvent == /\ phase = "events" /\ Len(evs) < MaxEv
            /\ \E v \in Used, k \in EvKinds :
                 \* at most one terminal request: the integrator stops at the first of several
                 /\ (k[3] = 1 => \A i \in DOMAIN evs : evs[i].term = 0)
                 /\ evs' = Append(evs, [var |-> v, level |-> k[1], dir |-> k[2], term |-> k[3]])
            /\ UNCHANGED <<calls, phase>>
Solve == /\ phase = "events" /\ phase' = "solved"
         /\ PrintT("CASE " \o ToJson([calls |-> calls, evs |-> evs]))
         /\ UNCHANGED <<calls, evs>>
Next == Register \/ StartEvents \/ AddEvent \/ Solve
Spec == Init /\ [][Next]_vars

\* positions in registration order are a good index
Idx == [n \in Used |-> (CHOOSE i \in DOMAIN Names(calls) : Names(calls)[i] = n) - 1]
IndexIsBijective == GoodIndex(Names(calls), Idx)
RegistryGrows == [][Len(Names(calls')) >= Len(Names(calls)) /\ \A n \in Used : Idx'[n] = Idx[n]]_vars
=============================================================================
