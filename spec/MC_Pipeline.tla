---------------------------- MODULE MC_Pipeline -----------------------------
(* Requests worked off one wavenumber after another; whatever the list, every *)
(* position ends up with what its wavenumber gives alone.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Waves, MaxLen
Vacua == {"none", "RST", "k", "HD", "HD k RST", "k RST", "k HD"}
VARIABLES K, form, vac, drop, req, res, at
vars == <<K, form, vac, drop, req, res, at>>
Requests == UNION {[1..n -> Waves] : n \in 1..MaxLen}
Init == /\ K \in {-1, 0, 1} /\ form \in {"T", "N"} /\ vac \in Vacua /\ drop \in BOOLEAN
        /\ (K # 1 => drop)
        /\ req \in Requests
        /\ res = [i \in DOMAIN req |-> "pending"] /\ at = 0
\* one mode: "long" waves are those the drop applies to
Alone(m) == IF K = 1 /\ drop /\ m = "long" THEN "negligible" ELSE m
Work == /\ at < Len(req)
        /\ at' = at + 1
        /\ res' = [res EXCEPT ![at + 1] = Alone(req[at + 1])]
        /\ (at' = Len(req) => PrintT("CASE " \o ToJson([K |-> K, form |-> form, vac |-> vac, drop |-> drop, req |-> req])))
        /\ UNCHANGED <<K, form, vac, drop, req>>
Spec == Init /\ [][Work]_vars
InPlace == \A i \in DOMAIN req : IF i <= at THEN res[i] = Alone(req[i]) ELSE res[i] = "pending"
\* permuting a request permutes its result
Independent == at = Len(req) => \A i, j \in DOMAIN req : req[i] = req[j] => res[i] = res[j]
=============================================================================
