----------------------------- MODULE MC_Release -----------------------------
(* Histories of releases: every step a maintainer can take is a valid next    *)
(* version and no other version is; every pair goes to the real tools.         *)
EXTENDS Release, TLC, Json
CONSTANTS Numbers, Nums
Bases == {<<x, y, z>> : x \in Numbers, y \in Numbers, z \in Numbers}
Versions == {[base |-> b, tag |-> "", num |-> 0] : b \in Bases}
        \cup {[base |-> b, tag |-> t, num |-> n] : b \in Bases, t \in {"a", "b", "rc"}, n \in Nums}
VARIABLES v, step
Init == v \in {x \in Versions : Rel(x) \/ (x.num \in Nums)} /\ step = "start"
Release(k) == /\ step = "start" /\ Rel(v) /\ v' = [v EXCEPT !.base = Bump(v.base, k)] /\ step' = k
Begin(k) == /\ step = "start" /\ Rel(v) /\ v' = [base |-> Bump(v.base, k), tag |-> "a", num |-> 0] /\ step' = "begin"
Again == /\ step = "start" /\ ~Rel(v) /\ v' = [v EXCEPT !.num = @ + 1] /\ step' = "again"
Advance == /\ step = "start" /\ ~Rel(v) /\ \E t \in {"b", "rc"} : TagRank[t] > TagRank[v.tag] /\ v' = [v EXCEPT !.tag = t, !.num = 0]
           /\ step' = "advance"
Final == /\ step = "start" /\ ~Rel(v) /\ v' = [v EXCEPT !.tag = "", !.num = 0] /\ step' = "final"
Emit == PrintT("CASE " \o ToJson(v))
Pair == /\ step = "start" /\ Emit /\ step' = "pairs" /\ UNCHANGED v
Next == (\E k \in Kinds : Release(k) \/ Begin(k)) \/ Again \/ Advance \/ Final \/ Pair
Spec == Init /\ [][Next]_<<v, step>>
\* a step is valid, not valid backwards, and raises the version; a valid step is one of these
Valid == [][ step' \notin {"pairs"} => /\ Next1(v', v) = "yes" /\ Next1(v, v') = "no" /\ Next1(v, v) = "no"
                                       /\ ~Less(v'.base, v.base) ]_<<v, step>>
Ways(b) == IF Rel(b) THEN {[base |-> Bump(b.base, k), tag |-> "", num |-> 0] : k \in Kinds} \cup {[base |-> Bump(b.base, k), tag |-> t, num |-> 0] : k \in Kinds, t \in {"a", "b", "rc"}}
           ELSE {[b EXCEPT !.num = @ + 1], [b EXCEPT !.tag = "", !.num = 0]} \cup {[b EXCEPT !.tag = t, !.num = 0] : t \in {u \in {"a", "b", "rc"} : TagRank[u] > TagRank[b.tag]}}
Only == step = "start" => \A a \in Versions : (Next1(a, v) = "yes") = (a \in Ways(v))
=============================================================================
