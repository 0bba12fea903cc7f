------------------------------- MODULE MC_Ctor ------------------------------
(* Every combination of constructor arguments of every potential class.      *)
EXTENDS SlowRoll, TLC, Json, FiniteSets
VARIABLES cls, given, done
Init == /\ cls \in DOMAIN Needs
        /\ \E c \in SUBSET Common, u \in {{}, {"mass"}, {"p"}, {"phi0"}, {"wobble"}}, m \in SUBSET Needs[cls] :
              given = c \cup (u \ Needs[cls]) \cup m
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<cls, given>>
        /\ PrintT("CASE " \o ToJson([cls |-> cls, given |-> given, outcome |-> Outcome(cls, given)]))
\* a potential always comes with exactly one source for its amplitude
OneAmplitude == Outcome(cls, given) \notin {"refused", "refused, documented"} =>
                  Cardinality(given \cap {"N_star", "phi_star"}) = (IF "A_s" \in given THEN 1 ELSE 0)
NothingIgnored == Outcome(cls, given) = "built" => given \ Needs[cls] \subseteq {"Lambda"}
Monotone == \A x \in Needs[cls] : Outcome(cls, given \ {x}) = "refused"
=============================================================================
