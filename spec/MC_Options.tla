----------------------------- MODULE MC_Options -----------------------------
(* Every combination of integrator options a caller may or may not give.     *)
EXTENDS Solution, TLC, Json
VARIABLES user, done
Opt(o, vals) == {<<>>} \cup {<<o, v>> : v \in vals}
Init == /\ done = FALSE
        /\ \E m \in {"absent", "RK23", "RK45", "DOP853", "LSODA"}, r \in {"absent", "1e-06", "0.3", "4e-14"},
             a \in {"absent", "1e-09", "0.0", "1e-30", "2.0"}, e \in BOOLEAN, d \in BOOLEAN, s \in {"absent", "0.25"}, f \in {"absent", "0.125"}, v \in BOOLEAN, p \in BOOLEAN :
             user = [method |-> m, rtol |-> r, atol |-> a, t_eval |-> e, dense_output |-> d, max_step |-> s, first_step |-> f,
                     vectorized |-> v, positional |-> p]
Emit == ~done /\ done' = TRUE /\ PrintT("CASE " \o ToJson(user)) /\ UNCHANGED user
Next == Emit
\* an absent option means the documented default
Given == [o \in {x \in {"method", "rtol", "atol"} : user[x] # "absent"} |-> user[o]]
DefaultsApply == \A o \in {"method", "rtol", "atol"} :
                    Expected(Given, o) = IF user[o] = "absent" THEN Default[o] ELSE user[o]
=============================================================================
