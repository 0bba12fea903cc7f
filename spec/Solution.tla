------------------------------ MODULE Solution ------------------------------
(* The equations registry, the solver front end and the solution record.     *)
(* A set of equations registers its variables one call at a time; solving     *)
(* hands the integrator a start vector with one component per variable and    *)
(* turns its output into a record with every variable and every event table   *)
(* under its own name.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

\* registry: sequence of calls, each a sequence of new names
RECURSIVE Flat(_)
Flat(calls) == IF calls = <<>> THEN <<>> ELSE Head(calls) \o Flat(Tail(calls))
Names(calls) == Flat(calls)
IsInjective(f) == \A a, b \in DOMAIN f : f[a] = f[b] => a = b
\* idx: name -> component; a bijection onto 0..n-1
GoodIndex(names, idx) == /\ DOMAIN idx = {names[i] : i \in DOMAIN names}
                         /\ {idx[n] : n \in DOMAIN idx} = 0..(Len(names) - 1)
                         /\ IsInjective(idx)

\* integrator options: the user's, else the documented defaults
Default == [method |-> "RK45", rtol |-> "1e-10", atol |-> "1e-12"]
Expected(user, opt) == IF opt \in DOMAIN user THEN user[opt] ELSE Default[opt]
=============================================================================
