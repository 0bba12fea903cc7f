------------------------------ MODULE MC_Detect ------------------------------
(* The integrator's detection rule (scipy): a step from g to h reports an up *)
(* event if g <= 0 <= h, a down event if h <= 0 <= g.  A tracker that knows  *)
(* the starting time reports its own direction there instead of the (round-  *)
(* off) value of the watched quantity.  Checked: over every history of signs *)
(* such a tracker reports each later crossing in its direction and nothing   *)
(* at the start; a tracker that does not know the time may.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES signs, dir, term, knows, fired, stopped, final
vars == <<signs, dir, term, knows, fired, stopped, final>>
\* value of the quantity at the start: round-off of either sign, or exactly zero
Init == /\ signs \in {<<0>>, <<1>>, <<-1>>}
        /\ dir \in {-1, 1} /\ term \in BOOLEAN /\ knows \in BOOLEAN
        /\ fired = <<>> /\ stopped = FALSE /\ final = FALSE
\* what the tracker returns at sample i
Ret(s, i) == IF knows /\ i = 1 THEN dir ELSE s[i]
Up(g, h) == g <= 0 /\ h >= 0
Down(g, h) == g >= 0 /\ h <= 0
Active(g, h) == (Up(g, h) /\ dir > 0) \/ (Down(g, h) /\ dir < 0)
Sample(v) == /\ ~stopped /\ Len(signs) < MaxLen /\ ~final
             /\ signs' = Append(signs, v)
             /\ LET n == Len(signs') IN
                  IF Active(Ret(signs', n - 1), Ret(signs', n))
                  THEN fired' = Append(fired, n - 1) /\ stopped' = term
                  ELSE UNCHANGED <<fired, stopped>>
             /\ UNCHANGED <<dir, term, knows, final>>
Emit == /\ ~final /\ Len(signs) > 2 /\ final' = TRUE
        /\ PrintT("CASE " \o ToJson([signs |-> signs, dir |-> dir, term |-> term, knows |-> knows, fired |-> fired]))
        /\ UNCHANGED <<signs, dir, term, knows, fired, stopped>>
Next == (\E v \in {-1, 1} : Sample(v)) \/ Emit
Spec == Init /\ [][Next]_vars

\* crossings after the first step, in the tracker's direction
True2(s) == {i \in 2..(Len(s) - 1) : (s[i] < 0 /\ s[i + 1] > 0 /\ dir > 0) \/ (s[i] > 0 /\ s[i + 1] < 0 /\ dir < 0)}
Rng(s) == {s[i] : i \in DOMAIN s}
NoSpurious == knows => 1 \notin Rng(fired)
\* everything after the start is reported until a terminal tracker stops the run
Sound    == Rng(fired) \ {1} \subseteq True2(signs)
CompleteD == (True2(signs) \ Rng(fired) # {}) => stopped
Ordered  == \A i \in DOMAIN fired : i > 1 => fired[i - 1] < fired[i]
TermOnce == term => Len(fired) <= 1
=============================================================================
