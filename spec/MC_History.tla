----------------------------- MODULE MC_History -----------------------------
(* A solution object that accumulates leftovers: scratch results of refused   *)
(* calibrations, spectra cached by queries, spectra selected by the search    *)
(* for a tilt.  What it reports is nevertheless a function of the last        *)
(* successful calibration and the selection made since.                       *)
EXTENDS History, TLC, Json, FiniteSets
CONSTANTS MaxOps
VARIABLES K, ops, s, cal, sel, cache
vars == <<K, ops, s, cal, sel, cache>>
\* cal: calibration in force; sel: selected spectrum <<calibration, approximation>>; cache: spectra kept, each with its calibration
Init == K \in {0, 1} /\ ops = <<>> /\ s = Fresh /\ cal = "none" /\ sel = <<"none", "none">> /\ cache = {}
Do(o) ==
  LET p == Ops(K)[o] IN
  /\ Enabled(K, s, o)
  /\ ops' = Append(ops, o) /\ s' = Apply(K, s, o) /\ UNCHANGED K
  /\ CASE p.fate = "refused" -> UNCHANGED <<cal, sel, cache>>
       [] p.kind \in {"calibrate", "tilt"} -> cal' = o /\ sel' = <<o, p.sel>> /\ cache' = {<<o, p.sel>>}
       \* a copied calibration brings no spectra of its own
       [] p.kind = "copy" -> cal' = o /\ UNCHANGED <<sel, cache>>
       [] p.kind = "select" -> sel' = <<cal, p.sel>> /\ cache' = cache \cup {<<cal, p.sel>>} /\ UNCHANGED cal
       [] p.kind = "query" -> UNCHANGED <<cal, sel, cache>>
Next == /\ Len(ops) < MaxOps
        /\ \E o \in DOMAIN Ops(K) : Do(o)
Spec == Init /\ [][Next]_vars

RECURSIVE Names(_)
Names(q) == IF q = << >> THEN << >> ELSE Append(Names(SubSeq(q, 1, Len(q) - 1)), After(K, q))
Emit == ops # << >> => PrintT("CASE " \o ToJson([K |-> K, ops |-> ops, states |-> Names(ops)]))

LastOk == LET I == {i \in DOMAIN ops : Ops(K)[ops[i]].fate = "ok" /\ Ops(K)[ops[i]].kind \in {"calibrate", "tilt", "copy"}}
          IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
\* the calibration in force is the last successful one
InForce == /\ s.last = cal
           /\ cal = IF LastOk = 0 THEN "none" ELSE ops[LastOk]
\* what is selected was derived from the calibration in force (copies excepted) and is what was last selected
Selected == s.sel # "none" => sel = <<s.last, s.sel>>
\* everything before the last success can be cut off
Forgets == LastOk > 0 => After(K, SubSeq(ops, LastOk, Len(ops))) = s
\* repeating the last calibration is a no-op unless something was selected since
Idempotent == (LastOk > 0 /\ LastOk = Len(ops)) => Apply(K, s, ops[LastOk]) = s
Inert == ops # << >> /\ (Ops(K)[ops[Len(ops)]].kind = "query" \/ Ops(K)[ops[Len(ops)]].fate = "refused")
           => s = After(K, SubSeq(ops, 1, Len(ops) - 1))
=============================================================================
