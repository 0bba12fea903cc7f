----------------------------- MODULE MC_BigBang ------------------------------
(* Universes followed step by step into the past and into the future: they    *)
(* meet a zero of the Hubble rate exactly when Fate says so.                  *)
EXTENDS BigBang, TLC, Json
CONSTANTS Matter, Lambda, Span
MatterSet == {0, 1, 3, 5, 6, 9, 10, 11, 15, 20}
LambdaSet == -6..36
VARIABLES om, ol, dir, i, met
vars == <<om, ol, dir, i, met>>
D(x) == Real(x) \oslash 10
Init == om \in Matter /\ ol \in Lambda /\ dir \in {-1, 1} /\ i = 0 /\ met = FALSE
F(j) == F3(D(om), D(ol), Exp((Real(dir) \otimes j) \oslash 20))
Walk == /\ i < Span /\ ~met
        /\ i' = i + 1 /\ met' = Le(F(i + 1), 0)
        /\ UNCHANGED <<om, ol, dir>>
Next == Walk
Spec == Init /\ [][Next]_vars
Ended == met \/ i = Span
\* too close to a boundary for a walk of finite steps
Edge == Lt(0, D(ol)) /\ Lt(OK3(D(om), D(ol)), 0) /\ Lt(AbsR(F3(D(om), D(ol), AMin(D(om), D(ol)))), "0.02")
FateIsMet == (Ended /\ ~Edge) => (met <=> Fate(D(om), D(ol)) = (IF dir = -1 THEN "BigBangError" ELSE "BigBangWarning"))
\* nothing both lacks a Big Bang and recollapses; more Lambda never recollapses
Exclusive == ~(NoBigBang(D(om), D(ol)) /\ Recollapses(D(om), D(ol)))
Monotone == /\ (NoBigBang(D(om), D(ol)) => NoBigBang(D(om), D(ol + 1)))
            /\ (Recollapses(D(om), D(ol)) => Recollapses(D(om), D(ol - 1)))
AllUnits == {"planck", "H0", "SI", "Mpc", "spam", "PLANCK", ""}
ASSUME \A q \in DOMAIN UnitsOf, u \in AllUnits, c \in {-1, 0, 1} :
         PrintT("CASE " \o ToJson([q |-> q, units |-> u, curv |-> c]))
=============================================================================
