------------------------------ MODULE Classify ------------------------------
(* Where inflation starts and ends, as a function of the recorded history.   *)
(* A history h has                                                           *)
(*   begin    "inflating" | "edge" | "not"     (the initial point)           *)
(*   tables   tracker -> sequence of crossings, for each tracker requested;  *)
(*            trackers: in0 in1 (into inflation, terminal flag), out0 out1,  *)
(*            collapse                                                       *)
EXTENDS Integers, Sequences, FiniteSets

Trackers == {"in0", "in1", "out0", "out1", "collapse"}
Fired(h, t) == t \in DOMAIN h.tables /\ h.tables[t] # <<>>

\* <<"undefined">> | <<"initial">> | <<tracker, 1>>
StartOf(h) == IF Fired(h, "collapse") THEN <<"undefined">>
              ELSE IF h.begin \in {"inflating", "edge"} THEN <<"initial">>
              ELSE IF Fired(h, "in0") THEN <<"in0">>
              ELSE IF Fired(h, "in1") THEN <<"in1">>
              ELSE <<"undefined">>
EndOf(h) == IF Fired(h, "out1") THEN <<"out1">>
            ELSE IF Fired(h, "out0") THEN <<"out0">>
            ELSE <<"undefined">>

WarnsOf(h) == (IF Fired(h, "collapse") THEN {"CollapseWarning"} ELSE {})
              \cup (IF StartOf(h) = <<"undefined">> /\ ~Fired(h, "collapse") THEN {"InflationStartWarning"} ELSE {})
              \cup (IF EndOf(h) = <<"undefined">> THEN {"InflationEndWarning"} ELSE {})
=============================================================================
