---------------------------- MODULE MC_Classify ----------------------------
(* A universe alternates between inflating and not; trackers record its      *)
(* transitions; a terminal tracker or a collapse stops the integration.      *)
(* A tracker with an offset fires one tick after the transition.             *)
EXTENDS Classify, TLC, Json
CONSTANTS MaxFlips
VARIABLES begin, tracked, offset, infl, clock, tables, flips, stopped, entries, exits
vars == <<begin, tracked, offset, infl, clock, tables, flips, stopped, entries, exits>>

Init == /\ begin \in {"inflating", "edge", "not"}
        /\ tracked \in SUBSET Trackers
        /\ offset \in BOOLEAN
        /\ infl = (begin # "not")
        /\ clock = 0 /\ flips = 0 /\ stopped = FALSE
        /\ tables = [t \in tracked |-> <<>>]
        /\ entries = <<>> /\ exits = <<>>

\* record a transition at the current instant in every tracker of that direction; the terminal one may be late (offset)
\* and, when it stops the integration, the other may miss the coincident crossing
Record(t0, t1) ==
  \E seen0 \in IF t1 \in tracked /\ ~offset THEN BOOLEAN ELSE {TRUE} :
    tables' = [t \in tracked |->
                 IF t = t1 THEN Append(tables[t], IF offset THEN clock + 1 ELSE clock)
                 ELSE IF t = t0 /\ seen0 THEN Append(tables[t], clock) ELSE tables[t]]

Flip == /\ ~stopped /\ flips < MaxFlips
        /\ clock' = clock + 2
        /\ flips' = flips + 1
        /\ infl' = ~infl
        /\ IF infl THEN /\ Record("out0", "out1") /\ stopped' = ("out1" \in tracked)
                        /\ exits' = Append(exits, clock) /\ UNCHANGED entries
                   ELSE /\ Record("in0", "in1") /\ stopped' = ("in1" \in tracked)
                        /\ entries' = Append(entries, clock) /\ UNCHANGED exits
        /\ UNCHANGED <<begin, tracked, offset>>
Collapse == /\ ~stopped /\ "collapse" \in tracked
            /\ tables' = [tables EXCEPT !["collapse"] = <<clock>>]
            /\ stopped' = TRUE /\ clock' = clock + 2
            /\ UNCHANGED <<begin, tracked, offset, infl, flips, entries, exits>>
Stop == /\ clock < 1000 /\ clock' = 1000
        /\ PrintT("CASE " \o ToJson([begin |-> begin, tracked |-> tracked, tables |-> tables, flips |-> flips]))
        /\ UNCHANGED <<begin, tracked, offset, infl, tables, flips, stopped, entries, exits>>
Next == Flip \/ Collapse \/ Stop
Spec == Init /\ [][Next]_vars

H == [begin |-> begin, tables |-> tables]
\* the classification is the truth about the universe whenever it is defined
StartIsTrue == LET s == StartOf(H) IN
  CASE s = <<"initial">> -> begin # "not"
    [] s = <<"in0">> -> begin = "not" /\ tables["in0"][1] = entries[1]
    [] s = <<"in1">> -> begin = "not" /\ tables["in1"][1] \in {entries[1], entries[1] + 1}
    [] OTHER -> Fired(H, "collapse") \/ begin = "not"
EndIsTrue == LET e == EndOf(H) IN
  CASE e = <<"out0">> -> tables["out0"][1] = exits[1]
    [] e = <<"out1">> -> tables["out1"][1] \in {exits[1], exits[1] + 1}
    [] OTHER -> exits = <<>> \/ tracked \cap {"out0", "out1"} = {}
\* with trackers for both directions nothing is missed
Complete == (~Fired(H, "collapse") /\ {"in0", "out0"} \subseteq tracked /\ ~stopped) =>
              /\ (StartOf(H) = <<"undefined">>) <=> (begin = "not" /\ entries = <<>>)
              /\ (EndOf(H) = <<"undefined">>) <=> exits = <<>>
\* a universe that starts out inflating leaves inflation after its start
Ordered == \A t \in tracked : \A i \in DOMAIN tables[t] : i > 1 => tables[t][i - 1] < tables[t][i]
=============================================================================
