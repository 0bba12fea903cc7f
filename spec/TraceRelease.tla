---------------------------- MODULE TraceRelease ----------------------------
(* P22: recorded answers of the release tools.                                *)
EXTENDS Release, TraceKit
VARIABLES w, l, ncl, done
Right(a, b, got) == LET m == Next1(a, b) IN m = "open" \/ got = (m = "yes")
Judge(r) ==
  CASE r.kind = "successors" -> \* all versions asked, those accepted
         LET yes == {r.accepted[i] : i \in DOMAIN r.accepted} IN
         [ accepts |-> \A i \in DOMAIN r.asked : Next1(r.asked[i], r.b) = "yes" => r.asked[i] \in yes,
           rejects |-> \A a \in yes : Next1(a, r.b) # "no",
           answers |-> r.exc = "none" ]
    [] r.kind = "gate" ->  \* the check run on a branch
         [ gate |-> IF r.readme = r.file THEN Right(r.file, r.master, r.passed) ELSE ~r.passed ]
    [] r.kind = "bump" ->
         [ bumped |-> r.file = Bump(r.old, r.what) /\ r.readme = Bump(r.old, r.what),
           nothing_else |-> r.others /\ r.clean,
           ran |-> r.rc = 0 ]
    [] r.kind = "tree" -> [ in_step |-> r.file = r.readme /\ Len(r.file) = 3 ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
