---------------------------- MODULE TraceHistory ----------------------------
(* P11, P23: recorded histories of real solutions.  obs[i] is what is reported     *)
(* after operation i, refs what a fresh solution reports in the state named.  *)
EXTENDS History, TraceKit
VARIABLES w, l, ncl, done

\* a value is recorded as <<digest, samples...>>
SameVal(a, b) == \/ a[1] = b[1]
                 \/ Len(a) = Len(b) /\ Len(a) > 1 /\ \A i \in 2..Len(a) : a[i] = b[i] \/ CloseRel(a[i], b[i], "1e-9")
Same(ref, o) == \A n \in DOMAIN ref : n \in DOMAIN o /\ SameVal(ref[n], o[n])
Differs(ref, o) == {n \in DOMAIN ref : ~(n \in DOMAIN o /\ SameVal(ref[n], o[n]))}
St(r, i) == After(r.K, SubSeq(r.ops, 1, i))
Kind(r, i) == Ops(r.K)[r.ops[i]].kind
JudgeHistory(r) ==
  LET n == Len(r.ops)
      ok(i) == Same(r.refs[Name(St(r, i))], r.obs[i])
      J(P(_)) == \A i \in 1..n : P(i) => ok(i)
  IN [ outcomes |-> \A i \in 1..n : (r.exc[i] = "none") <=> (Ops(r.K)[r.ops[i]].fate = "ok"),
       after_success |-> J(LAMBDA i : r.exc[i] = "none" /\ Kind(r, i) # "query"),
       after_refusal |-> J(LAMBDA i : r.exc[i] # "none"),
       after_query |-> J(LAMBDA i : Kind(r, i) = "query"),
       queries |-> St(r, n).last # "none" => Same(r.refq, r.q),
       queries_inert |-> Same(r.obs[n], r.final) ]

\* several objects in one session (MC_Session): each answers as it does alone
JudgeSession(r) == [ independent |-> \A i \in DOMAIN r.q : Same(r.q[i].ref, r.q[i].obs) /\ DOMAIN r.q[i].ref = DOMAIN r.q[i].obs ]
Judge(r) == IF r.kind = "session" THEN JudgeSession(r) ELSE JudgeHistory(r)
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
