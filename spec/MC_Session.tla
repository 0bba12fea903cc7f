----------------------------- MODULE MC_Session -----------------------------
(* A session in which several objects are made and asked in any order.  Each  *)
(* object is what it was made from, for good; nothing else in the session      *)
(* counts.  Recipes 1 and 2 of a family are nearly, not quite, the same.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Families, MaxObjects, MaxOps
VARIABLES made, ops
vars == <<made, ops>>
Recipes == Families \X (1..3)
Init == made = <<>> /\ ops = <<>>
Make == /\ Len(made) < MaxObjects /\ Len(ops) < MaxOps - 1
        /\ \E r \in Recipes : made' = Append(made, r) /\ ops' = Append(ops, [op |-> "make", fam |-> r[1], var |-> r[2], obj |-> Len(made) + 1])
Ask == /\ Len(ops) < MaxOps
       /\ \E i \in DOMAIN made : ops' = Append(ops, [op |-> "ask", fam |-> made[i][1], var |-> made[i][2], obj |-> i])
       /\ UNCHANGED made
Next == Make \/ Ask
Spec == Init /\ [][Next]_vars
Asked == {i \in DOMAIN made : \E j \in DOMAIN ops : ops[j].op = "ask" /\ ops[j].obj = i}
\* a session worth replaying: two objects at least, every one asked, and the last operation is an answer
Emit == (Len(made) > 1 /\ Asked = DOMAIN made /\ ops[Len(ops)].op = "ask") => PrintT("CASE " \o ToJson([ops |-> ops]))
\* what an answer may depend on
Answer(i) == made[i]
ObjectsAreConstant == [][\A i \in DOMAIN made : made'[i] = made[i]]_vars
AnswersByRecipe == \A i, j \in DOMAIN made : made[i] = made[j] => Answer(i) = Answer(j)
EveryAnswerHasItsRecipe == \A j \in DOMAIN ops : ops[j].op = "ask" => Answer(ops[j].obj) = <<ops[j].fam, ops[j].var>>
=============================================================================
