----------------------------- MODULE MC_Initial -----------------------------
(* Every request; an accepted one determines its state.                      *)
EXTENDS Initial, Sequences, TLC, Json
VARIABLES q, phase
Req == { r \in [K : {-1, 0, 1}, given : {"N", "Omega", "both", "neither"}, om : {"neg", "zero", "pos", "one"},
                fits : BOOLEAN, form : {"T", "N"}, tt : BOOLEAN, te : BOOLEAN, ht : BOOLEAN, he : BOOLEAN,
                kind : {"SR", "IS"}] :
           /\ (r.form = "T" => r.ht /\ ~r.tt)          \* cosmic time is the independent variable there
           /\ (r.given \in {"Omega", "neither"} => r.fits)
           /\ (r.given \in {"N", "neither"} => r.om = "zero")
           /\ (~r.fits => r.K = 1) }
Init == q \in Req /\ phase = "ask"
Answer == phase = "ask" /\ phase' = Refusal(q) /\ UNCHANGED q /\ PrintT("CASE " \o ToJson(q))
Next == Answer
Spec == Init /\ [][Next]_<<q, phase>>
Accepted == phase = "none"
\* geometry and curvature density of an accepted request agree; nothing tracked starts undefined
Sound == Accepted => /\ q.given \in {"N", "Omega"}
                     /\ q.given = "Omega" => ((q.K = 1 /\ q.om = "neg") \/ (q.K = -1 /\ q.om = "pos"))
                     /\ q.given = "N" => q.fits
                     /\ (q.tt => q.ht) /\ (q.te => q.he)
\* nothing physical is refused
Live == (phase \notin {"ask", "none"}) =>
          \/ q.given \in {"both", "neither"} \/ ~q.fits \/ (q.tt /\ ~q.ht) \/ (q.te /\ ~q.he)
          \/ ~((q.K = 1 /\ q.om = "neg") \/ (q.K = -1 /\ q.om = "pos"))
=============================================================================
