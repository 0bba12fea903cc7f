------------------------------ MODULE Shooting ------------------------------
(* Searching the initial field value for a target.  A profile is what the    *)
(* universes do across the bracket, segment by segment:                      *)
(*   "starterr" cannot start     "collapse" recollapses   "early" ends at    *)
(*   its start   "more" inflates past what is integrated  "stuck" "other"    *)
(*   the integrator gives up     "ab": N_tot runs linearly from a to b with  *)
(*   a, b in {l (well below target), m (just below), p (just above), h}      *)
EXTENDS Integers, Sequences

Flat  == {"starterr", "collapse", "early", "more", "stuck", "other"}
Lin   == {"lm", "lp", "lh", "ml", "mp", "mh", "pl", "pm", "ph", "hl", "hm", "hp"}
Broken == {"stuck", "other"}
From(k) == CASE k \in {"lm", "lp", "lh"} -> "l" [] k \in {"ml", "mp", "mh"} -> "m"
             [] k \in {"pl", "pm", "ph"} -> "p" [] OTHER -> "h"
To(k)   == CASE k \in {"ml", "pl", "hl"} -> "l" [] k \in {"lm", "pm", "hm"} -> "m"
             [] k \in {"lp", "mp", "hp"} -> "p" [] OTHER -> "h"
Level(v) == IF v \in {"l", "m"} THEN -1 ELSE 1
\* sign of (outcome - target) at the left and right end of a segment
SgnL(k) == CASE k \in {"starterr", "collapse", "early"} -> -1 [] k = "more" -> 1
             [] k \in Broken -> 0 [] OTHER -> Level(From(k))
SgnR(k) == CASE k \in {"starterr", "collapse", "early"} -> -1 [] k = "more" -> 1
             [] k \in Broken -> 0 [] OTHER -> Level(To(k))
\* the segment contains a universe that meets the target
Meets(k) == k \in Lin /\ SgnL(k) # SgnR(k)
\* every change of sign across the profile is a continuous crossing
NoJump(p) == \A i \in 1..(Len(p) - 1) : SgnR(p[i]) = SgnL(p[i + 1])
Bracketed(p) == SgnL(p[1]) * SgnR(p[Len(p)]) = -1
MustSucceed(p) == Bracketed(p) /\ NoJump(p) /\ \A i \in DOMAIN p : p[i] \notin Broken
MustFail(p)    == \A i \in DOMAIN p : ~Meets(p[i])
=============================================================================
