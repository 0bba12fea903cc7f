------------------------------- MODULE MC_Shoot -------------------------------
(* Any bracketing search over a profile: it keeps two points of opposite     *)
(* sign, looks anywhere between, and when the two are neighbours accepts     *)
(* only if the target is really met there.                                   *)
EXTENDS Shooting, TLC, Json
CONSTANT CheckResidual
VARIABLES prof, lo, hi, verdict
vars == <<prof, lo, hi, verdict>>
Kinds == Flat \cup Lin
G == 3                         \* samples per segment: left end, middle, right end
Pts == 1..(3 * G)
Seg(i) == prof[((i - 1) \div G) + 1]
Sgn(i) == LET k == Seg(i)  j == (i - 1) % G IN
            IF j = 0 THEN SgnL(k) ELSE IF j = 2 THEN SgnR(k)
            ELSE IF SgnL(k) = SgnR(k) THEN SgnL(k) ELSE SgnL(k)      \* crossing between middle and right end
Profiles == {p \in [1..3 -> Kinds] : p[2] # "starterr" /\ p[3] # "starterr"}
Init == prof \in Profiles /\ lo = 1 /\ hi = 3 * G /\ verdict = "start"
Start == /\ verdict = "start"
         /\ PrintT("CASE " \o ToJson(prof))
         /\ verdict' = IF Sgn(1) = 0 \/ Sgn(3 * G) = 0 THEN "error"
                       ELSE IF Sgn(1) = Sgn(3 * G) THEN "error" ELSE "search"
         /\ UNCHANGED <<prof, lo, hi>>
Look == /\ verdict = "search" /\ hi > lo + 1
        /\ \E m \in (lo + 1)..(hi - 1) :
             IF Sgn(m) = 0 THEN verdict' = "error" /\ UNCHANGED <<lo, hi>>
             ELSE IF Sgn(m) = Sgn(lo) THEN lo' = m /\ UNCHANGED <<hi, verdict>>
             ELSE hi' = m /\ UNCHANGED <<lo, verdict>>
        /\ UNCHANGED prof
SameSeg == Seg(lo) = Seg(hi) /\ (lo - 1) \div G = (hi - 1) \div G
Converge == /\ verdict = "search" /\ hi = lo + 1
            /\ verdict' = IF CheckResidual /\ ~(SameSeg /\ Meets(Seg(lo))) THEN "error" ELSE "success"
            /\ UNCHANGED <<prof, lo, hi>>
Next == Start \/ Look \/ Converge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a success is a universe that meets the target
SuccessIsTarget == verdict = "success" => SameSeg /\ Meets(Seg(lo))
SuccessPossible == verdict = "success" => ~MustFail(prof)
NoFalseError == (verdict = "error") => ~MustSucceed(prof)
Bracketing == verdict = "search" => Sgn(lo) * Sgn(hi) = -1
Terminates == <>(verdict \in {"success", "error"})
=============================================================================
