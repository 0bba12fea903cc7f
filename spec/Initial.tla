------------------------------- MODULE Initial -------------------------------
(* Requests for an initial state, and when they are refused.                 *)
(*   q = [K, given in {"N","Omega","both","neither"},                        *)
(*        om in {"neg","zero","pos","one"} (requested curvature density:     *)
(*             < 0, = 0, in (0,1), >= 1), fits (a^2 rho/3 > K for the size), *)
(*        form in {"T","N"}, tt, te (tracked times), ht, he (start given)]   *)
EXTENDS Integers

Refusal(q) ==
  CASE q.given \in {"both", "neither"} -> "argument"
    [] q.given = "Omega" /\ q.om = "one" -> "InflationStartError"
    [] q.given = "Omega" /\ ((q.K = 0) \/ (q.om = "zero")
                             \/ (q.K = 1 /\ q.om = "pos") \/ (q.K = -1 /\ q.om = "neg")) -> "InflationStartError"
    [] q.given = "N" /\ ~q.fits -> "InflationStartError"
    [] q.form = "N" /\ q.tt /\ ~q.ht -> "assembly"
    [] q.te /\ ~q.he -> "assembly"
    [] OTHER -> "none"
=============================================================================
