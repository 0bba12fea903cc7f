---------------------------- MODULE Calibration ----------------------------
(* Placing an inflationary background in the history of the universe.        *)
(*                                                                           *)
(* A request a = [method, Ok, h, Ns, bg, DN, w, rho, dm1] holds "none" for   *)
(* whatever is left out; bg is "none" or the N_star of a reference.          *)
(* A background b = [K, N_beg, N_end, lH_beg, lH_end, V_end, ...]: e-folds   *)
(* and ln(aH) in its own arbitrary gauge.                                    *)
EXTENDS Units, Integers, Sequences, FiniteSets

No(x) == x = "none"
Given(x) == x # "none"
Is(x, v) == Given(x) /\ EqR(x, v)
Third == Real(1) \oslash 3
Method(K, a) == IF a.method = "default" THEN (IF K = 0 THEN "N_star" ELSE "Omega_K0") ELSE a.method

-----------------------------------------------------------------------------
(* Instantaneous reheating: nothing is said about reheating, or something is *)
(* said that only instantaneous reheating satisfies and nothing contradicts. *)
Says(a) == {x \in {"w", "DN", "dm1", "rho"} : Given(a[x])}
Marks(a) == {x \in Says(a) : \/ x = "w" /\ EqR(a.w, Third)
                             \/ x = "DN" /\ EqR(a.DN, 0)
                             \/ x = "dm1" /\ EqR(a.dm1, 0)}
Instant(a) == IF Given(a.Ns) THEN "no"
              ELSE IF Says(a) = {} THEN "yes"
              ELSE IF Marks(a) = {} THEN "no"
              ELSE IF Marks(a) = Says(a) THEN "yes" ELSE "ValueError"

-----------------------------------------------------------------------------
(* Why a request cannot be served, apart from what the background decides.   *)
(* The outcome is acceptance iff there is no reason, and otherwise one of    *)
(* the reasons.                                                              *)
BadReh(a) == IF (Given(a.DN) /\ Lt(a.DN, 0)) \/ (Given(a.w) /\ Lt(a.w, NegR(Third))) THEN {"ValueError"} ELSE {}
\* what pins reheating when the position of the pivot is to follow from it
Pinned(K, a) ==
  IF Instant(a) = "yes" THEN {}
  ELSE IF Instant(a) = "ValueError" THEN {"ValueError"}
  ELSE IF Given(a.dm1)
       THEN IF K = 0 THEN (IF Given(a.w) \/ Given(a.DN) THEN {"NotImplementedError", "ValueError"} ELSE {})
            ELSE {"ValueError"}
  ELSE IF Says(a) \in {{"w", "DN"}, {"w", "rho"}} THEN {} ELSE {"ValueError"}

FlatReasons(a) ==
  (IF Given(a.Ok) /\ ~EqR(a.Ok, 0) THEN {"ValueError"} ELSE {}) \cup
  (IF Given(a.bg)
   THEN IF No(a.Ns) \/ ~Lt(0, a.Ns) \/ ~EqR(a.Ns, a.bg) THEN {"ValueError"} ELSE {}
   ELSE CASE Method(0, a) = "N_star" ->
               (IF No(a.Ns) \/ ~Lt(0, a.Ns) THEN {"ValueError"} ELSE {}) \cup
               (IF Says(a) \notin {{}, {"w"}, {"rho"}} \/ Is(a.w, Third) THEN {"ValueError"} ELSE {}) \cup
               BadReh(a)
          [] Method(0, a) = "reheating" ->
               BadReh(a) \cup Pinned(0, a) \cup (IF Given(a.Ns) THEN {"ValueError"} ELSE {})
          [] OTHER -> {"NotImplementedError"})

CurvedReasons(K, a) ==
  (IF Given(a.Ns) THEN {"ValueError"} ELSE {}) \cup
  (IF No(a.h) \/ ~Lt(0, a.h) THEN {"ValueError"} ELSE {}) \cup
  (CASE Method(K, a) = "Omega_K0" ->
          (IF No(a.Ok) \/ EqR(a.Ok, 0) \/ ~EqR(Sgn(a.Ok), -K) THEN {"ValueError"} ELSE {}) \cup
          (IF Says(a) \notin {{}, {"rho"}} THEN {"ValueError"} ELSE {})
     [] Method(K, a) = "reheating" ->
          BadReh(a) \cup (IF Given(a.Ok) THEN {"ValueError"} ELSE {}) \cup
          (IF Given(a.Ns) THEN {} ELSE Pinned(K, a))
     [] OTHER -> {"NotImplementedError"})

Reasons(K, a) == IF K = 0 THEN FlatReasons(a) ELSE CurvedReasons(K, a)

(* what determines the position of the pivot once the request is served *)
Mode(K, a) == IF K = 0 /\ Given(a.bg) THEN "copy" ELSE Method(K, a)
(* whether that mode determines reheating *)
Determined(K, a) ==
  CASE Mode(K, a) = "N_star" -> Says(a) # {}
    [] Mode(K, a) = "Omega_K0" -> Given(a.rho)
    [] Mode(K, a) = "reheating" -> Instant(a) = "yes" \/ Says(a) # {"dm1"}
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Entropy conservation from the end of reheating to today:                  *)
(* g_th a_reh^3 T_reh^3 = g0 a0^3 T0^3 with rho_reh = (pi^2/30) g_th T_reh^4.  *)
(* N0 - N_reh in terms of the reheating density (reduced Planck units):      *)
Entropy(g) == Ln(Pow(Real(45) \oslash Sq(Pi), "0.25") \otimes Pow(g0, NegR(Third))) \oplus (Ln(g) \oslash 12)
SinceReh(rho, g) == Entropy(g) \ominus (Ln(("1.5" \otimes Sq(Sq(TCMBlp))) \oslash rho) \oslash 4)
\* ... and since the end of inflation when reheating contributes dm1
SinceEnd(V, g, dm1) == Entropy(g) \oplus (Ln(Real(V) \oslash Sq(Sq(TCMBlp))) \oslash 4) \oplus dm1

RhoReh(V, w, DN) == "1.5" \otimes Real(V) \otimes Exp((-3) \otimes (1 \oplus Real(w)) \otimes Real(DN))
Minus1(w, DN) == (Real(DN) \otimes (1 \ominus (3 \otimes Real(w)))) \oslash 4
=============================================================================
