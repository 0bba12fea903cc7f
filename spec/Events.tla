------------------------------- MODULE Events -------------------------------
(* What each event watches, and when the integrator must report it.          *)
EXTENDS Background

\* the quantity whose crossing of the event's value is the event; t is cosmic time
Quantity(kind, s, t) ==
  CASE kind = "UntilT" -> Real(t)
    [] kind = "UntilN" -> Real(s.N)
    [] kind = "Inflation" -> V0(s) \ominus Kin(s)          \* > 0 iff w < -1/3
    [] kind = "AfterInflationEnd" -> EoS(s)
    [] kind = "Collapse" -> HSq(s)
    [] kind = "Phi0" -> Real(s.phi)
    [] kind = "ModeExit" -> LogaH(s)
Threshold(kind, value) == IF kind = "ModeExit" THEN Ln(value) ELSE Real(value)

\* size of the terms that are added up in the quantity: what rounding is relative to
Size(kind, s, t) ==
  CASE kind = "Inflation" -> AbsR(V0(s)) \oplus Kin(s)
    [] kind = "Collapse" -> AbsR(V0(s)) \oplus Kin(s) \oplus AbsR(Curv(s))
    [] kind = "AfterInflationEnd" -> Real(1)
    [] kind = "ModeExit" -> AbsR(s.N) \oplus AbsR(Ln(HH(s))) \oplus 1
    [] OTHER -> MaxR(AbsR(Quantity(kind, s, t)), "1e-3")

\* a crossing g -> h of zero counts for a tracker of direction d
Crosses(g, h, d) == \/ d >= 0 /\ g < 0 /\ h > 0
                    \/ d <= 0 /\ g > 0 /\ h < 0
=============================================================================
