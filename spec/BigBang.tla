------------------------------ MODULE BigBang -------------------------------
(* The standard Big Bang after reheating: what today's h, matter and          *)
(* curvature densities imply for every scale factor.  N = ln(a) with a in     *)
(* reduced Planck lengths for curved universes and a = 1 today for flat ones. *)
EXTENDS Units, Integers, Sequences, FiniteSets

\* units each quantity is offered in; anything else has to be refused
UnitsOf == [H0 |-> {"planck", "H0", "SI"}, a0 |-> {"planck", "Mpc", "SI"}, H |-> {"planck", "H0", "SI"}, cHH |-> {"planck", "Mpc", "SI"}]
RateUnit(u) == CASE u = "SI" -> Real(1) [] u = "planck" -> tpSI [] u = "H0" -> MpcSI \oslash 1000      \* per 1/s
LengthUnit(u) == CASE u = "SI" -> Real(1) [] u = "planck" -> Real(1) \oslash lpSI [] u = "Mpc" -> Real(1) \oslash MpcSI  \* per m

H0in(h, u) == Hubble0(h) \otimes RateUnit(u)
\* Omega_K0 = -K c^2 / (a0 H0)^2
A0m(h, ok) == (cSI \oslash Hubble0(h)) \oslash Sqrt(AbsR(ok))
Flat(ok)   == EqR(ok, 0)
A0in(h, ok, u) == IF Flat(ok) THEN Real(1) ELSE A0m(h, ok) \otimes LengthUnit(u)
N0of(h, ok) == Ln(A0in(h, ok, "planck"))
NBBN(h, ok) == N0of(h, ok) \ominus Ln(1 \oplus zBBN)
RhoCrit(h) == (3 \otimes Sq(Hubble0(h))) \oslash G8
OmegaR(h)  == rhoRad \oslash RhoCrit(h)
OmegaL(h, om, ok) == ((1 \ominus OmegaR(h)) \ominus om) \ominus ok

\* E^2 = (H/H0)^2, n e-folds before today
E2(om, orad, ok, ol, n) ==
  ((Real(orad) \otimes Exp(4 \otimes Real(n))) \oplus (Real(om) \otimes Exp(3 \otimes Real(n)))) \oplus ((Real(ok) \otimes Exp(2 \otimes Real(n))) \oplus ol)
E2at(h, om, ok, N) == E2(om, OmegaR(h), ok, OmegaL(h, om, ok), N0of(h, ok) \ominus N)
\* sum of absolute values: what rounding errors are relative to
E2abs(h, om, ok, N) == E2(om, OmegaR(h), AbsR(ok), AbsR(OmegaL(h, om, ok)), N0of(h, ok) \ominus N)
HubbleAt(h, om, ok, N, u) == H0in(h, u) \otimes Sqrt(E2at(h, om, ok, N))
\* comoving Hubble horizon, in today's units: a0 c / (a H)
CHHat(h, om, ok, N, u) ==
  (Exp(N0of(h, ok) \ominus N) \otimes (cSI \oslash HubbleAt(h, om, ok, N, "SI"))) \otimes LengthUnit(u)

-----------------------------------------------------------------------------
(* A universe of matter, curvature and Lambda: F(a) = a^3 E^2.  It expands    *)
(* where F > 0.  Before today without a zero of F it starts in a Big Bang;    *)
(* after today without a zero of F it expands for ever.                       *)
OK3(om, ol) == (1 \ominus Real(om)) \ominus ol
F3(om, ol, a) == ((Real(ol) \otimes Pow(a, 3)) \oplus (OK3(om, ol) \otimes a)) \oplus om
\* the minimum of F over a > 0 when there is one
AMin(om, ol) == Sqrt(NegR(OK3(om, ol)) \oslash (3 \otimes Real(ol)))
Dips(om, ol) == Lt(0, ol) /\ Lt(OK3(om, ol), 0) /\ Le(F3(om, ol, AMin(om, ol)), 0)
NoBigBang(om, ol)  == Dips(om, ol) /\ Lt(AMin(om, ol), 1)
Recollapses(om, ol) == \/ Lt(ol, 0)
                       \/ EqR(ol, 0) /\ Lt(OK3(om, ol), 0)
                       \/ Dips(om, ol) /\ Lt(1, AMin(om, ol))
Fate(om, ol) == IF Lt(om, 0) THEN "ValueError" ELSE IF NoBigBang(om, ol) THEN "BigBangError" ELSE IF Recollapses(om, ol) THEN "BigBangWarning" ELSE "none"

-----------------------------------------------------------------------------
(* Conformal time: the integral of dt/a = dN/(a H).  In e-folds before today,  *)
(* with a in the length unit of N.                                            *)
GX == <<"-0.90617984593866399280", "-0.53846931010568309104", "0", "0.53846931010568309104", "0.90617984593866399280">>
GW == <<"0.23692688505618908751", "0.47862867049936646804", "0.56888888888888888889", "0.47862867049936646804", "0.23692688505618908751">>
RECURSIVE GSum(_, _, _, _)
GSum(f(_), c, r, i) == IF i = 0 THEN Real(0) ELSE GSum(f, c, r, i - 1) \oplus (GW[i] \otimes f(Real(c) \oplus (r \otimes GX[i])))
RECURSIVE Panels(_, _, _, _)
Panels(f(_), a, h, m) == IF m = 0 THEN Real(0)
                         ELSE Panels(f, a, h, m - 1) \oplus (GSum(f, Real(a) \oplus ((m \ominus "0.5") \otimes h), Real(h) \oslash 2, 5) \otimes (Real(h) \oslash 2))
Integral(f(_), a, b, m) == Panels(f, a, (Real(b) \ominus a) \oslash m, m)
\* eta in the units primpy uses: t in Planck times, a in Planck lengths (flat: a = 1 today)
EtaBetween(h, om, ok, Na, Nb, m) ==
  LET hub == H0in(h, "planck")  orad == OmegaR(h)  ol == OmegaL(h, om, ok)  n0 == N0of(h, ok)
  IN Integral(LAMBDA n : Exp(NegR(n)) \oslash (hub \otimes Sqrt(E2(om, orad, ok, ol, n0 \ominus n))), Na, Nb, m)
=============================================================================
