----------------------------- MODULE Background -----------------------------
(* The inflationary background: a homogeneous scalar field in a universe of  *)
(* curvature K, in reduced Planck units.                                     *)
(*                                                                           *)
(*   canonical state   s = [K, pot, N, phi, phit]      (phit = d phi/dt)     *)
(*   Friedmann         3 (H^2 + K e^{-2N}) = phit^2/2 + V(phi)               *)
(*   Klein-Gordon      phi_tt + 3 H phi_t + V'(phi) = 0                      *)
(*   scale factor      N_t = H                                               *)
(*   consequence       H_t = -phit^2/2 + K e^{-2N}     (Raychaudhuri)        *)
(*                                                                           *)
(* The cosmic-time form carries (phi, phi_t, N) over t, the e-fold form      *)
(* (phi, phi_N) over N.  Everything else is derived here from these lines.   *)
EXTENDS Potentials

Curv(s)  == s.K \otimes Exp((-2) \otimes Real(s.N))           \* K/a^2
VV(s)    == VJet(s.pot, JVar(s.phi))                         \* Taylor series of V about phi
V0(s)    == VV(s)[1]
Kin(s)   == Real(s.phit) \otimes s.phit                      \* phi_t^2
HSq(s)   == (((Kin(s) \oslash 2) \oplus V0(s)) \oslash 3) \ominus Curv(s)
HH(s)    == Sqrt(HSq(s))

\* canonical state from the variables of either formulation
StateT(K, pot, N, phi, dphidt) == [K |-> K, pot |-> pot, N |-> N, phi |-> phi, phit |-> dphidt]
\* H^2 (1 - phiN^2/6) = V/3 - K/a^2
HSqN(K, pot, N, phi, dphidN) ==
  ((VJet(pot, JVar(phi))[1] \oslash 3) \ominus (K \otimes Exp((-2) \otimes Real(N))))
     \oslash (1 \ominus ((Real(dphidN) \otimes dphidN) \oslash 6))
StateN(K, pot, N, phi, dphidN) ==
  [K |-> K, pot |-> pot, N |-> N, phi |-> phi, phit |-> dphidN \otimes Sqrt(HSqN(K, pot, N, phi, dphidN))]
State(form, K, pot, N, phi, dphi) ==
  IF form = "T" THEN StateT(K, pot, N, phi, dphi) ELSE StateN(K, pot, N, phi, dphi)

Rho(s)   == (Kin(s) \oslash 2) \oplus V0(s)
Prs(s)   == (Kin(s) \oslash 2) \ominus V0(s)
EoS(s)   == Prs(s) \oslash Rho(s)
\* -K/(aH)^2
OmegaK(s) == NegR(Curv(s)) \oslash HSq(s)
LogaH(s) == s.N \oplus Ln(HH(s))
Ht(s)    == Curv(s) \ominus (Kin(s) \oslash 2)
Phitt(s) == NegR((3 \otimes HH(s) \otimes s.phit) \oplus VV(s)[2])

\* how big the terms of an equation are, in units of H: the largest inverse e-fold scale of the state
Rate(s) ==
  LET H2 == HSq(s)
      v  == VV(s)
      b  == Kin(s) \oslash H2
      k  == AbsR(Curv(s)) \oslash H2
      d1 == AbsR(v[2]) \oslash (H2 \otimes MaxR(AbsR(s.phit) \oslash HH(s), "1e-3"))
  IN 1 \oplus b \oplus k \oplus d1

-----------------------------------------------------------------------------
(* Taylor series in t through a state.                                       *)
JInt(a, c0) == <<c0, a[1], a[2] \oslash 2, a[3] \oslash 3, a[4] \oslash 4>>

Refine(s, dv, j) ==
  LET phid == JD(j.phi)
      ph   == JAdd(JScale(-3, JMul(j.H, phid)), JNeg(JCompose(dv, j.phi)))
      kk   == JScale(s.K, JExp(JScale(-2, j.N)))
      hd   == JSub(kk, JScale("0.5", JSq(phid)))
  IN [phi |-> JInt(JInt(ph, Real(s.phit)), Real(s.phi)),
      N   |-> JInt(j.H, Real(s.N)),
      H   |-> JInt(hd, HH(s))]

\* phi and N to order 4, H to order 3
FlowT(s) ==
  LET dv == JD(VV(s))
      j0 == [phi |-> <<Real(s.phi), Real(s.phit), Real(0), Real(0), Real(0)>>,
             N   |-> <<Real(s.N), HH(s), Real(0), Real(0), Real(0)>>,
             H   |-> JConst(HH(s))]
  IN Refine(s, dv, Refine(s, dv, Refine(s, dv, Refine(s, dv, j0))))

\* d/dN of a series in t
DN(j, f) == JDiv(JD(f), j.H)

Derivs(s) ==
  LET j   == FlowT(s)
      p1  == DN(j, j.phi)   p2 == DN(j, p1)   p3 == DN(j, p2)   p4 == DN(j, p3)
      h1  == DN(j, j.H)     h2 == DN(j, h1)   h3 == DN(j, h2)
      lnH1 == JDiv(h1, j.H)
      e1  == JNeg(lnH1)
      e2  == JDiv(DN(j, e1), e1)
      e3  == JDiv(DN(j, e2), e2)
      e1t == JD(e1)
      H0  == HH(s)
  IN [ T |-> [dphi |-> Deriv(j.phi, 1), d2phi |-> Deriv(j.phi, 2), d3phi |-> Deriv(j.phi, 3), d4phi |-> Deriv(j.phi, 4),
              dH |-> Deriv(j.H, 1), d2H |-> Deriv(j.H, 2), d3H |-> Deriv(j.H, 3)],
       N |-> [dphi |-> p1[1], d2phi |-> p2[1], d3phi |-> p3[1], d4phi |-> p4[1],
              dH |-> h1[1], d2H |-> h2[1], d3H |-> h3[1]],
       H  |-> H0,
       e1 |-> e1[1], e2 |-> e2[1], e3 |-> e3[1],
       \* Gong's convention: e2 = (d e1/dt)/H, e3 = (d^2 e1/dt^2)/H^2
       g2 |-> Deriv(e1, 1) \oslash H0, g3 |-> Deriv(e1, 2) \oslash (H0 \otimes H0),
       d1 |-> Deriv(j.phi, 2) \oslash (H0 \otimes s.phit),
       d2 |-> Deriv(j.phi, 3) \oslash (H0 \otimes H0 \otimes s.phit),
       d3 |-> Deriv(j.phi, 4) \oslash (H0 \otimes H0 \otimes H0 \otimes s.phit) ]

-----------------------------------------------------------------------------
(* One classical Runge-Kutta step of the canonical equations in e-folds, and  *)
(* n of them: the specification's own transition from one sample to another.  *)
(* x = <<phi, phi_t, t, eta>>, right-hand side per unit N.                    *)
Rhs(K, pot, N, x) ==
  LET s == StateT(K, pot, N, x[1], x[2])
      H == HH(s)
  IN <<Real(x[2]) \oslash H, Phitt(s) \oslash H, Real(1) \oslash H, Exp(NegR(N)) \oslash H>>
Axpy(x, h, k) == <<x[1] \oplus (h \otimes k[1]), x[2] \oplus (h \otimes k[2]),
                   x[3] \oplus (h \otimes k[3]), x[4] \oplus (h \otimes k[4])>>
RK4(K, pot, N, x, h) ==
  LET hh == h \oslash 2
      k1 == Rhs(K, pot, N, x)
      k2 == Rhs(K, pot, N \oplus hh, Axpy(x, hh, k1))
      k3 == Rhs(K, pot, N \oplus hh, Axpy(x, hh, k2))
      k4 == Rhs(K, pot, N \oplus h, Axpy(x, h, k3))
      c(i) == x[i] \oplus ((h \oslash 6) \otimes (k1[i] \oplus (2 \otimes k2[i]) \oplus (2 \otimes k3[i]) \oplus k4[i]))
  IN <<c(1), c(2), c(3), c(4)>>
RECURSIVE Advance(_, _, _, _, _, _)
Advance(K, pot, N, x, h, n) ==
  IF n = 0 THEN x ELSE LET y == RK4(K, pot, Real(N), x, h) IN Advance(K, pot, N \oplus h, y, h, n - 1)
=============================================================================
