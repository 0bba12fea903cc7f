------------------------------- MODULE Modes --------------------------------
(* Linear perturbations on the background.                                    *)
(*                                                                           *)
(* Scalars: the comoving curvature perturbation R and the Newtonian potential *)
(* Phi of one mode with Laplacian eigenvalue -q2, D2 = 3K - q2.  Einstein's    *)
(* 0i and 00 constraints are a closed first-order system in cosmic time,      *)
(*     R'   = K/(a^2 H) R + ( D2/(a^2 E H) - K/(a^2 H) ) Phi                    *)
(*     Phi' = E H R - (1 + E) H Phi            with E = phi_t^2/(2 H^2),        *)
(* and everything about R alone (its second-order equation) is obtained here  *)
(* by eliminating Phi.  Tensors: h'' + 3 H h' + (q2 + 2K)/a^2 h = 0.            *)
EXTENDS Background, Units, TLC

Q2(K, k)  == (Real(k) \otimes k) \oplus (k \otimes (K * (K + 1)))
D2(K, k)  == Real(3 * K) \ominus Q2(K, k)

\* the 2x2 matrix as series in t along the background
Matrix(s, k) ==
  LET j == FlowT(s)
      E == JScale("0.5", JDiv(JSq(JD(j.phi)), JSq(j.H)))
      ia2 == JExp(JScale(-2, j.N))
      kc == JScale(s.K, JDiv(ia2, j.H))
      EH == JMul(E, j.H)
  IN [m11 |-> kc,
      m12 |-> JSub(JScale(D2(s.K, k), JDiv(ia2, EH)), kc),
      m21 |-> EH,
      m22 |-> JNeg(JAdd(j.H, EH))]
\* y1'' + 2 d y1' + f y1 = 0
Eliminated(m) ==
  LET r == JDiv(JD(m.m12), m.m12)[1]
      a == m.m11[1]  b == m.m12[1]  c == m.m21[1]  d == m.m22[1]
  IN [ damp |-> NegR((a \oplus d) \oplus r) \oslash 2,
       freq2 |-> ((a \otimes r) \ominus JD(m.m11)[1]) \oplus ((a \otimes d) \ominus (b \otimes c)) ]
ScalarT(s, k) == Eliminated(Matrix(s, k))
TensorT(s, k) == [ damp |-> ("1.5" \otimes HH(s)),
                   freq2 |-> (Q2(s.K, k) \oplus (2 * s.K)) \otimes Exp((-2) \otimes Real(s.N)) ]
\* the same equation with e-folds as the independent variable
ToN(s, e) == [ damp |-> (e.damp \oplus (Ht(s) \oslash (2 \otimes HH(s)))) \oslash HH(s), freq2 |-> e.freq2 \oslash HSq(s) ]
Equation(form, what, s, k) ==
  LET e == IF what = "scalar" THEN ScalarT(s, k) ELSE TensorT(s, k)
  IN IF form = "T" THEN e ELSE ToN(s, e)

-----------------------------------------------------------------------------
(* Vacua: v = z u is canonically normalised, v = 1/sqrt(2 w), v' = -i w v in    *)
(* conformal time (k, HD) or u' = -i w u (RST); z = a phi_t/H for scalars and  *)
(* a/2 for tensors (two polarisations, reduced Planck units).                 *)
Z(s, what) == LET j == FlowT(s) IN
  IF what = "scalar" THEN JMul(JExp(j.N), JDiv(JD(j.phi), j.H)) ELSE JScale("0.5", JExp(j.N))
\* u = real, u_t = (re, im)
W2(vac, what, s, k) ==
  LET z == Z(s, what)  kk == Real(k) \otimes k
  IN IF vac = "HD"
     THEN kk \ominus (Exp(2 \otimes Real(s.N)) \otimes ((Deriv(z, 2) \oplus (HH(s) \otimes Deriv(z, 1))) \oslash z[1]))
     ELSE kk
Vacuum(form, vac, what, s, k) ==
  LET z == Z(s, what)
      w == Sqrt(W2(vac, what, s, k))
      u == 1 \oslash (Sqrt(2 \otimes w) \otimes AbsR(z[1]))
      den == IF form = "T" THEN Real(1) ELSE HH(s)
  IN [ abs2 |-> u \otimes u, u |-> u,
       re |-> (IF vac = "RST" THEN Real(0) ELSE NegR(Deriv(z, 1) \oslash z[1])) \oslash den,
       im |-> NegR(w \otimes Exp(NegR(s.N))) \oslash den ]
\* spectrum of a mode frozen at u: both polarisations for tensors
Prefactor(what, k) == ((Real(k) \otimes k \otimes k) \oslash (2 \otimes Pi \otimes Pi)) \otimes (IF what = "tensor" THEN 2 ELSE 1)

-----------------------------------------------------------------------------
(* Complex numbers as pairs *)
CAdd(a, b) == <<Real(a[1]) \oplus b[1], Real(a[2]) \oplus b[2]>>
CSub(a, b) == <<Real(a[1]) \ominus b[1], Real(a[2]) \ominus b[2]>>
CMul(a, b) == <<(Real(a[1]) \otimes b[1]) \ominus (Real(a[2]) \otimes b[2]), (Real(a[1]) \otimes b[2]) \oplus (Real(a[2]) \otimes b[1])>>
CAbs2(a)   == (Real(a[1]) \otimes a[1]) \oplus (Real(a[2]) \otimes a[2])
CDiv(a, b) == LET n == CAbs2(b)  c == CMul(a, <<b[1], NegR(b[2])>>) IN <<c[1] \oslash n, c[2] \oslash n>>
\* the combination of two solutions with initial value u and derivative v
Combine(u, v, y1, d1, y2, d2, e1, e2) ==
  LET det == CSub(CMul(y1, d2), CMul(d1, y2))
      a == CDiv(CSub(CMul(u, d2), CMul(v, y2)), det)
      b == CDiv(CSub(CMul(v, y1), CMul(u, d1)), det)
  IN CAdd(CMul(a, e1), CMul(b, e2))

-----------------------------------------------------------------------------
(* Mode and background advanced together in e-folds: x = <<phi, phi_t, real    *)
(* pair, imaginary pair>>; the pair is (R, Phi), (R, R_N) or (h, h_N).         *)
PairRate(how, s, k, p) ==
  IF how = "system"
  THEN LET m == Matrix(s, k)  h == HH(s)
       IN << ((m.m11[1] \otimes p[1]) \oplus (m.m12[1] \otimes p[2])) \oslash h,
             ((m.m21[1] \otimes p[1]) \oplus (m.m22[1] \otimes p[2])) \oslash h >>
  ELSE LET e == Equation("N", how, s, k)
       IN << p[2], NegR((2 \otimes e.damp \otimes p[2]) \oplus (e.freq2 \otimes p[1])) >>
RhsX(how, K, pot, k, N, x) ==
  LET s == StateT(K, pot, N, x[1], x[2])
      h == HH(s)
      p == PairRate(how, s, k, <<x[3], x[4]>>)
      q == IF Len(x) = 4 THEN <<>> ELSE PairRate(how, s, k, <<x[5], x[6]>>)
  IN <<Real(x[2]) \oslash h, Phitt(s) \oslash h, p[1], p[2]>> \o q
AxpyX(x, h, d) == TLCEval([i \in DOMAIN x |-> Real(x[i]) \oplus (h \otimes d[i])])
StepX(how, K, pot, k, N, x, h) ==
  LET hh == Real(h) \oslash 2
      k1 == RhsX(how, K, pot, k, N, x)
      k2 == RhsX(how, K, pot, k, Real(N) \oplus hh, AxpyX(x, hh, k1))
      k3 == RhsX(how, K, pot, k, Real(N) \oplus hh, AxpyX(x, hh, k2))
      k4 == RhsX(how, K, pot, k, Real(N) \oplus h, AxpyX(x, h, k3))
  IN TLCEval([i \in DOMAIN x |-> Real(x[i]) \oplus ((Real(h) \oslash 6) \otimes (k1[i] \oplus (2 \otimes k2[i]) \oplus (2 \otimes k3[i]) \oplus k4[i]))])
=============================================================================
