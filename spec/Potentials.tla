----------------------------- MODULE Potentials -----------------------------
(* The inflationary potentials, each written once as V(phi); derivatives and *)
(* slow-roll parameters follow by Taylor arithmetic (module Jet).            *)
(* A potential is a record pot with a field cls and the class's parameters.  *)
EXTENDS Jet

Pi == Real("3.141592653589793")
Lam4(pot) == LET l2 == pot.Lambda \otimes pot.Lambda IN l2 \otimes l2

\* multiplicative feature 1 + F(phi)
FeatureJet(pot, x) ==
  LET d == JScale(Real(1) \oslash pot.b_feature, JShift(NegR(pot.phi_feature), x))
  IN CASE pot.feature = "dip"  -> JShift(1, JScale(NegR(pot.a_feature), JExp(JScale("-0.5", JSq(d)))))
       [] pot.feature = "step" -> JShift(1, JScale(pot.a_feature, JTanh(d)))
       [] OTHER -> JConst(1)

\* shape(x), to be multiplied by Lambda^4
Shape(pot, x) ==
  CASE pot.cls = "Monomial"    -> JPow(JAbs(x), pot.p)
    [] pot.cls = "Starobinsky" -> JSq(JShift(1, JNeg(JExp(JScale(NegR(Sqrt(Real(2) \oslash 3)), x)))))
    [] pot.cls = "Natural"     -> JScale("0.5", JShift(1, JNeg(JCos(JScale(Pi \oslash pot.phi0, x)))))
    [] pot.cls = "DoubleWell"  -> JSq(JShift(1, JNeg(JPow(JShift(1, JScale(Real(-1) \oslash pot.phi0, x)), pot.p))))
    [] pot.cls = "Tmodel"      -> JPow(JTanh(JScale(Real(1) \oslash Sqrt(6 \otimes pot.alpha), x)), 2 \otimes pot.p)
    [] pot.cls = "RadionGauge" -> LET q == JPow(x, pot.p) IN JDiv(q, JShift(pot.alpha, q))

VJet(pot, x) ==
  LET s == JScale(Lam4(pot), Shape(pot, x))
  IN IF pot.feature = "none" THEN s ELSE JMul(s, FeatureJet(pot, x))

\* without the feature
V0Jet(pot, x) == JScale(Lam4(pot), Shape(pot, x))

\* e_{1V} = (V'/V)^2/2 and e_{n+1,V} = dln(e_nV)/dN with dphi/dN = -V'/V, as series in phi
EpsJets(v) ==
  LET u  == JDiv(JD(v), v)                               \* V'/V, valid to order 3
      e1 == JScale("0.5", JSq(u))
      e2 == JNeg(JMul(u, JDiv(JD(e1), e1)))              \* order 2
      e3 == JNeg(JMul(u, JDiv(JD(e2), e2)))              \* order 1
      e4 == JNeg(JMul(u, JDiv(JD(e3), e3)))              \* order 0
  IN <<e1, e2, e3, e4>>

\* Hubble-flow parameters on the slow-roll attractor: e1V = e1 (1 + e2/(2(3-e1)))^2 with dphi/dN = -+sqrt(2 e1),
\* solved by iteration; each pass is right to one more order
FlowFromV(v) ==
  LET sg == Sgn(v[2] \oslash v[1])
      e1V == EpsJets(v)[1]
      DNlog(e1, x) == JNeg(JScale(sg, JMul(JSqrt(JScale(2, e1)), JDiv(JD(x), x))))
      Pass(e1, e2) == JDiv(e1V, JSq(JShift(1, JDiv(e2, JScale(2, JShift(3, JNeg(e1)))))))
      a0 == e1V           b0 == DNlog(a0, a0)
      a1 == Pass(a0, b0)  b1 == DNlog(a1, a1)
      a2 == Pass(a1, b1)  b2 == DNlog(a2, a2)
  IN <<a2[1], b2[1], DNlog(a1, b1)[1]>>

EpsV(pot, phi) == LET e == EpsJets(VJet(pot, JVar(phi))) IN <<e[1][1], e[2][1], e[3][1], e[4][1]>>
Eps1V(pot, phi) == LET v == VJet(pot, JVar(phi)) IN LET u == v[2] \oslash v[1] IN "0.5" \otimes u \otimes u
=============================================================================
