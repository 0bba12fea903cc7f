-------------------------- MODULE TracePotentials --------------------------
(* P13: recorded potential evaluations against the potentials' definitions.  *)
EXTENDS Potentials, TraceKit
VARIABLES w, l, ncl, done

\* scale of the n-th derivative: the largest of |V^(n)| and V / L^n with L the field scale of the sample
DClose(got, want, scale, tol) == CloseAbs(got, want, tol \otimes MaxR(AbsR(want), scale))

\* deviation of a feature potential: its inverse is the one of the featureless base potential
InvIsBase(r) == /\ r.pot.feature # "none"
                /\ \/ CloseRel(V0Jet(r.pot, JVar(r.inv))[1], r.V, "1e-9")
                   \/ ~IsFin(r.inv) /\ Le(Lam4(r.pot), r.V)
EndIsBase(r) == /\ r.pot.feature # "none" /\ r.exc = "none"
                /\ CloseAbs(Eps1V([r.pot EXCEPT !.feature = "none"], r.phi_end), 1, "1e-6")

\* Close to the minimum (or the hilltop) the slow-roll parameters are divisions of rounding errors;
\* the potential and its derivatives are still what they are.
JudgeSmall(r) ==
  LET v     == VJet(r.pot, JVar(r.phi))
      sc(n) == AbsR(v[1]) \oslash Pow(r.L, n)
  IN [ small_V   |-> DClose(r.V,   v[1], "0", "1e-8"),
       small_dV  |-> DClose(r.dV,  Deriv(v, 1), sc(1) \otimes "1e-4", "1e-8"),
       small_d2V |-> DClose(r.d2V, Deriv(v, 2), sc(2) \otimes "1e-3", "1e-8"),
       small_d3V |-> DClose(r.d3V, Deriv(v, 3), sc(3) \otimes "1e-2", "1e-7"),
       small_d4V |-> DClose(r.d4V, Deriv(v, 4), sc(4) \otimes "1e-1", "1e-7") ]

JudgePoint(r) ==
  LET pot == r.pot
      v   == VJet(pot, JVar(r.phi))
      e   == EpsJets(v)
      \* scale of the n-th derivative: what a term-by-term evaluation may round to
      sc(n) == AbsR(v[1]) \oslash Pow(r.L, n)
  IN [ V   |-> CloseRel(r.V, v[1], "1e-10"),
       dV  |-> DClose(r.dV,  Deriv(v, 1), sc(1) \otimes "1e-4", "1e-9"),
       d2V |-> DClose(r.d2V, Deriv(v, 2), sc(2) \otimes "1e-3", "1e-9"),
       d3V |-> DClose(r.d3V, Deriv(v, 3), sc(3) \otimes "1e-2", "1e-8"),
       d4V |-> DClose(r.d4V, Deriv(v, 4), sc(4) \otimes "1e-1", "1e-8"),
       Varr   |-> r.arr = TRUE,
       inv_V  |-> r.inv = "skip" \/ CloseRel(r.inv, r.phi, "1e-6") \/ InvIsBase(r),
       \* the inverse of a potential with a feature is that of the potential with the feature
       inv_V_has_feature |-> r.inv = "skip" \/ CloseRel(r.inv, r.phi, "1e-6") \/ ~InvIsBase(r),
       eps1V  |-> CloseRel(r.e1, e[1][1], "1e-7"),
       eps2V  |-> CloseRel(r.e2, e[2][1], "1e-6") \/ CloseAbs(r.e2, e[2][1], "1e-9" \otimes e[1][1]),
       eps3V  |-> CloseRel(r.e3, e[3][1], "1e-6") \/ CloseAbs(r.e3, e[3][1], "1e-9" \otimes e[1][1]),
       eps4V  |-> CloseRel(r.e4, e[4][1], "1e-5") \/ CloseAbs(r.e4, e[4][1], "1e-9" \otimes e[1][1]) ]

Judge(r) ==
  CASE r.kind = "point" -> JudgePoint(r)
    [] r.kind = "flow"  ->
         LET v == VJet(r.pot, JVar(r.phi))
             e == EpsJets(v)
             f == FlowFromV(v)
             m == MaxR(MaxR(AbsR(e[1][1]), AbsR(e[2][1])), MaxR(AbsR(e[3][1]), AbsR(e[4][1])))
             slow == Lt(m, "0.05")
         IN [ flow1 |-> slow => CloseAbs(r.f[1], f[1], (5 \otimes m \otimes m \otimes m \otimes e[1][1]) \oplus ("1e-8" \otimes e[1][1])),
              flow2 |-> slow => CloseAbs(r.f[2], f[2], (5 \otimes m \otimes m \otimes m \otimes m) \oplus ("1e-8" \otimes m)),
              flow3 |-> slow => CloseAbs(r.f[3], f[3], (5 \otimes m \otimes m \otimes m) \oplus ("1e-8" \otimes m)),
              \* fifth parameter dropped
              flow4 |-> slow => CloseAbs(r.f[4], Real(e[4][1]) \ominus ((Real(e[2][1]) \otimes e[3][1]) \oslash 3)
                                                  \ominus ((Real(e[2][1]) \otimes e[4][1]) \oslash 6), (m \otimes m \otimes m) \oplus ("1e-6" \otimes m)) ]
    [] r.kind = "end"   -> [ end_defined  |-> r.exc = "none" /\ IsFin(r.phi_end),
                             eps1_is_one  |-> r.exc = "none" /\ (CloseAbs(Eps1V(r.pot, r.phi_end), 1, "1e-6") \/ EndIsBase(r)),
                             eps1_is_one_with_feature |-> CloseAbs(Eps1V(r.pot, r.phi_end), 1, "1e-6") \/ ~EndIsBase(r),
                             end_positive |-> r.exc = "none" /\ Lt(0, r.phi_end) ]
    [] r.kind = "feat"  -> LET x == JVar(r.phi)
                               f == JShift(-1, FeatureJet(r.pot, x)) IN
                           [ F   |-> CloseAbs(r.F, f[1], "1e-10" \otimes AbsR(r.pot.a_feature)),
                             dF  |-> CloseAbs(r.dF, Deriv(f, 1), "1e-9" \otimes AbsR(r.pot.a_feature \oslash r.pot.b_feature)),
                             d2F |-> CloseAbs(r.d2F, Deriv(f, 2), "1e-9" \otimes AbsR(r.pot.a_feature \oslash Pow(r.pot.b_feature, 2))),
                             d3F |-> CloseAbs(r.d3F, Deriv(f, 3), "1e-9" \otimes AbsR(r.pot.a_feature \oslash Pow(r.pot.b_feature, 3))),
                             d4F |-> CloseAbs(r.d4F, Deriv(f, 4), "1e-8" \otimes AbsR(r.pot.a_feature \oslash Pow(r.pot.b_feature, 4))) ]
    [] r.kind = "small" -> JudgeSmall(r)
    [] r.kind = "exc"   -> [ no_exception |-> FALSE ]

Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
