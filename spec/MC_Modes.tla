------------------------------ MODULE MC_Modes -------------------------------
(* One mode followed twice along inflation: with the constraint system and    *)
(* with the second-order equation obtained from it.  Both give the same R;    *)
(* far outside the horizon R stands still.                                    *)
EXTENDS Modes, TLC
CONSTANTS Steps, Ks
VARIABLES K, k, i, N, a, b
vars == <<K, k, i, N, a, b>>
Pot == [cls |-> "Monomial", feature |-> "none", Lambda |-> "0.03", p |-> "2"]
h == Real("0.004")
Phi0 == "16"
V(x) == VJet(Pot, JVar(x))[1]
\* inflation starts: phi_t^2 = V, curvature up to the critical one
PhiT0 == NegR(Sqrt(V(Phi0)))
N0 == NegR(Ln(V(Phi0) \oslash 2)) \oslash 2 \oplus "0.4"
S(x) == [j \in DOMAIN x |-> Str(x[j])]
Ini(kk, kc) == LET s == StateT(kc, Pot, N0, Phi0, PhiT0)  m == Matrix(s, kk)
               IN [a |-> <<Real(Phi0), PhiT0, Real(1), Real("0.3")>>,
                   b |-> <<Real(Phi0), PhiT0, Real(1), (m.m11[1] \oplus (m.m12[1] \otimes "0.3")) \oslash HH(s)>>]
Init == /\ K \in {-1, 0, 1} /\ k \in Ks /\ i = 0 /\ N = Str(N0)
        /\ a = S(Ini(k, K).a) /\ b = S(Ini(k, K).b)
Next == /\ i < Steps /\ i' = i + 1 /\ N' = Str(Real(N) \oplus h)
        /\ a' = S(StepX("system", K, Pot, k, N, a, h)) /\ b' = S(StepX("scalar", K, Pot, k, N, b, h))
        /\ UNCHANGED <<K, k>>
Spec == Init /\ [][Next]_vars
SameMode == CloseAbs(a[3], b[3], "1e-5" \otimes (1 \oplus AbsR(a[3])))
Frozen == LET s == StateT(K, Pot, N, a[1], a[2])
              q == (Real(k) \otimes k) \oslash (Exp(2 \otimes Real(N)) \otimes HSq(s))
          IN (i > 500 /\ Lt(q, "2e-2")) => CloseAbs(b[4], 0, "0.06" \otimes AbsR(b[3]))
=============================================================================
