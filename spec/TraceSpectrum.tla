--------------------------- MODULE TraceSpectrum ----------------------------
(* P19: recorded spectra against modes the specification evolves itself: each *)
(* record's mode starts in its vacuum at the recorded instant and is stepped  *)
(* until it is frozen, then its power is compared.                            *)
EXTENDS Modes, TraceKit
CONSTANT Frozen
VARIABLES i, N, x, done
vars == <<i, N, x, done>>
r == Trace[i]
S(v) == [j \in DOMAIN v |-> Str(v[j])]
Init == /\ i \in DOMAIN Trace /\ done = FALSE
        /\ LET s == State(r.form, r.K, r.pot, r.at.N, r.at.phi, r.at.dphi)
               v == Vacuum("N", r.vac, r.what, s, r.k)
           IN /\ N = Str(s.N)
              /\ x = S(<<s.phi, s.phit, v.u, v.re \otimes v.u, Real(0), v.im \otimes v.u>>)
Inside == (Real(r.k) \otimes Exp(NegR(N))) \oslash HH(StateT(r.K, r.pot, N, x[1], x[2]))
Step == /\ ~done /\ Le(Real(1) \oslash Frozen, Inside)
        /\ LET h == MinR("0.05", Real("0.12") \oslash Inside)
           IN /\ x' = S(StepX(r.what, r.K, r.pot, r.k, N, x, h))
              /\ N' = Str(Real(N) \oplus h)
        /\ UNCHANGED <<i, done>>
Finish == /\ ~done /\ ~Le(Real(1) \oslash Frozen, Inside)
          /\ LET P == Prefactor(r.what, r.k) \otimes (Sq(x[3]) \oplus Sq(x[5]))
             IN Report(i, Failing([ power |-> CloseRel(r.P, P, r.tol) ]))
          /\ PrintT("DONE 1 1")
          /\ done' = TRUE /\ UNCHANGED <<i, N, x>>
Next == Step \/ Finish
=============================================================================
