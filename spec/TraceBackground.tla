-------------------------- MODULE TraceBackground --------------------------
(* P01, P02: recorded evaluations of the background equations, their helper  *)
(* functions and returned solutions, judged by module Background.            *)
EXTENDS Background, TraceKit
VARIABLES w, l, ncl, done

Sum2(a, b)    == AbsR(a) \oplus AbsR(b)
Sum3(a, b, c) == AbsR(a) \oplus AbsR(b) \oplus AbsR(c)
\* x equals y up to rounding of terms of size sc
Eq(x, y, sc, tol) == CloseAbs(x, y, tol \otimes MaxR(AbsR(y), sc))

S(r) == State(r.form, r.K, r.pot, r.N, r.phi, r.dphi)

-----------------------------------------------------------------------------
(* right-hand sides and state functions at one state *)
JudgeRhs(r) ==
  LET s   == S(r)
      H2  == HSq(s)
      H   == Sqrt(H2)
      v   == VV(s)
      hsc == (((Kin(s) \oslash 2) \oplus AbsR(V0(s))) \oslash 3) \oplus AbsR(Curv(s))
      fsc == IF r.form = "N" THEN hsc \oslash AbsR(1 \ominus ((Real(r.dphi) \otimes r.dphi) \oslash 6)) ELSE hsc
      \* relative accuracy to which H^2 itself is known
      amp == MaxR(1, hsc \oslash H2) \otimes (IF r.form = "N" THEN fsc \oslash hsc ELSE 1)
      ftt == Phitt(s)
      fsz == Sum2(3 \otimes H \otimes s.phit, v[2]) \otimes amp
      htz == (Kin(s) \oslash 2) \oplus AbsR(Curv(s))
      \* phi_NN = (phi_tt - (H_t/H) phi_t)/H^2
      pNN == (ftt \ominus ((Ht(s) \oslash H) \otimes s.phit)) \oslash H2
      nsz == ((fsz \oplus ((htz \otimes AbsR(s.phit)) \oslash H)) \oslash H2) \otimes amp
      isT == r.form = "T"
  IN [ defined  |-> r.exc = "none",
       friedmann |-> Eq(r.H2, H2, fsc, "1e-10"),
       hubble    |-> CloseRel(r.H, Sqrt(Real(r.H2)), "1e-12"),
       potential |-> CloseRel(r.V, v[1], "1e-10"),
       dpotential |-> CloseAbs(r.dV, v[2], "1e-9" \otimes MaxR(AbsR(v[2]), AbsR(v[1] \otimes "1e-3"))),
       dphi_rhs  |-> CloseRel(r.rhs.phi, r.dphi, "1e-14"),
       ddphi_rhs |-> IF isT THEN Eq(r.rhs.dphi, ftt, fsz, "1e-9") ELSE Eq(r.rhs.dphi, pNN, nsz, "1e-9"),
       N_rhs     |-> isT => CloseRel(r.rhs.N, H, "1e-9" \otimes amp),
       t_rhs     |-> (~isT /\ r.tt) => CloseRel(r.rhs.t, Real(1) \oslash H, "1e-9" \otimes amp),
       eta_rhs   |-> r.te => CloseRel(r.rhs.eta, IF isT THEN Exp(NegR(s.N)) ELSE Exp(NegR(s.N)) \oslash H, "1e-9" \otimes amp),
       w         |-> CloseAbs(r.w, EoS(s), "1e-9" \otimes amp),
       inflating |-> r.edge \/ EqR(Sgn(r.inflating), Sgn(V0(s) \ominus Kin(s))),
       inflating_edge |-> r.edge => CloseAbs(r.inflating, 0, "1e-9" \otimes V0(s)),
       vectorised |-> r.vec = TRUE ]

(* helper functions along the flow *)
JudgeHelp(r) ==
  LET s == S(r)
      D == Derivs(s)
      F == IF r.form = "T" THEN D.T ELSE D.N
      u == IF r.form = "T" THEN D.H ELSE Real(1)      \* rate unit of the independent variable
      R == Rate(s)
      p == AbsR(r.dphi)
      \* natural size of an n-th derivative
      zp(n) == p \otimes Pow(R \otimes u, n - 1)
      zH(n) == D.H \otimes Pow(R \otimes u, n)
      ok(f, want, z) == Eq(r[f], want, z, "1e-9")
  IN [ defined |-> r.exc = "none",
       dH    |-> ok("dH",    F.dH,    zH(1)),
       dH_H  |-> Eq(r.dH_H, F.dH \oslash D.H, zH(1) \oslash D.H, "1e-9"),
       d2H   |-> ok("d2H",   F.d2H,   zH(2)),
       d3H   |-> ok("d3H",   F.d3H,   zH(3)),
       d2phi |-> ok("d2phi", F.d2phi, zp(2)),
       d3phi |-> ok("d3phi", F.d3phi, zp(3)),
       d4phi |-> ok("d4phi", F.d4phi, zp(4)),
       epsilon_1H |-> ok("e1", D.e1, R),
       epsilon_2H |-> Eq(r.e2, D.e2, (R \otimes R) \oslash AbsR(D.e1), "1e-8"),
       epsilon_3H |-> Eq(r.e3, D.e3, (R \otimes R \otimes R) \oslash AbsR(D.e1 \otimes D.e2), "1e-7"),
       epsilon_2H_Gong |-> ok("g2", D.g2, R \otimes R),
       epsilon_3H_Gong |-> ok("g3", D.g3, R \otimes R \otimes R),
       delta_1 |-> ok("d1", D.d1, R),
       delta_2 |-> ok("d2", D.d2, R \otimes R),
       delta_3 |-> ok("d3", D.d3, R \otimes R \otimes R) ]

(* one sample of a returned solution *)
JudgeSample(r) ==
  LET s == S(r)
      amp == MaxR(1, (Rho(s) \oslash 3) \oslash HSq(s))
  IN [ H       |-> CloseRel(r.H, HH(s), "1e-9" \otimes amp),
       logaH   |-> CloseAbs(r.logaH, LogaH(s), "1e-9" \otimes amp),
       Omega_K |-> CloseRel(r.Omega_K, OmegaK(s), "1e-9" \otimes amp),
       w       |-> CloseAbs(r.w, EoS(s), "1e-9") ]

(* two neighbouring samples: the second is where the flow carries the first *)
JudgeStep(r) ==
  LET a  == State(r.form, r.K, r.pot, r.a.N, r.a.phi, r.a.dphi)
      b  == State(r.form, r.K, r.pot, r.b.N, r.b.phi, r.b.dphi)
      n  == 16
      h  == (Real(r.b.N) \ominus r.a.N) \oslash n
      x  == Advance(r.K, r.pot, Real(r.a.N), <<Real(r.a.phi), a.phit, Real(0), Real(0)>>, h, n)
      cs == Sqrt(Rho(b))
  IN [ phi  |-> CloseAbs(b.phi, x[1], r.tol),
       phit |-> CloseAbs(b.phit, x[2], r.tol \otimes cs),
       time |-> (r.dt # "none") => CloseAbs(r.dt, x[3], ("1e-6" \otimes x[3]) \oplus ("1e-9" \otimes r.tb)),
       conformal_time |-> (r.deta # "none") => CloseAbs(r.deta, x[4], ("1e-6" \otimes x[4]) \oplus ("1e-9" \otimes r.etab)) ]

(* the same universe in both formulations, at the same e-fold *)
JudgePair(r) ==
  LET a == State("T", r.K, r.pot, r.N, r.T.phi, r.T.dphi)
      b == State("N", r.K, r.pot, r.N, r.N_.phi, r.N_.dphi)
  IN [ defined |-> r.exc = "none",
       same_phi  |-> r.exc = "none" => CloseAbs(a.phi, b.phi, r.tol),
       same_phit |-> r.exc = "none" => CloseAbs(a.phit, b.phit, r.tol \otimes Sqrt(Rho(a))),
       same_t    |-> r.exc = "none" => CloseRel(r.T.t, r.N_.t, "1e-5"),
       same_eta  |-> r.exc = "none" => CloseRel(r.T.eta, r.N_.eta, "1e-5"),
       same_H    |-> r.exc = "none" => CloseRel(r.T.H, r.N_.H, "1e-5"),
       same_w    |-> r.exc = "none" => CloseAbs(r.T.w, r.N_.w, "1e-5") ]

Judge(r) ==
  CASE r.kind = "rhs"    -> JudgeRhs(r)
    [] r.kind = "help"   -> JudgeHelp(r)
    [] r.kind = "sample" -> JudgeSample(r)
    [] r.kind = "step"   -> JudgeStep(r)
    [] r.kind = "pair"   -> JudgePair(r)
    [] r.kind = "exc"    -> [ no_exception |-> FALSE ]

Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
