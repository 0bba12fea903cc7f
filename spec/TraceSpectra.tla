---------------------------- MODULE TraceSpectra ----------------------------
(* P12: recorded approximate spectra against the series at exact parameters. *)
EXTENDS Spectra, Background, Units, TraceKit
VARIABLES w, l, ncl, done

Here(r, n) == State(r.form, r.K, r.pot, n.N, n.phi, n.dphi)
Local(q, f) ==
  CASE q.m = "CGS" -> <<Ps0(f.H, f.e1) \otimes CGSs(f, q.o), Pt0(f.H) \otimes CGSt(f, q.o), Ps0(f.H, f.e1), Pt0(f.H)>>
    [] q.m = "STE" -> <<Ps0(f.H, f.e1) \otimes STEs(f), Pt0(f.H) \otimes STEt(f), Ps0(f.H, f.e1), Pt0(f.H)>>
\* parameters after N e-folds from a sample, by the specification's own integration
After(r, n, N) ==
  LET s == Here(r, n)
      y == Advance(r.K, r.pot, Real(n.N), <<Real(n.phi), s.phit, Real(0), Real(0)>>, (Real(N) \ominus n.N) \oslash 4, 4)
  IN Derivs(StateT(r.K, r.pot, Real(N), y[1], y[2]))
Expand(r, q, L) ==
  LET f == After(r, r.n, r.Nc)
  IN IF q.m = "LLMS"
     THEN LET a == LLMSs(f)  b == LLMSt(f)
              P(c) == Exp(Sum(<<c[1], c[2] \otimes L, "0.5" \otimes c[3] \otimes L \otimes L>>))
          IN <<Ps0(f.H, f.e1) \otimes P(a), Pt0(f.H) \otimes P(b), 0, 0>>
     ELSE LET g == After(r, r.n, Real(r.Nc) \oplus Later(f.e1, f.e2))
          IN <<Ps0(g.H, g.e1) \otimes Poly(ARs(g, q.o, Real(0)), L), Pt0(g.H) \otimes Poly(ARt(g, q.o), L), Ps0(g.H, g.e1), Pt0(g.H)>>

\* a spectrum is defined where both series are positive; elsewhere nothing is claimed
Near(x, y, y0, tol) == CloseAbs(x, y, Real(tol) \otimes MaxR(AbsR(y), y0))
Same(v, p, tol) == Near(v.s, p[1], p[3], tol) /\ Near(v.t, p[2], p[4], tol)
Agree(v, p, tol) == (Lt(0, p[1]) /\ Lt(0, p[2])) => Same(v, p, tol)
\* how strongly rounding in the state is amplified, and how well conditioned the sum is
Amp(f) == LET b == Sum(<<1, AbsR(f.e1), AbsR(f.d1), AbsR(f.d2), AbsR(f.d3), AbsR(f.e2), AbsR(f.e3)>>) IN b \otimes b \otimes b

Judge(r) ==
  CASE r.kind = "local" ->
         LET f == Derivs(Here(r, r.n))
             tol == MinR("1e-8" \otimes Amp(f), "1e-2")
             clean == Lt(Amp(f), "1e4")
         IN [ local_series |-> clean => \A i \in DOMAIN r.q : Agree(r.q[i], Local(r.q[i], f), tol),
              selected_local |-> (clean /\ r.sel.m \in {"CGS", "STE"}) => Same(r.sel, Local(r.sel, f), tol) ]
    [] r.kind = "pivot" ->
         LET L == Real(r.lk) \ominus Ln(KSTAR)
             f == Derivs(Here(r, r.n))
             \* samples are joined by straight lines
             tol == Sum(<<"1e-7", Real(r.h) \otimes r.h \otimes Sum(<<AbsR(f.e1), AbsR(f.e2)>>) \otimes Sum(<<1, Sq(f.e2), Sq(f.e3), AbsR(f.d3)>>)>>) \otimes (2 \oplus (L \otimes L))
         IN [ expansion |-> Lt("1e-9", f.e1) => \A i \in DOMAIN r.q : Agree(r.q[i], Expand(r, r.q[i], L), tol),
              selected_expansion |-> (Lt("1e-9", f.e1) /\ r.sel.m \in {"LLMS", "ARBDS"}) => Agree(r.sel, Expand(r, r.sel, L), tol) ]
    [] r.kind = "reported" ->
         LET x0 == Ln(KSTAR)
             h == Real(r.x[4]) \ominus r.x[1]
             u == [i \in 1..4 |-> (Real(r.x[i]) \ominus x0) \oslash h]
             \* Newton form of the cubic through the four points, in units of h
             T(y) == LET d12 == (y[2] \ominus y[1]) \oslash (u[2] \ominus u[1])
                         d23 == (y[3] \ominus y[2]) \oslash (u[3] \ominus u[2])
                         d34 == (y[4] \ominus y[3]) \oslash (u[4] \ominus u[3])
                         e1 == (d23 \ominus d12) \oslash (u[3] \ominus u[1])
                         e2 == (d34 \ominus d23) \oslash (u[4] \ominus u[2])
                         g == (e2 \ominus e1) \oslash (u[4] \ominus u[1])
                     IN [v |-> Sum(<<y[1], NegR(u[1] \otimes d12), e1 \otimes u[1] \otimes u[2], NegR(g \otimes u[1] \otimes u[2] \otimes u[3])>>),
                         p |-> Sum(<<d12, NegR(e1 \otimes (u[1] \oplus u[2])),
                                     g \otimes Sum(<<u[1] \otimes u[2], u[1] \otimes u[3], u[2] \otimes u[3]>>)>>) \oslash h,
                         pp |-> (2 \otimes (e1 \ominus (g \otimes Sum(<<u[1], u[2], u[3]>>)))) \oslash (h \otimes h),
                         ppp |-> (6 \otimes g) \oslash (h \otimes h \otimes h)]
             S == T([i \in 1..4 |-> Ln(r.ps[i])])
             V == T([i \in 1..4 |-> Ln(r.pt[i])])
             eps == "2e-13"
         IN [ same_spectrum |-> \A i \in 1..4 : CloseAbs(r.ls[i], Ln(r.ps[i]), "1e-12") /\ CloseAbs(r.lt[i], Ln(r.pt[i]), "1e-12"),
              amplitude |-> CloseRel(r.rep.A_s, Exp(S.v), "1e-10") /\ CloseRel(r.rep.A_s, r.at.s, "1e-10"),
              tensor |-> CloseRel(r.rep.A_t, Exp(V.v), "1e-10") /\ CloseRel(r.rep.A_t, r.at.t, "1e-10"),
              ratio |-> CloseRel(r.rep.r, Real(r.rep.A_t) \oslash r.rep.A_s, "1e-12"),
              tilt |-> CloseAbs(Real(r.rep.n_s) \ominus 1, S.p, (eps \oslash h) \oplus "1e-12"),
              running |-> CloseAbs(r.rep.n_run, S.pp, (("10" \otimes eps) \oslash (h \otimes h)) \oplus "1e-12"),
              second_running |-> CloseAbs(r.rep.n_runrun, S.ppp, (("60" \otimes eps) \oslash (h \otimes h \otimes h)) \oplus "1e-12"),
              tensor_tilt |-> CloseAbs(r.rep.n_t, V.p, (eps \oslash h) \oplus "1e-12") ]
    [] r.kind = "tilt" ->
         [ flat_only |-> r.K # 0 => "PrimpyError" \in {r.mro[i] : i \in DOMAIN r.mro},
           yields |-> (r.K = 0 /\ r.exc = "none") => CloseAbs(r.n_s, r.target, "1e-8") /\ Le(r.N_lo, r.N_star) /\ Le(r.N_star, r.N_hi),
           reachable |-> (r.K = 0 /\ r.inside) => r.exc = "none",
           unreachable |-> (r.K = 0 /\ ~r.inside /\ r.exc # "none") => "PrimpyError" \in {r.mro[i] : i \in DOMAIN r.mro},
           keeps_rho |-> (r.K = 0 /\ r.exc = "none" /\ r.rho # "none") => CloseRel(r.rho_reh, r.rho, "1e-12") ]
    [] r.kind = "beyond" ->
         CASE r.ext = "const" -> [ boundary |-> \A i \in DOMAIN r.q : \A j \in DOMAIN r.q[i].far : CloseRel(r.q[i].far[j], r.q[i].at, "1e-9") ]
              [] r.ext = "zeros" -> [ unit |-> \A i \in DOMAIN r.q : \A j \in DOMAIN r.q[i].far : CloseRel(r.q[i].far[j], 1, "1e-12") ]
              [] r.ext = "raise" -> [ refused |-> \A i \in DOMAIN r.q : \A j \in DOMAIN r.q[i].far :
                                        "ValueError" \in {r.q[i].mro[j][m] : m \in DOMAIN r.q[i].mro[j]} ]
              \* one polynomial from the last piece on: it goes on, and not at a constant
              [] r.ext = "extrapolate" -> [ continues |-> \A i \in DOMAIN r.q :
                                          (\E j \in DOMAIN r.q[i].far : ~CloseRel(r.q[i].far[j], r.q[i].at, "1e-13")) \/ EqR(r.q[i].at, 0) \/ ~IsFin(r.q[i].at) ]
    [] r.kind = "refused" -> [ calibrated |-> r.K # 0 ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
