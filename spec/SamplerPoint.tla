---------------------------- MODULE SamplerPoint ----------------------------
(* One point of a slow-roll model as handed to a sampler: a potential up to   *)
(* its scale, the scalar amplitude, and how the pivot and reheating are       *)
(* stated.  Everything follows from the trajectory of the unscaled potential: *)
(* the amplitude fixes the scale.                                             *)
(* A request q = [A_s, Ns, ns, rho, w] holds "none" for what is left out.     *)
EXTENDS Spectra, Background, Units, SlowRoll, TLC
CG == INSTANCE Calibration
Given(x) == x # "none"
GTH == 100          \* relativistic degrees of freedom at the end of reheating
lnKlp == Ln(KSTARlp)

Path(q) == IF Given(q.rho) /\ Given(q.w) THEN "reheating" ELSE IF Given(q.ns) THEN "tilt" ELSE "efolds"

\* the field rolls down from large values to a minimum at zero
RECURSIVE Bisect(_, _, _, _)
Bisect(P(_), a, b, n) == IF n = 0 THEN (Real(a) \oplus b) \oslash 2
  ELSE LET m == TLCEval((Real(a) \oplus b) \oslash 2) IN IF P(m) THEN Bisect(P, m, b, n - 1) ELSE Bisect(P, a, m, n - 1)
PhiEnd(pot, top)  == TLCEval(Bisect(LAMBDA x : Lt(1, Eps1V(pot, x)), "1e-4", top, 45))
PhiStart(pot, top, n) == LET e == PhiEnd(pot, top) IN TLCEval(Bisect(LAMBDA x : Lt(Efolds(pot, e, x), n), e, top, 30))

Flat(pot, N, x) == StateT(0, pot, N, x[1], x[2])
Eps(pot, N, x) == LET s == Flat(pot, N, x) IN Kin(s) \oslash (2 \otimes HSq(s))
Move(pot, N, x, h) == LET y == RK4(0, pot, Real(N), <<Real(x[1]), Real(x[2]), Real(0), Real(0)>>, h) IN <<y[1], y[2]>>
\* the attractor at a point of the potential
Attractor(pot, phi) == LET j == VJet(pot, JVar(phi)) IN <<Real(phi), NegR(j[2]) \oslash Sqrt(3 \otimes j[1])>>

-----------------------------------------------------------------------------
(* A trajectory T = [pot, tab, Ne, He2, Ve, phie]: tab lists <<N, phi, phit>>.  *)
Before(T, N) == CHOOSE j \in DOMAIN T.tab : Le(T.tab[j][1], N) /\ (j = Len(T.tab) \/ Lt(N, T.tab[j + 1][1]))
At0(T, N) == LET j == IF Lt(N, T.tab[1][1]) THEN 1 ELSE Before(T, N)
                 a == T.tab[j]
                 y == Advance(0, T.pot, Real(a[1]), <<Real(a[2]), Real(a[3]), Real(0), Real(0)>>, (Real(N) \ominus a[1]) \oslash 4, 4)
             IN StateT(0, T.pot, Real(N), y[1], y[2])
Local(T, N) == LET s == TLCEval(At0(T, N))  f == TLCEval(Derivs(s))
               IN [ lnk |-> Real(N) \oplus Ln(f.H), H |-> f.H, e1 |-> f.e1,
                    s |-> Ln(Ps0(f.H, f.e1) \otimes CGSs(f, 3)), t |-> Ln(Pt0(f.H) \otimes CGSt(f, 3)) ]
\* where a wavenumber at ln-distance d from that of N0 crosses
RECURSIVE Cross(_, _, _, _)
Cross(T, N, lnk, n) == IF n = 0 THEN N
  ELSE LET s == TLCEval(At0(T, N))  e == Kin(s) \oslash (2 \otimes HSq(s))
           m == TLCEval(Real(N) \oplus ((Real(lnk) \ominus (Real(N) \oplus Ln(HH(s)))) \oslash (1 \ominus e)))
       IN Cross(T, m, lnk, n - 1)

\* amplitude, tilt and runnings where N crosses
Obs(T, N) ==
  LET d == "0.4"
      a == TLCEval(Local(T, Real(N) \ominus d))  b == TLCEval(Local(T, N))  c == TLCEval(Local(T, Real(N) \oplus d))
      sl(u, v, p, q) == (v \ominus u) \oslash (q \ominus p)
      x1 == sl(a.s, b.s, a.lnk, b.lnk)  x2 == sl(b.s, c.s, b.lnk, c.lnk)
      g == (x2 \ominus x1) \oslash ((c.lnk \ominus a.lnk) \oslash 2)
      ha == b.lnk \ominus a.lnk  hc == c.lnk \ominus b.lnk
      y1 == sl(a.t, b.t, a.lnk, b.lnk)  y2 == sl(b.t, c.t, b.lnk, c.lnk)
      mid(u, v) == ((u \otimes hc) \oplus (v \otimes ha)) \oslash (ha \oplus hc)
  IN [ s |-> b.s, t |-> b.t, H |-> b.H, lnk |-> b.lnk, ns |-> 1 \oplus mid(x1, x2), nrun |-> g, nt |-> mid(y1, y2) ]

-----------------------------------------------------------------------------
(* The universe around the trajectory when its pivot crosses Nx e-folds before *)
(* the end and has scalar amplitude A: energy scale, and where inflation ends.  *)
Universe(T, A, Nx, o) ==
  LET sc == Real(A) \oslash Exp(o.s)
      V == sc \otimes T.Ve
      H == Sqrt(sc) \otimes o.H
  IN [ sc |-> sc, V |-> V, Hend |-> Sqrt(sc \otimes T.He2), H |-> H,
       Nend |-> (lnKlp \oplus Nx) \ominus Ln(H),                \* today is 0
       rhoend |-> GeVofRho("1.5" \otimes V) ]
\* reheating as it follows from its density and the position of the pivot
Reheat(U, rho) ==
  LET Nreh == NegR(CG!SinceReh(RhoOfGeV(rho), GTH))
      dN == Nreh \ominus U.Nend
  IN [ Nreh |-> Nreh, dN |-> dN, w |-> (Ln(("1.5" \otimes U.V) \oslash RhoOfGeV(rho)) \oslash (3 \otimes dN)) \ominus 1 ]
\* how far a stated reheating (w, rho) is from agreeing with a pivot
Mismatch(T, q, Nx) ==
  LET b == TLCEval(Local(T, Real(T.Ne) \ominus Nx))
      U == Universe(T, q.A_s, Real(Nx), b)
      h == Reheat(U, q.rho)
  IN h.dN \ominus (Ln(("1.5" \otimes U.V) \oslash RhoOfGeV(q.rho)) \oslash (3 \otimes (1 \oplus Real(q.w))))

RECURSIVE Root(_, _, _, _)
Root(G(_), a, b, n) == LET m == TLCEval((Real(a) \oplus b) \oslash 2) IN
  IF n = 0 THEN m ELSE IF Lt(G(m), 0) THEN Root(G, m, b, n - 1) ELSE Root(G, a, m, n - 1)
\* e-folds after the pivot, or "none"
Tune(G(_), a, b) == LET ga == TLCEval(G(a))  gb == TLCEval(G(b)) IN
  IF Lt(ga, 0) /\ Lt(0, gb) THEN Str(Root(G, a, b, 16))
  ELSE IF Lt(0, ga) /\ Lt(gb, 0) THEN Str(Root(LAMBDA x : NegR(G(x)), a, b, 16)) ELSE "none"
Most(q) == IF Given(q.Ns) THEN q.Ns ELSE "75"
Pivot(T, q) ==
  CASE Path(q) = "efolds" -> Most(q)
    [] Path(q) = "tilt" -> Tune(LAMBDA x : Obs(T, Real(T.Ne) \ominus x).ns \ominus q.ns, Real(20), Real(Most(q)))
    [] Path(q) = "reheating" -> Tune(LAMBDA x : Mismatch(T, q, x), Real(3), Real(80))

(* What must become of the point: "served", "refused" or, too near a limit to *)
(* tell, "either".                                                            *)
Verdict(T, q) ==
  \* exactly radiation together with a density is contradictory to the calibration
  IF Given(q.w) /\ EqR(q.w, CG!Third) THEN "either" ELSE LET p == TLCEval(Pivot(T, q)) IN
  IF p = "none" THEN IF Path(q) = "tilt" THEN
         LET a == AbsR(Obs(T, Real(T.Ne) \ominus 20).ns \ominus q.ns)  b == AbsR(Obs(T, Real(T.Ne) \ominus Most(q)).ns \ominus q.ns)
         IN IF Lt(a, "3e-4") \/ Lt(b, "3e-4") THEN "either" ELSE "refused"
       ELSE "refused"
  ELSE IF ~Given(q.rho) THEN "served"
  ELSE LET U == Universe(T, q.A_s, Real(p), Local(T, Real(T.Ne) \ominus p))
           h == Reheat(U, q.rho)
           hot == Ln(Real(q.rho) \oslash U.rhoend)
           w == IF Path(q) = "reheating" THEN Real(q.w) ELSE h.w
           out(x, m) == Lt(m, x)          \* clearly beyond a limit
           inn(x, m) == Lt(x, NegR(m))    \* clearly within it
           lim == << <<hot, "0.004">>, <<NegR(h.dN), "0.01">>, <<h.Nreh, "0.01">> >>
                  \o (IF Path(q) = "reheating" THEN <<>> ELSE << <<w \ominus 1, "0.02">>, <<NegR(w) \ominus CG!Third, "0.004">> >>)
           \* a stated equation of state is within its limits or not
           stated == Path(q) = "reheating" => Lt(NegR(CG!Third), w) /\ Lt(w, 1)
       IN IF ~stated \/ \E i \in DOMAIN lim : out(lim[i][1], lim[i][2]) THEN "refused"
          ELSE IF \A i \in DOMAIN lim : inn(lim[i][1], lim[i][2]) THEN "served" ELSE "either"
=============================================================================
