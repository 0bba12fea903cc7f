----------------------------- MODULE TraceModes -----------------------------
(* P17, P18: recorded mode equations, vacua and spectra.                      *)
EXTENDS Modes, TraceKit
VARIABLES w, l, ncl, done

St(r, p) == State(r.form, r.K, r.pot, p.N, p.phi, p.dphi)
Size(s, k) == LET q == (Real(k) \otimes k) \oslash (Exp(2 \otimes Real(s.N)) \otimes HSq(s))
                  u == Rate(s)
                  E == Kin(s) \oslash (2 \otimes HSq(s))
                  n == AbsR(D2(s.K, k) \ominus (s.K \otimes E))
                  amp == 1 \oplus ((AbsR(D2(s.K, k)) \oplus E) \oslash n)
              IN (q \oplus (u \otimes u)) \otimes amp \otimes amp
Point(r, p) ==
  LET s == St(r, p)
      e == Equation(r.form, r.what, s, r.k)
      z == Size(s, r.k)
      f == IF r.form = "T" THEN HSq(s) ELSE Real(1)
      g == IF r.form = "T" THEN HH(s) ELSE Real(1)
      t == "1e-8"
  IN [ freq |-> CloseAbs(p.f2re, e.freq2, t \otimes z \otimes f) /\ CloseAbs(p.f2im, 0, t \otimes z \otimes f),
       damp |-> CloseAbs(p.d, e.damp, t \otimes z \otimes g) ]

VacCheck(r) ==
  LET s == St(r, r.at)
      v == Vacuum(r.form, r.vac, r.what, s, r.k)
      t == "1e-7"
      neg == Lt(W2(r.vac, r.what, s, r.k), "1e-3" \otimes Real(r.k) \otimes r.k)
      sc == AbsR(v.re) \oplus AbsR(v.im)
      q == CDiv(r.du, r.u)
      u2 == Real(r.k) \otimes r.k
      cond == 1 \oplus ((Rate(s) \otimes Rate(s) \otimes Exp(2 \otimes Real(s.N)) \otimes HSq(s)) \oslash MaxR(W2(r.vac, r.what, s, r.k), "1e-3" \otimes u2))
  IN IF neg THEN [ undefined |-> TRUE ]
     ELSE [ normalised |-> CloseRel(CAbs2(r.u), v.abs2, t \otimes cond),
            rate |-> CloseAbs(q[1], v.re, t \otimes cond \otimes sc) /\ CloseAbs(q[2], v.im, t \otimes cond \otimes sc) ]

\* final power from the recorded solutions and the vacuum
Power(r, e1, e2) ==
  LET s == St(r, r.at)
      v == Vacuum(r.form, r.vac, r.what, s, r.k)
      u == <<v.u, Real(0)>>
      d == CMul(<<v.re, v.im>>, u)
  IN Prefactor(r.what, r.k) \otimes CAbs2(Combine(u, d, r.y1, r.d1, r.y2, r.d2, e1, e2))

Judge(r) ==
  CASE r.kind = "equation" ->
         MergeAll(<< [ slice |-> r.n = r.want, aligned |-> r.served ] >>)
         @@ [ freq |-> \A i \in DOMAIN r.pts : Point(r, r.pts[i]).freq,
              damp |-> \A i \in DOMAIN r.pts : Point(r, r.pts[i]).damp ]
    [] r.kind = "vacuum" -> VacCheck(r)
    [] r.kind = "combine" ->
         [ power |-> CloseRel(r.P, Power(r, r.e1, r.e2), "1e-6"),
           dense |-> \A i \in DOMAIN r.ev1 : CloseRel(r.Pev[i], Power(r, r.ev1[i], r.ev2[i]), "1e-6"),
           dense_given |-> Len(r.Pev) = Len(r.ev1) ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
