--------------------------- MODULE TracePipeline ----------------------------
(* P19: recorded spectrum requests.                                           *)
EXTENDS Pipeline, TraceKit
VARIABLES w, l, ncl, done

Ok(r) == r.exc = "none"
St(r, p) == State(r.form, r.K, r.pot, p.N, p.phi, p.dphi)
Near(a, b, tol) == (IsNaN(a) /\ IsNaN(b)) \/ CloseRel(a, b, tol)
Entry(r, i, v) == LET x == r.res[i][v]  y == r.alone[i][v] IN
  IF Dropped(r.K, r.ks[i], r.drop)
  THEN /\ Lt(0, x.s) /\ Lt(x.s, "1e-25") /\ Lt(0, x.t) /\ Lt(x.t, "1e-25")
  ELSE /\ (r.K = 1 /\ Le(1, r.ks[i])) => ~(Lt(x.s, "1e-25") \/ Lt(x.t, "1e-25"))
       /\ Near(x.s, y.s, r.tol) /\ Near(x.t, y.t, r.tol)

\* what was handed over is the scalar or the tensor equation of that mode
Handed(r, c, what) == \A i \in DOMAIN c.pts :
  LET p == c.pts[i]  s == St(r, p)  e == Equation(r.form, what, s, r.k)
      q == (Real(r.k) \otimes r.k) \oslash (Exp(2 \otimes Real(s.N)) \otimes HSq(s))
      u == Rate(s)  E == Kin(s) \oslash (2 \otimes HSq(s))
      n == AbsR(D2(s.K, r.k) \ominus (s.K \otimes E))
      amp == 1 \oplus ((AbsR(D2(s.K, r.k)) \oplus E) \oslash n)
      z == "1e-7" \otimes (q \oplus (u \otimes u)) \otimes amp \otimes amp
      f == IF r.form = "T" THEN HSq(s) ELSE Real(1)
      g == IF r.form = "T" THEN HH(s) ELSE Real(1)
  IN CloseAbs(p.f2re, e.freq2, z \otimes f) /\ CloseAbs(p.f2im, 0, z \otimes f) /\ CloseAbs(p.d, e.damp, z \otimes g)

Judge(r) ==
  CASE r.kind = "request" ->
         IF ~Ok(r) THEN [ served |-> FALSE ]
         ELSE [ served |-> TRUE,
                size |-> Len(r.res) = Len(r.ks),
                in_place |-> \A i \in DOMAIN r.ks : \A v \in DOMAIN r.res[i] : Entry(r, i, v),
                vacua |-> \A i \in DOMAIN r.ks : DOMAIN r.res[i] = {r.vacs[j] : j \in DOMAIN r.vacs},
                k_iMpc |-> \A i \in DOMAIN r.ks : CloseRel(Real(r.k_iMpc[i]) \otimes Exp(r.lstar), KSTAR \otimes r.ks[i], "1e-10") ]
    [] r.kind = "single" ->
         IF ~Ok(r) THEN [ served |-> FALSE ]
         ELSE [ served |-> TRUE, same |-> \A v \in DOMAIN r.res[1] : Entry(r, 1, v) ]
    [] r.kind = "epochs" ->
         LET e == Stop(r.Ns, r.ls, r.lk, r.fb, r.fe)  b == Start(r.ls, r.lk, r.fb)
         IN IF e = 0 THEN [ refused |-> ~Ok(r) ]
            ELSE [ served |-> Ok(r),
                   start |-> Ok(r) => \A i \in DOMAIN r.calls : r.calls[i].beg = b /\ r.calls[i].ti = b,
                   stop |-> Ok(r) => \A i \in DOMAIN r.calls : r.calls[i].end = e /\ r.calls[i].tf = e,
                   gridded |-> Ok(r) => \A i \in DOMAIN r.calls : r.calls[i].grid ]
    [] r.kind = "handed" ->
         LET sc == {i \in DOMAIN r.calls : Handed(r, r.calls[i], "scalar")}
             te == {i \in DOMAIN r.calls : Handed(r, r.calls[i], "tensor")}
         IN [ equation |-> sc \cup te = DOMAIN r.calls,
              \* two independent solutions of each
              pairs |-> Cardinality(sc) >= 2 /\ Cardinality(te) >= 2 /\ Cardinality(DOMAIN r.calls) = 4,
              basis |-> \A i \in DOMAIN r.calls : \E j \in DOMAIN r.calls :
                          /\ i # j
                          /\ ~EqR((Real(r.calls[i].x0) \otimes r.calls[j].d0) \ominus (Real(r.calls[j].x0) \otimes r.calls[i].d0), 0),
              \* requested start values reach scalars and tensors alike (possibly scaled with the wavenumber)
              requested |-> r.y0 # <<>> => \A S \in {sc, te} : \A n \in {1, 3} : \E i \in S :
                              LET c == r.calls[i] IN
                              \/ EqR(c.x0, r.y0[n]) /\ EqR(c.d0, r.y0[n + 1])
                              \/ CloseRel(c.x0, Real(r.k) \otimes r.y0[n], "1e-12") /\ CloseRel(c.d0, Real(r.k) \otimes r.k \otimes r.y0[n + 1], "1e-12"),
              rtol |-> \A i \in DOMAIN r.calls : EqR(r.calls[i].rtol, r.rtol) ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
