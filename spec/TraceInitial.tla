---------------------------- MODULE TraceInitial ----------------------------
(* P06: initial states handed to the integrator.                             *)
EXTENDS Initial, Background, TraceKit
VARIABLES w, l, ncl, done

\* numeric request: classify it, then decide
Class(r) ==
  LET half == IF r.ic = "SR" THEN 3 ELSE 2
      v == VJet(r.pot, JVar(r.phi_i))[1]
  IN [K |-> r.K, given |-> r.given,
      om |-> IF r.given \in {"N", "neither"} THEN "zero" ELSE
             IF Le(1, r.Omega) THEN "one" ELSE IF Lt(0, r.Omega) THEN "pos" ELSE IF Lt(r.Omega, 0) THEN "neg" ELSE "zero",
      fits |-> r.given \in {"Omega", "neither"} \/ Lt(r.K, (v \oslash half) \otimes Exp(2 \otimes Real(r.Nreq))),
      form |-> r.form, tt |-> r.tt, te |-> r.te, ht |-> r.ht, he |-> r.he]

JudgeReq(r) ==
  LET rf == Refusal(Class(r)) IN
  IF rf # "none" THEN
    [ refused |-> r.exc # "none",
      right_error |-> CASE rf = "InflationStartError" -> r.exc = "InflationStartError"
                        [] rf = "argument" -> r.exc \in {"TypeError", "AssertionError", "ValueError"}
                        [] OTHER -> r.exc \in {"TypeError", "AssertionError", "ValueError"} ]
  ELSE IF r.exc # "none" THEN [ accepted |-> FALSE ] ELSE
  LET v   == VJet(r.pot, JVar(r.phi_i))
      dn  == r.y0.dphi
      N   == IF r.form = "T" THEN Real(r.y0.N) ELSE Real(r.x0)
      k   == r.K \otimes Exp((-2) \otimes N)
      h2  == ((v[1]) \oslash (IF r.ic = "SR" THEN 3 ELSE 2)) \ominus k
      h   == Sqrt(h2)
      \* K/a^2 against rho/3: how ill-conditioned the subtraction is
      cond == 1 \oplus (AbsR(k) \oslash h2)
      tol == "1e-10" \otimes cond
      \* in e-folds H^2 is a quotient by 1 - phi'^2/6
      tolN == tol \oplus (IF r.form = "T" THEN Real(0) ELSE "1e-13" \oslash AbsR(Real(1) \ominus ((Real(dn) \otimes Real(dn)) \oslash 6)))
      s   == State(r.form, r.K, r.pot, N, r.y0.phi, dn)
  IN [ accepted |-> TRUE,
       slots   |-> CloseRel(r.y0.phi, r.phi_i, "1e-14") /\ r.y0.size = r.nvars,
       t_slot  |-> (r.form = "N" /\ r.tt) => CloseRel(r.y0.t, r.t_i, "1e-14"),
       eta_slot |-> r.te => CloseRel(r.y0.eta, r.eta_i, "1e-14"),
       starts  |-> IF r.form = "T" THEN CloseRel(r.x0, r.t_i, "1e-14") ELSE CloseRel(r.x0, r.attr.N_i, "1e-14"),
       ends    |-> CloseRel(r.x1, r.x_end, "1e-14"),
       size    |-> r.given = "N" => CloseRel(N, r.Nreq, "1e-14"),
       N_i     |-> CloseRel(N, r.attr.N_i, "1e-14"),
       curvature |-> r.given = "Omega" => CloseRel(NegR(k) \oslash h2, r.Omega, tol \otimes cond),
       Omega_Ki |-> CloseAbs(r.attr.Omega_Ki, NegR(k) \oslash h2, tol \otimes MaxR(AbsR(k) \oslash h2, "1e-300")),
       aH_i    |-> CloseRel(r.attr.aH_i, h \otimes Exp(N), tol),
       H_i     |-> CloseRel(r.attr.H_i, h, tol),
       attractor |-> r.ic = "SR" =>
                       CloseRel(dn, NegR(v[2]) \oslash (3 \otimes (IF r.form = "T" THEN h ELSE h2)), tol),
       at_onset |-> r.ic = "IS" => CloseAbs(EoS(s), Real(-1) \oslash 3, tolN),
       onset_value |-> r.ic = "IS" => CloseRel(dn, NegR(Sqrt(v[1])) \oslash (IF r.form = "T" THEN Real(1) ELSE h), tol),
       same_rate |-> r.ic = "IS" => CloseRel(HH(s), h, tolN) ]

\* start-of-inflation states handed over the other way round: size -> curvature density -> size
JudgeTrip(r) == [ round_trip |-> r.exc = "none" /\ CloseAbs(r.N2, r.N1, "1e-9" \otimes r.cond) ]
\* an integration without events spans the advertised interval
JudgeSpan(r) == [ spans |-> r.exc = "none" /\ CloseRel(r.x_first, r.x_ini, "1e-14") /\ CloseRel(r.x_last, r.x_end, "1e-14"),
                  from_state |-> r.exc = "none" /\ CloseRel(r.phi_first, r.phi_i, "1e-14") /\ CloseRel(r.N_first, r.N_i, "1e-14") ]
Judge(r) == CASE r.kind = "req" -> JudgeReq(r) [] r.kind = "trip" -> JudgeTrip(r) [] r.kind = "span" -> JudgeSpan(r)
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
