---------------------------- MODULE TraceBigBang ----------------------------
(* P15, P16: recorded Big Bang quantities and conformal times.               *)
EXTENDS BigBang, TraceKit
VARIABLES w, l, ncl, done

Members(s) == {s[i] : i \in DOMAIN s}
Ok(r) == r.exc = "none"
Tight == "1e-10"

Constants == [mp_kg |-> mpSI, tp_s |-> tpSI, lp_m |-> lpSI, Tp_K |-> TpSI, mp_GeV |-> mpGeV,
              tp_iGeV |-> (tpSI \otimes GeVSI) \oslash hbarSI, lp_iGeV |-> (lpSI \otimes GeVSI) \oslash (hbarSI \otimes cSI),
              Mpc_m |-> MpcSI, a_B |-> aBSI, K_STAR |-> KSTAR, K_STAR_lp |-> KSTARlp, T_CMB_K |-> TCMB, T_CMB_Tp |-> TCMBlp,
              T_nu_TCMB |-> TnuRatio, T_nu_K |-> TnuRatio \otimes TCMB, T_nu_Tp |-> TnuRatio \otimes TCMBlp, N_eff |-> Neff, z_BBN |-> zBBN,
              g0 |-> g0, rho_gamma0_kg_im3 |-> rhoGamma, rho_nu0_kg_im3 |-> rhoRad \ominus rhoGamma, rho_r0_kg_im3 |-> rhoRad,
              rho_r0_mp_ilp3 |-> (rhoRad \otimes lpSI \otimes Sq(lpSI)) \oslash mpSI]

\* fate from matter and Lambda alone; radiation shifts it by at most its own share
Fates(r) == LET ol == OmegaL(r.h, r.om, r.ok)  d == 3 \otimes OmegaR(r.h)
            IN {Fate(r.om, ol), Fate(r.om, Real(ol) \oplus d), Fate(r.om, Real(ol) \ominus d)}
Judged(r, value(_), amp) ==
  LET F == Fates(r)
      known == r.units \in UnitsOf[r.q]
  IN IF ~known THEN [ unknown_units |-> "NotImplementedError" \in Members(r.mro) ]
     ELSE [ refused |-> F \subseteq {"ValueError", "BigBangError"} => ~Ok(r) /\ F \cap Members(r.mro) # {},
            served |-> F \cap {"ValueError", "BigBangError"} = {} => Ok(r),
            warned |-> (F = {"BigBangWarning"} => "BigBangWarning" \in Members(r.warns)) /\ (F = {"none"} => "BigBangWarning" \notin Members(r.warns)),
            value |-> Ok(r) => \A i \in DOMAIN r.N :
                        LET e == E2at(r.h, r.om, r.ok, r.N[i])  s == E2abs(r.h, r.om, r.ok, r.N[i])
                            tol == "1e-11" \otimes (s \oslash AbsR(e))
                        IN IF Lt("0.1", tol) THEN TRUE
                           ELSE IF Lt(e, 0) THEN IsNaN(r.v[i])
                           ELSE CloseRel(r.v[i], value(r.N[i]), tol),
            shape |-> Ok(r) => r.shape ]

Eta(r, a, b) == LET m == 3 * r.m IN EtaBetween(r.h, r.om, r.ok, a, b, m)
\* the accuracy of an adaptive quadrature with default tolerances
Qtol == "3e-5"

Judge(r) ==
  CASE r.kind = "constant" -> [ constant |-> CloseRel(r.v, Constants[r.name], Tight) ]
    [] r.kind = "H0" -> IF r.units \in UnitsOf.H0 THEN [ value |-> CloseRel(r.v, H0in(r.h, r.units), Tight) ]
                        ELSE [ unknown_units |-> "NotImplementedError" \in Members(r.mro) ]
    [] r.kind = "a0" -> IF r.units \in UnitsOf.a0 THEN [ value |-> CloseRel(r.v, A0in(r.h, r.ok, r.units), Tight) ]
                        ELSE [ unknown_units |-> Flat(r.ok) \/ "NotImplementedError" \in Members(r.mro) ]
    [] r.kind = "today" ->
         [ radiation |-> CloseRel(r.Or, OmegaR(r.h), Tight),
           critical |-> CloseRel(r.rho, RhoCrit(r.h), Tight),
           bbn |-> CloseAbs(r.N_BBN, NBBN(r.h, r.ok), "1e-9"),
           \* the densities sum to one: the Hubble rate today is H0
           closure |-> CloseRel(r.H, H0in(r.h, "planck"), "1e-9"),
           \* today the comoving Hubble horizon is the Hubble radius
           horizon |-> CloseRel(r.cHH, cSI \oslash (Hubble0(r.h) \otimes MpcSI), "1e-9") ]
    [] r.kind = "reh" ->
         \* the comoving horizon grows like a^((1+3w)/2)
         [ duration |-> CloseAbs(r.D, Real(r.N2) \ominus r.N1, "1e-12" \otimes (1 \oplus AbsR(r.N1) \oplus AbsR(r.N2))),
           growth |-> CloseAbs(((1 \oplus (3 \otimes Real(r.w))) \otimes r.D) \oslash 2, Real(r.l2) \ominus r.l1, "1e-10" \otimes (1 \oplus AbsR(r.l1) \oplus AbsR(r.l2))) ]
    [] r.kind = "hubble" -> Judged(r, LAMBDA N : HubbleAt(r.h, r.om, r.ok, N, r.units), 1)
    [] r.kind = "horizon" -> Judged(r, LAMBDA N : CHHat(r.h, r.om, r.ok, N, r.units), 1)
    [] r.kind = "line" ->
         IF Lt(r.om, 0) THEN [ refused |-> "ValueError" \in Members(r.mro) ]
         ELSE LET tol == (IF r.line = "no Big Bang" THEN "1e-11" ELSE "1e-7") \otimes (1 \oplus AbsR(r.v))
                  up == Fate(r.om, Real(r.v) \oplus tol)  down == Fate(r.om, Real(r.v) \ominus tol)
              IN [ served |-> Ok(r),
                   divides |-> Ok(r) => IF r.line = "no Big Bang" THEN up = "BigBangError" /\ down # "BigBangError"
                                        ELSE down = "BigBangWarning" /\ up # "BigBangWarning" ]
    [] r.kind = "eta" ->
         [ integral |-> CloseAbs(r.v, Eta(r, r.N1, r.N2), Qtol \otimes AbsR(Eta(r, r.N1, r.N2))),
           antisymmetric |-> CloseAbs(r.back, NegR(r.v), Qtol \otimes AbsR(r.v)),
           additive |-> CloseAbs(Real(r.ab) \oplus r.bc, r.v, Qtol \otimes (AbsR(r.ab) \oplus AbsR(r.bc))),
           arrays |-> /\ Len(r.arr) = 2 /\ CloseRel(r.arr[1], r.ab, "1e-9") /\ CloseRel(r.arr[2], r.v, "1e-9")
                     /\ Len(r.mixed) = 4 /\ CloseRel(r.mixed[1], r.v, "1e-9") /\ CloseRel(r.mixed[2], r.ab, "1e-9") /\ EqR(r.mixed[3], r.zero) /\ CloseRel(r.mixed[4], r.v, "1e-9"),
           lengths |-> \A i \in DOMAIN r.lists :
                         /\ r.lists[i].shape = <<Len(r.lists[i].want)>> /\ Len(r.lists[i].got) = Len(r.lists[i].want)
                         /\ \A j \in DOMAIN r.lists[i].want : CloseRel(r.lists[i].got[j], r.lists[i].want[j], "1e-9"),
           around |-> /\ Len(r.around) = 4 /\ EqR(r.around[2], 0)
                      /\ \A i \in 1..4 : CloseRel(r.around[i], r.singles[i], "1e-9")
                      /\ CloseAbs(Real(r.around[3]) \ominus r.around[1], r.v, Qtol \otimes (AbsR(r.around[1]) \oplus AbsR(r.around[3]))),
           empty |-> EqR(r.zero, 0) ]
    [] r.kind = "eta_type" -> [ type_error |-> "TypeError" \in Members(r.mro) ]
    [] r.kind = "eta_fate" -> [ refused |-> Fates(r) = {"BigBangError"} => "BigBangError" \in Members(r.mro) ]
    [] r.kind = "ratio" ->
         \* both stretches in the calibrated gauge: eta scales like 1/a
         LET before == (Real(r.eta_end) \ominus r.eta_beg) \otimes Exp(NegR(r.delta))
             after == Eta(r, r.N_end, N0of(r.h, r.ok))
         IN [ served |-> Ok(r), ratio |-> Ok(r) => CloseRel(r.v, before \oslash after, "1e-6") ]
    [] r.kind = "gauge" -> [ same_ratio |-> CloseRel(r.v1, r.v2, "3e-3") ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
