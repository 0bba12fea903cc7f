----------------------------- MODULE TraceCalib -----------------------------
(* P08, P09, P10: recorded calibrations of integrated backgrounds.           *)
EXTENDS Calibration, Background, TraceKit
VARIABLES w, l, ncl, done

Ok(r) == r.exc = "none"
Members(s) == {s[i] : i \in DOMAIN s}
B(r) == r.b
lnK == Ln(KSTARlp)

-----------------------------------------------------------------------------
(* where the pivot has to be, in the background's own gauge: ln(aH) there *)
dm1Of(r) ==
  LET a == r.a IN
  CASE Given(a.Ns) -> Real("nan")
    [] Instant(a) = "yes" -> Real(0)
    [] Given(a.dm1) -> Real(a.dm1)
    [] Given(a.w) /\ Given(a.DN) -> Minus1(a.w, a.DN)
    [] Given(a.w) /\ Given(a.rho) ->
         Minus1(a.w, Ln(("1.5" \otimes r.b.V_end) \oslash RhoOfGeV(a.rho)) \oslash (3 \otimes (1 \oplus Real(a.w))))
    [] OTHER -> Real("nan")
Lin(p, q, N) == Real(p.l) \oplus (((Real(N) \ominus p.N) \oslash (Real(q.N) \ominus p.N)) \otimes (Real(q.l) \ominus p.l))
PivotOf(r) ==
  LET m == Mode(r.K, r.a) IN
  CASE m = "N_star" -> Lin(r.cr[1], r.cr[2], Real(r.b.N_end) \ominus r.a.Ns)
    [] m = "reheating" -> Real(r.b.N_end) \oplus SinceEnd(r.b.V_end, r.g, dm1Of(r)) \oplus lnK
    [] m = "Omega_K0" -> Ln((KSTAR \otimes Sqrt((-r.K) \oslash Real(r.a.Ok)) \otimes cSI) \oslash (Real(r.a.h) \otimes "1e5"))
    [] OTHER -> Real("nan")
\* reheating that has to fit between the pivot's N_star and entropy conservation
FreeMinus1(r, pv) == (pv \ominus lnK \ominus r.b.N_end) \ominus SinceEnd(r.b.V_end, r.g, 0)

\* reasons that depend on the background; "edge" when rounding or sampling decides, or
\* when the pivot leaves the horizon so close to an end of inflation that slow-roll series
\* need not be positive there (then there is no approximate spectrum to report)
BackReasons(r) ==
  LET m == Mode(r.K, r.a) IN
  IF m = "copy" THEN {}
  ELSE IF m = "N_star"
       THEN IF Lt(r.b.N_tot, r.a.Ns) THEN {"InsufficientInflationError"}
            ELSE IF Lt(r.a.Ns, "1.5") \/ Lt(Real(r.b.N_tot) \ominus r.a.Ns, 2) THEN {"edge"}
            ELSE IF Given(r.a.w)
                 THEN LET dur == (4 \otimes FreeMinus1(r, PivotOf(r))) \oslash (1 \ominus (3 \otimes Real(r.a.w)))
                      IN IF Lt(AbsR(dur), "1e-3") THEN {"edge"} ELSE IF Lt(dur, 0) THEN {"ValueError"} ELSE {}
                 ELSE {}
       ELSE LET pv == PivotOf(r)
            IN IF Lt(pv, Real(r.b.lH_beg) \ominus "1e-6") \/ Lt(Real(r.b.lH_end) \oplus "1e-6", pv) THEN {"InsufficientInflationError"}
               ELSE IF Lt(pv, Real(r.b.lo_in) \oplus 2) \/ Lt(Real(r.b.hi_in) \ominus "1.5", pv) THEN {"edge"}
               ELSE {}
AllReasons(r) == LET d == Reasons(r.K, r.a) IN IF d # {} THEN d ELSE BackReasons(r)

Decision(r) ==
  LET R == AllReasons(r)
      alsoshort == IF Given(r.a.Ns) /\ Lt(r.b.N_tot, r.a.Ns) THEN {"InsufficientInflationError"} ELSE {}
  IN
  [ refused  |-> (R # {} /\ R # {"edge"}) => ~Ok(r),
    served   |-> R = {} => Ok(r),
    documented_error |-> (~Ok(r) /\ R # {"edge"}) => (R \cup alsoshort) \cap Members(r.mro) # {} ]

-----------------------------------------------------------------------------
Near(x, y) == CloseAbs(x, y, "1e-9" \otimes (1 \oplus AbsR(y)))
\* an undefined number is undefined in both places
NearN(x, y) == IF IsNaN(y) THEN IsNaN(x) ELSE Near(x, y)

(* P08: one constant, one pivot, consistent units *)
Identities(r) ==
  LET v == r.r
      d == Real(v.delta_N_calib)
      shifted(x, y) == NearN(x, Real(y) \oplus d)
      copy == Mode(r.K, r.a) = "copy"
      lk == Ln(v.a0_Mpc)
  IN [ one_constant |-> \A i \in DOMAIN r.smp : shifted(r.smp[i].N, r.smp[i].N_),
       marks_shifted |-> /\ shifted(v.N_cross, v._N_cross) /\ shifted(v.N_end, v._N_end)
                         /\ shifted(v.N_beg, r.b.N_beg) /\ shifted(v.N_reh, v._N_reh),
       end_kept |-> ~copy => CloseRel(v._N_end, r.b.N_end, "1e-13"),
       pivot_scale |-> Near(Real(v._logaH_star) \oplus d \ominus v.N0, lnK),
       adds_up |-> /\ Near(v.N_dagg, Real(v.N_cross) \ominus v.N_beg)
                   /\ Near(v.N_star, Real(v.N_end) \ominus v.N_cross)
                   /\ (~copy => Near(Real(v.N_dagg) \oplus v.N_star, r.b.N_tot)),
       crossing |->
         LET p == r.br[1]  q == r.br[2]
             s == State(r.form, r.K, r.b.pot, p.N, p.phi, p.dphi)
             at(N) == LET y == Advance(r.K, r.b.pot, Real(p.N), <<Real(p.phi), s.phit, Real(0), Real(0)>>,
                                       (Real(N) \ominus p.N) \oslash 8, 8)
                      IN LogaH(StateT(r.K, r.b.pot, Real(N), y[1], y[2]))
             mid == (Real(p.N) \oplus q.N) \oslash 2
             bend == AbsR(at(mid) \ominus ((Real(p.l) \oplus q.l) \oslash 2))
         IN copy \/ (/\ Le(p.N, v._N_cross) /\ Le(v._N_cross, q.N)
                     /\ CloseAbs(at(v._N_cross), v._logaH_star, ("1.3" \otimes bend) \oplus "1e-5")),
       today |-> Near(Ln(v.a0), v.N0) /\ CloseRel(v.a0_Mpc, Exp(Real(v.N0) \ominus d) \otimes lpMpc, "1e-8"),
       flat |-> r.K = 0 => CloseRel(v.a0, 1, "1e-14") /\ CloseAbs(v.N0, 0, "1e-14") /\ CloseAbs(v.Omega_K0, 0, "1e-300"),
       curved |-> r.K # 0 => /\ EqR(d, 0)
                             /\ CloseRel(v.Omega_K0, (-r.K) \otimes Sq(cSI \oslash (Real(v.a0_Mpc) \otimes r.a.h \otimes "1e5")), "1e-9"),
       asked |-> /\ (Mode(r.K, r.a) \in {"N_star", "copy"} => Near(v.N_star, r.a.Ns))
                 /\ (Mode(r.K, r.a) = "Omega_K0" => CloseRel(v.Omega_K0, r.a.Ok, "1e-12")),
       placed |-> (Mode(r.K, r.a) \in {"reheating", "Omega_K0"}) => CloseAbs(v._logaH_star, PivotOf(r), "1e-7"),
       wavenumbers |-> \A i \in DOMAIN r.msk :
            LET m == r.msk[i] IN
            /\ Near(m.logk, Real(m.l) \ominus lk) /\ CloseRel(m.k, Exp(m.logk), "1e-10")
            /\ CloseRel(m.k_, Exp(m.l), "1e-9") /\ CloseRel(Real(m.cHH) \otimes m.k, 1, "1e-8")
            /\ Lt(r.b.N_beg, m.N_) /\ Lt(m.N_, v._N_end),
       horizons |-> \A i \in DOMAIN r.smp : Near(Ln(r.smp[i].cHH), lk \ominus r.smp[i].l),
       horizon_end |-> copy \/ Near(Ln(v.cHH_end_Mpc), lk \ominus r.b.lH_end),
       covered |-> /\ r.n.mask = r.n.logk /\ r.n.mask = r.n.k /\ r.n.mask = r.n.k_ /\ r.n.N = r.n.all /\ r.n.cHH = r.n.all
                   /\ r.n.alone <= r.n.mask /\ r.n.mask <= r.n.strict /\ 20 * (r.n.strict - r.n.mask) <= r.n.strict,
       copied |-> copy => \A f \in {"delta_N_calib", "_logaH_star", "_N_cross", "_N_end", "N_star", "_N_reh", "w_reh",
                                    "DeltaN_reh", "DeltaN_minus1", "rho_reh_GeV", "rho_reh_mp4"} : v[f] = r.ref[f] ]

(* P10: reheating *)
Reheating(r) ==
  LET v == r.r
      a == r.a
      \* densities that a double cannot hold are not judged
      det == Determined(r.K, a) /\ ~Lt(v.rho_reh_mp4, "1e-290")
      copy == Mode(r.K, a) = "copy"
      free == (Real(v.N0) \ominus v.N_end) \ominus SinceEnd(r.b.V_end, r.g, 0)
      und == {"rho_reh_GeV", "rho_reh_mp4", "w_reh", "DeltaN_reh", "N_reh", "_N_reh"}
      neg == Lt(v.DeltaN_reh, 0) \/ Lt(v.N0, v.N_reh)
      inst == Mode(r.K, a) = "reheating" /\ Instant(a) = "yes"
      big == IF det THEN 1 \oplus AbsR(Real(v.w_reh)) \oplus AbsR(Real(v.DeltaN_reh)) ELSE Real(1)
      tol == "1e-9" \otimes big \otimes big
  IN IF copy THEN << >> ELSE
     [ undetermined |-> ~Determined(r.K, a) => \A f \in und : v[f] = "nan",
       energy |-> det => CloseAbs(Ln(v.rho_reh_mp4), Ln(RhoReh(r.b.V_end, v.w_reh, v.DeltaN_reh)), "1e2" \otimes tol),
       correction |-> det => CloseAbs(v.DeltaN_minus1, Minus1(v.w_reh, v.DeltaN_reh), tol),
       entropy |-> det => Near(Real(v.N0) \ominus v.N_reh, SinceReh(v.rho_reh_mp4, r.g)),
       end_of_inflation |-> (Determined(r.K, a) \/ Mode(r.K, a) # "Omega_K0" \/ v.DeltaN_minus1 # "nan") => CloseAbs(v.DeltaN_minus1, free, "1e-8" \oplus tol),
       duration |-> det => CloseAbs(v.DeltaN_reh, Real(v.N_reh) \ominus v.N_end, "1e-8"),
       units |-> det => CloseRel(v.rho_reh_GeV, GeVofRho(v.rho_reh_mp4), "1e-9"),
       given |-> det => /\ (Given(a.w) => CloseRel(v.w_reh, a.w, "1e-12")) /\ (Given(a.DN) => CloseRel(v.DeltaN_reh, a.DN, "1e-12"))
                        /\ (Given(a.rho) => CloseRel(v.rho_reh_GeV, a.rho, "1e-12")) /\ (Given(a.dm1) => CloseRel(v.DeltaN_minus1, a.dm1, "1e-12")),
       instant |-> inst => /\ CloseRel(v.w_reh, Third, "1e-14") /\ CloseAbs(v.DeltaN_reh, 0, "1e-12") /\ CloseAbs(v.DeltaN_minus1, 0, "1e-12")
                           /\ CloseRel(v.rho_reh_mp4, "1.5" \otimes Real(r.b.V_end), "1e-12"),
       warned |-> (det /\ ~Lt(AbsR(v.DeltaN_reh), "1e-9") /\ ~CloseAbs(v.N0, v.N_reh, "1e-9")) => (neg <=> "PrimpyWarning" \in Members(r.warns)),
       not_warned |-> ~Determined(r.K, a) => "PrimpyWarning" \notin Members(r.warns),
       same_history |-> ("same" \in DOMAIN r) =>
           \A f \in DOMAIN r.same \ {"rho_reh_GeV", "rho_reh_mp4", "a0", "a0_Mpc", "cHH_end_Mpc", "Omega_K0"} :
              CloseAbs(v[f], r.same[f], "1e-7" \otimes (1 \oplus AbsR(r.same[f]))),
       same_scales |-> ("same" \in DOMAIN r) =>
           \A f \in {"rho_reh_GeV", "rho_reh_mp4", "a0", "a0_Mpc", "cHH_end_Mpc", "Omega_K0"} : CloseRel(v[f], r.same[f], "1e-5") ]

JudgeInstant(r) ==
  LET i == Instant(r.a) IN
  [ verdict |-> CASE i = "ValueError" -> r.exc = "ValueError"
                  [] i = "yes" -> Ok(r) /\ r.value = TRUE
                  [] OTHER -> Ok(r) /\ r.value = FALSE,
    boolean |-> Ok(r) => r.isbool = TRUE ]

Judge(r) ==
  CASE r.kind = "calib" -> Decision(r) @@ (IF ~Ok(r) THEN << >> ELSE IF r.full THEN Identities(r) ELSE Reheating(r))
    [] r.kind = "instant" -> JudgeInstant(r)
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
