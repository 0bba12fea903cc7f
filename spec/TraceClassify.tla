--------------------------- MODULE TraceClassify ---------------------------
(* P05: reported start and end of inflation against the recorded history.    *)
EXTENDS Classify, Background, TraceKit
VARIABLES w, l, ncl, done

\* the point a mark refers to: [N, phi, dphi]
PointOf(r, m) == IF m = "initial" THEN r.first ELSE r.points[m]
StateAt(r, p) == State(r.form, r.K, r.pot, p.N, p.phi, p.dphi)
Undef(x) == IsNaN(x) /\ x = "nan"
\* in e-folds H^2 is a quotient by 3 - phi'^2/2: its conditioning is part of what equality can mean in floating point
HTol(r, p) == IF r.form = "T" THEN Real("1e-9")
              ELSE Real("1e-9") \oplus ("1e-13" \oslash AbsR(Real(1) \ominus ((Real(p.dphi) \otimes Real(p.dphi)) \oslash 6)))

\* where phi'^2 reaches 6 the expression is 0/0 and no value can be held against it
Singular(r, p) == ~Lt(HTol(r, p), "1e-3")

Judge(r) ==
  IF r.exc # "none" THEN [ classifies |-> FALSE ] ELSE
  LET h == [begin |-> r.begin, tables |-> r.tables]
      s == StartOf(h)[1]
      e == EndOf(h)[1]
      sd == s # "undefined"
      ed == e # "undefined"
      sp == PointOf(r, s)
      ep == PointOf(r, e)
      ss == StateAt(r, sp)
      es == StateAt(r, ep)
      both == sd /\ ed
  IN [ classifies |-> TRUE,
       N_beg    |-> IF sd THEN CloseRel(r.N_beg, sp.N, "1e-13") ELSE r.N_beg = "nan",
       H_beg    |-> IF sd THEN Singular(r, sp) \/ CloseRel(r.H_beg, HH(ss), HTol(r, sp)) ELSE r.H_beg = "nan",
       logaH_beg |-> IF sd THEN Singular(r, sp) \/ CloseAbs(r.logaH_beg, LogaH(ss), HTol(r, sp)) ELSE r.logaH_beg = "nan",
       N_end    |-> IF ed THEN CloseRel(r.N_end, ep.N, "1e-13") ELSE r.N_end = "nan",
       phi_end  |-> IF ed THEN CloseRel(r.phi_end, ep.phi, "1e-13") ELSE r.phi_end = "nan",
       V_end    |-> IF ed THEN CloseRel(r.V_end, V0(es), "1e-9") ELSE r.V_end = "nan",
       H_end    |-> IF ed THEN Singular(r, ep) \/ CloseRel(r.H_end, HH(es), HTol(r, ep)) ELSE r.H_end = "nan",
       logaH_end |-> IF ed THEN Singular(r, ep) \/ CloseAbs(r.logaH_end, LogaH(es), HTol(r, ep)) ELSE r.logaH_end = "nan",
       N_tot    |-> IF both THEN CloseAbs(r.N_tot, Real(ep.N) \ominus sp.N, "1e-12" \otimes (1 \oplus AbsR(ep.N))) ELSE r.N_tot = "nan",
       mask     |-> both => \A i \in DOMAIN r.Ns : r.mask[i] = (Lt(sp.N, r.Ns[i]) /\ Lt(r.Ns[i], ep.N)),
       mask_len |-> both => Len(r.mask) = Len(r.Ns),
       warnings |-> {r.warns[i] : i \in DOMAIN r.warns} = (IF r.verbose THEN WarnsOf(h) ELSE {}),
       \* a warning that an event was not tracked is about an event that was not tracked
       start_hint |-> (r.verbose /\ "InflationStartWarning" \in WarnsOf(h)) =>
                        (r.hint_start = (DOMAIN r.tables \cap {"in0", "in1"} = {})),
       end_hint |-> (r.verbose /\ "InflationEndWarning" \in WarnsOf(h)) =>
                        (r.hint_end = (DOMAIN r.tables \cap {"out0", "out1"} = {})) ]

Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
