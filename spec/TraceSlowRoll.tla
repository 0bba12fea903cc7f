--------------------------- MODULE TraceSlowRoll ----------------------------
(* P14: recorded slow-roll maps, observables and constructions.              *)
EXTENDS SlowRoll, TraceKit
VARIABLES w, l, ncl, done

Featured(r) == r.pot.feature # "none"
\* rounding, and (double well) a table of 1e5 points joined by straight lines
Slack(r, phi) == LET b == Base(r.pot) IN
  ("1e-8" \otimes (1 \oplus AbsR(r.N))) \oplus ("1e-12" \otimes AbsR(phi) \otimes AbsR(Slope(b, phi)))
    \oplus (IF r.pot.cls = "DoubleWell" THEN Pow(Real("1e-5") \otimes r.pot.phi0, 2) \otimes AbsR(Bend(b, phi)) ELSE Real(0))

Judge(r) ==
  CASE r.kind = "map" ->
         LET b == Base(r.pot)
             d == Real(r.N2) \ominus r.N
             tol == "1e-6" \otimes (1 \oplus MaxR(AbsR(r.N), AbsR(r.N2)))
             home == CloseAbs(Real(r.back) \ominus r.phi, 0, Slack(r, r.phi) \oslash AbsR(Slope(b, r.phi)))
         IN [ ends_at_zero |-> CloseAbs(r.N_end, 0, "1e-9"),
              slope |-> CloseAbs(d, Efolds(b, r.phi, r.phi2), tol),
              slope_with_feature |-> Featured(r) => CloseAbs(d, Efolds(r.pot, r.phi, r.phi2), tol) \/ ~CloseAbs(d, Efolds(b, r.phi, r.phi2), tol),
              back |-> (r.inside /\ Lt(r.N, 500)) => home,
              back_far |-> (r.inside /\ Le(500, r.N)) => home,
              arrays |-> r.arr ]
    [] r.kind = "inverse" -> [ forth |-> CloseAbs(r.there, r.N, Slack(r, r.phi)),
                               grows |-> Lt(r.phi_end, r.phi) ]
    [] r.kind = "deprecated" -> [ same_map |-> CloseAbs(r.old, r.new, "1e-8" \otimes (1 \oplus AbsR(r.new))),
                                  warned |-> "DeprecationWarning" \in {r.warns[i] : i \in DOMAIN r.warns} ]
    [] r.kind = "observables" ->
         LET b == Base(r.pot)
             N == r.N
         IN [ tilt_back |-> CloseAbs(r.ns_back, N, "1e-8" \otimes N \otimes r.cond),
              ratio_back |-> CloseAbs(r.r_back, N, "1e-8" \otimes N \otimes r.cond),
              \* the closed forms are expansions for large N
              tilt |-> Lt(N, 15) \/ CloseAbs(r.ns, Tilt(b, r.phi), Real(10) \oslash (Real(N) \otimes N)),
              ratio |-> Lt(N, 15) \/ CloseRel(r.r, Ratio(b, r.phi), IF b.cls = "Starobinsky" THEN Real(10) \oslash N ELSE Real("1e-6")) ]
    [] r.kind = "amplitude" ->
         LET p == [r.pot EXCEPT !.Lambda = r.Lambda]
         IN [ amplitude |-> CloseRel(Amplitude(p, r.phi), r.As, "1e-7"),
              \* the field value and the e-folds belong together
              pair |-> CloseAbs(r.there, r.N, Slack(r, r.phi)),
              given |-> r.gave = (IF r.by = "N_star" THEN r.N ELSE r.phi) ]
    [] r.kind = "edge" ->
         LET p == [r.pot EXCEPT !.Lambda = r.Lambda]
         IN [ built |-> r.exc = "none",
              \* at phi_end, to the accuracy with which the slow-roll map ends there
              amplitude |-> r.exc = "none" => CloseRel(Amplitude(p, r.phi), r.As, "1e-6") ]
    [] r.kind = "contradictory" -> [ refused |-> r.exc # "none" ]
    [] r.kind = "ctor" ->
         LET o == Outcome(r.cls, {r.given[i] : i \in DOMAIN r.given})
             W == {r.warns[i] : i \in DOMAIN r.warns}
             p == [r.pot EXCEPT !.Lambda = r.Lambda]
         IN CASE o = "refused" -> [ refused |-> r.exc # "none" ]
              [] o = "refused, documented" -> [ refused |-> "PrimpyError" \in {r.mro[i] : i \in DOMAIN r.mro} ]
              [] o = "built" -> [ built |-> r.exc = "none", amplitude |-> r.Lambda = r.Lambda_in, quiet |-> "PrimpyWarning" \notin W ]
              [] OTHER -> [ built |-> r.exc = "none", warned |-> ("PrimpyWarning" \in W) <=> (o = "from amplitude, with warning"),
                            amplitude |-> r.exc = "none" => CloseRel(Amplitude(p, r.phi), r.As, "1e-7") ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
