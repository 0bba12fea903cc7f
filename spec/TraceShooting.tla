--------------------------- MODULE TraceShooting ---------------------------
(* P07: recorded shooting searches.                                          *)
EXTENDS Shooting, Background, TraceKit
VARIABLES w, l, ncl, done
Documented(r) == "PrimpyError" \in {r.mro[i] : i \in DOMAIN r.mro}
(* Besides the field, the solution starts exactly where the request put it:  *)
(* its size (or curvature), the times, and the field at the edge of inflation*)
Kept(q, name, have) == Has(q, name) => CloseRel(q[name], have, "1e-14")
RestAsAsked(r) ==
  LET q  == r.asked
      f  == r.first
      v  == VJet(r.pot, JVar(f.phi))[1]
      k  == TLCEval(r.K \otimes Exp((-2) \otimes f.N))
      h2 == TLCEval((v \oslash 2) \ominus k)
      \* K/a^2 against rho/3: how ill-conditioned the subtraction is
      cond == TLCEval(1 \oplus (AbsR(k) \oslash AbsR(h2)))
      tol == "1e-10" \otimes (cond \otimes cond)
  IN  /\ Has(q, "N_i") => CloseRel(q.N_i, f.N, "1e-14")
      /\ Has(q, "Omega_Ki") => CloseRel(NegR(k) \oslash h2, q.Omega_Ki, tol)
      /\ f.t # "absent" => Kept(q, "t_i", f.t)
      /\ f.eta # "absent" => Kept(q, "eta_i", f.eta)
      /\ CloseRel(f.dphi, NegR(Sqrt(v)) \oslash (IF r.form = "T" THEN Real(1) ELSE Sqrt(h2)), tol)
Judge(r) ==
  IF r.exc = "none"
  THEN [ hits_target |-> CloseAbs(r.got, r.target, r.tol),
         ic_matches_solution |-> CloseRel(r.ic_phi, r.sol_phi, "1e-14"),
         bracketed |-> Le(r.lo, r.ic_phi) /\ Le(r.ic_phi, r.hi),
         possible |-> Has(r, "prof") => ~MustFail(r.prof),
         rest_as_asked |-> Has(r, "asked") => RestAsAsked(r) ]
  ELSE [ documented_error |-> Documented(r),
         not_refused |-> Has(r, "prof") => ~MustSucceed(r.prof) ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
