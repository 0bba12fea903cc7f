------------------------------ MODULE History -------------------------------
(* What a solution remembers: the last calibration that succeeded and the     *)
(* approximation selected since.  Nothing else that was ever called counts.   *)
EXTENDS Integers, Sequences
\* op |-> [kind, fate, sel]; sel: the approximation a calibration or selection leaves selected
Flat == [
  star50   |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "CGS3"],
  star38   |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "CGS1"],
  starRho  |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "LLMS"],
  starDM   |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "ARBDS2"],
  reheat   |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "CGS3"],
  instant  |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "STE"],
  noStar   |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  farStar  |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  overdet  |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  noMethod |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  copy     |-> [kind |-> "copy", fate |-> "ok", sel |-> "none"],
  miscopy  |-> [kind |-> "copy", fate |-> "refused", sel |-> "none"],
  tilt     |-> [kind |-> "tilt", fate |-> "ok", sel |-> "CGS3"],
  tiltRho  |-> [kind |-> "tilt", fate |-> "ok", sel |-> "CGS3"],
  lowTilt  |-> [kind |-> "tilt", fate |-> "refused", sel |-> "none"],
  pickCGS2 |-> [kind |-> "select", fate |-> "ok", sel |-> "CGS2"],
  pickSTE  |-> [kind |-> "select", fate |-> "ok", sel |-> "STE"],
  pickARBDS3 |-> [kind |-> "select", fate |-> "ok", sel |-> "ARBDS3"],
  askCGS0  |-> [kind |-> "query", fate |-> "ok", sel |-> "none"],
  askLLMS  |-> [kind |-> "query", fate |-> "ok", sel |-> "none"],
  askAll   |-> [kind |-> "query", fate |-> "ok", sel |-> "none"] ]
Curved == [
  curv     |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "CGS3"],
  curvLess |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "ARBDS3"],
  curvRho  |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "CGS2"],
  instant  |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "LLMS"],
  reheat   |-> [kind |-> "calibrate", fate |-> "ok", sel |-> "CGS3"],
  noCurv   |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  badSign  |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  farCurv  |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  overdet  |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  noMethod |-> [kind |-> "calibrate", fate |-> "refused", sel |-> "none"],
  tilt     |-> [kind |-> "tilt", fate |-> "refused", sel |-> "none"],
  pickCGS1 |-> [kind |-> "select", fate |-> "ok", sel |-> "CGS1"],
  pickLLMS |-> [kind |-> "select", fate |-> "ok", sel |-> "LLMS"],
  askSTE   |-> [kind |-> "query", fate |-> "ok", sel |-> "none"],
  askAll   |-> [kind |-> "query", fate |-> "ok", sel |-> "none"] ]
Ops(K) == IF K = 0 THEN Flat ELSE Curved

Fresh == [last |-> "none", sel |-> "none"]
\* spectra can be asked for and selected only on a calibrated solution
Enabled(K, s, o) == Ops(K)[o].kind \in {"select", "query"} => s.last # "none"
Apply(K, s, o) ==
  LET p == Ops(K)[o] IN
  IF p.fate = "refused" \/ p.kind = "query" THEN s
  ELSE IF p.kind = "select" THEN [s EXCEPT !.sel = p.sel]
  ELSE [last |-> o, sel |-> p.sel]
RECURSIVE After(_, _)
After(K, ops) == IF ops = << >> THEN Fresh ELSE Apply(K, After(K, SubSeq(ops, 1, Len(ops) - 1)), ops[Len(ops)])
Name(s) == s.last \o "/" \o s.sel
=============================================================================
