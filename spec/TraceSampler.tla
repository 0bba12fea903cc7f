---------------------------- MODULE TraceSampler ----------------------------
(* P20: what the power-law and feature theories deliver to the sampler.       *)
EXTENDS Sampler, TraceKit
VARIABLES w, l, ncl, done
\* conditioning of the modulation
Slack(p, k) ==
  CASE p.cls = "lin" -> Or(p.A, 0) \otimes Or(p.w, 0) \otimes (Real(k) \oslash Pivot)
    [] p.cls = "log" -> Or(p.A, 0) \otimes Or(p.w, 0) \otimes AbsR(L(k))
    [] OTHER -> Real(0)
Agree(a, b, size) == CloseAbs(a, b, "1e-9" \otimes AbsR(size))
Table(p, t, F(_, _), G(_, _)) == \A q \in DOMAIN t.at :
  LET k == GridK(t.kmin, t.kmax, t.n, t.at[q]) IN Agree(t.pk[q], F(p, k), (1 \oplus ("1e-4" \otimes AbsR(Slack(p, k)))) \otimes G(p, k))
Shape(t) == t.log_regular = "true" /\ t.n > 100 /\ Lt(0, t.kmin) /\ Le(t.kmin, "1e-6") /\ Le(10, t.kmax)
Delivered(r) ==
  [ scalar |-> r.scalar.n > 0 => Table(r.p, r.scalar, ScalarP, Scalar0),
    tensor |-> r.tensor.n > 0 => Table(r.p, r.tensor, TensorP, Tensor0),
    tables |-> Shape(r.scalar) /\ Shape(r.tensor) ]
Judge(r) ==
  CASE r.kind = "spectrum" ->
         LET must == Outcome(r.p) IN
         [ outcome |-> must \in {"either", r.outcome} ] @@ (IF r.outcome = "served" THEN Delivered(r) ELSE << >>)
    [] r.kind = "supports" -> [ supports |-> r.wanted = "supported" ]
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
