----------------------------- MODULE MC_Sampler -----------------------------
(* Every combination of given and left-out parameters of every spectrum.      *)
EXTENDS Sampler, Json
VARIABLES cls, ns, run, rr, at, r, nt, ntr, fa, fw, fp, said
vars == <<cls, ns, run, rr, at, r, nt, ntr, fa, fw, fp, said>>
Init == /\ cls \in Classes
        /\ ns \in BOOLEAN /\ run \in BOOLEAN /\ rr \in BOOLEAN
        /\ at \in {"none", "zero", "given"} /\ r \in {"none", "zero", "match", "clash"}
        /\ nt \in BOOLEAN /\ ntr \in {"none", "zero", "given"}
        /\ fa \in BOOLEAN /\ fw \in BOOLEAN /\ fp \in BOOLEAN
        /\ (cls = "power" => ~fa /\ ~fw /\ ~fp) /\ (cls = "cut" => ~fp)
        /\ said = "nothing"
As == "2.1e-9"
Opt(b, v) == IF b THEN v ELSE "none"
P == [ cls |-> cls, A_s |-> As, n_s |-> Opt(ns, "0.965"), n_run |-> Opt(run, "-0.01"), n_runrun |-> Opt(rr, "0.02"),
       A_t |-> CASE at = "none" -> "none" [] at = "zero" -> "0" [] at = "given" -> Str("0.05" \otimes As),
       r |-> CASE r = "none" -> "none" [] r = "zero" -> "0"
               [] r = "match" -> Str(("0.05" \otimes As) \oslash As) [] r = "clash" -> "0.07",
       n_t |-> Opt(nt, "-0.02"), n_t_run |-> CASE ntr = "none" -> "none" [] ntr = "zero" -> "0" [] ntr = "given" -> "0.003",
       A |-> Opt(fa /\ cls # "cut", "0.1"), w |-> Opt(fw /\ cls # "cut", "7"), ph |-> Opt(fp, "0.3"),
       kc |-> Opt(fa /\ cls = "cut", "2e-3"), sc |-> Opt(fw /\ cls = "cut", "1.5") ]
Ask == /\ said = "nothing"
       /\ said' = Outcome(P)
       /\ PrintT("CASE " \o ToJson([cls |-> cls, ns |-> ns, run |-> run, rr |-> rr, at |-> at, r |-> r, nt |-> nt, ntr |-> ntr,
                                    fa |-> fa, fw |-> fw, fp |-> fp, must |-> Outcome(P)]))
       /\ UNCHANGED <<cls, ns, run, rr, at, r, nt, ntr, fa, fw, fp>>
Spec == Init /\ [][Ask]_vars
Ks == {"5e-7", "1e-4", "0.05", "3", "50"}
Near(a, b) == CloseAbs(a, b, "1e-12" \otimes (AbsR(a) \oplus AbsR(b)))
\* what is left out is what has its neutral value
Fill(p) == [p EXCEPT !.n_s = Str(Or(@, 1)), !.n_run = Str(Or(@, 0)), !.n_runrun = Str(Or(@, 0)), !.A = Str(Or(@, 0)), !.ph = Str(Or(@, 0))]
Neutral == said = "served" =>
  \A k \in Ks : Near(ScalarP(P, k), ScalarP(Fill(P), k)) /\ Near(TensorP(P, k), TensorP(Fill(P), k))
\* at the pivot an unmodulated spectrum has the stated amplitudes
AtPivot == said = "served" => /\ Near(Scalar0(P, Pivot), As)
                              /\ (at = "given" => Near(Tensor0(P, Pivot), P.A_t))
                              /\ (at = "none" /\ r = "match" => Near(Tensor0(P, Pivot), Real(P.r) \otimes As))
                              /\ (at # "given" /\ r \in {"none", "zero"} => EqR(Tensor0(P, Pivot), 0))
\* the tilt left to inflation is that of a model with e1 = r/16 to leading order
Inflation == said = "served" /\ ~nt => CloseAbs(Nt(P), NegR(R0(P) \oslash 8), "0.1" \otimes (R0(P) \oslash 8))
\* a refusal is about tensors only, and never when they are stated in one way
Single == said = "refused" => Given(P.n_t_run) \/ (Given(P.r) /\ Given(P.A_t))
=============================================================================
