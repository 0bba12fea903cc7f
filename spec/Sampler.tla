------------------------------ MODULE Sampler -------------------------------
(* Spectra handed to a sampler: a power law with runnings about the pivot,   *)
(* possibly modulated, and tensors related to it by r, by their own          *)
(* parameters or by inflation.  A request p = [cls, A_s, n_s, n_run,         *)
(* n_runrun, A_t, n_t, n_t_run, r, A, w, ph, kc, sc] holds "none" for        *)
(* whatever is left out.                                                     *)
EXTENDS Units, Integers, Sequences, FiniteSets, TLC
Given(x) == x # "none"
Or(x, d) == IF x = "none" THEN Real(d) ELSE Real(x)
Pivot == "0.05"
Classes == {"power", "log", "lin", "cut"}

(* The parts of a request that concern the ratio of tensors to scalars *)
AtPos(p)  == Given(p.A_t) /\ Lt(0, p.A_t)
RPos(p)   == Given(p.r) /\ ~EqR(p.r, 0)
Clash(p)  == AtPos(p) /\ Given(p.r) /\ ~CloseRel(p.r, Real(p.A_t) \oslash p.A_s, "1e-4")
Slip(p)   == AtPos(p) /\ Given(p.r) /\ ~EqR(p.r, Real(p.A_t) \oslash p.A_s)
Running(p) == Given(p.n_t_run) /\ ~EqR(p.n_t_run, 0)
(* What must happen to a request: "served", "refused", or either *)
Outcome(p) ==
  IF Clash(p) \/ (~Given(p.n_t) /\ Running(p)) THEN "refused"
  ELSE IF Slip(p) \/ (Given(p.A_t) /\ ~AtPos(p) /\ RPos(p)) THEN "either"
  ELSE IF p.cls \in {"log", "lin"} /\ Given(p.A) /\ ~EqR(p.A, 0) /\ ~Given(p.w) THEN "either"
  ELSE "served"

R0(p)  == IF Given(p.r) THEN Real(p.r) ELSE Or(p.A_t, 0) \oslash p.A_s
At(p)  == IF AtPos(p) THEN Real(p.A_t) ELSE R0(p) \otimes p.A_s
Ns(p)  == Or(p.n_s, 1)
\* single-field inflation to second order in slow roll
Nt(p)  == IF Given(p.n_t) THEN Real(p.n_t)
          ELSE LET q == R0(p) \oslash 8 IN NegR(q) \otimes ((2 \ominus Ns(p)) \ominus q)
NtRun(p) == IF Given(p.n_t) THEN Or(p.n_t_run, 0)
            ELSE LET q == R0(p) \oslash 8 IN q \otimes ((q \oplus Ns(p)) \ominus 1)

L(k) == Ln(Real(k) \oslash Pivot)
Mod(p, k) ==
  CASE p.cls = "power" -> Real(1)
    [] p.cls = "log" -> 1 \oplus (Or(p.A, 0) \otimes Cos((Or(p.w, 0) \otimes L(k)) \oplus (2 \otimes Pi \otimes Or(p.ph, 0))))
    [] p.cls = "lin" -> 1 \oplus (Or(p.A, 0) \otimes Cos((Or(p.w, 0) \otimes (Real(k) \oslash Pivot)) \oplus (2 \otimes Pi \otimes Or(p.ph, 0))))
    [] p.cls = "cut" -> 1 \ominus Exp(NegR(Pow(Real(k) \oslash Or(p.kc, "1e-3"), Or(p.sc, 2))))
Scalar0(p, k) == LET l == L(k) IN
  Real(p.A_s) \otimes Exp((((Ns(p) \ominus 1) \oplus ((Or(p.n_run, 0) \otimes l) \oslash 2)) \oplus ((Or(p.n_runrun, 0) \otimes l \otimes l) \oslash 6)) \otimes l)
Tensor0(p, k) == LET l == L(k) IN At(p) \otimes Exp((Nt(p) \oplus ((NtRun(p) \otimes l) \oslash 2)) \otimes l)
ScalarP(p, k) == Scalar0(p, k) \otimes Mod(p, k)
TensorP(p, k) == Tensor0(p, k) \otimes Mod(p, k)

\* entry i of n of a table whose wavenumbers are logarithmically regular
GridK(kmin, kmax, n, i) == Real(kmin) \otimes Exp(((Real(i) \ominus 1) \oslash (n - 1)) \otimes Ln(Real(kmax) \oslash kmin))
=============================================================================
