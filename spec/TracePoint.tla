----------------------------- MODULE TracePoint -----------------------------
(* P21: recorded points of the slow-roll theory.  TLC follows each point's     *)
(* inflation step by step and judges at its end.                               *)
EXTENDS SamplerPoint, TraceKit
VARIABLES i, N, x, tab, n, end, at
vars == <<i, N, x, tab, n, end, at>>
r == Trace[i]          \* the first point of the model being followed
point == Trace[at]
S(v) == [j \in DOMAIN v |-> Str(v[j])]
Need == 98
Init == /\ i \in {j \in DOMAIN Trace : j = 1 \/ Trace[j - 1].model # Trace[j].model}
        /\ at = i /\ end = <<>> /\ n = 0 /\ N = "0"
        /\ x = S(Attractor(r.pot, PhiStart(r.pot, r.top, Need)))
        /\ tab = << <<"0", x[1], x[2]>> >>
E0 == Eps(r.pot, N, x)
H0 == IF Lt(E0, "0.3") THEN Real("0.05") ELSE "0.01"
Y == TLCEval(Move(r.pot, N, x, H0))
M == Real(N) \oplus H0
Ended == ~Lt(Eps(r.pot, M, Y), 1)
Step == /\ end = <<>> /\ ~Ended
        /\ N' = Str(M) /\ x' = S(Y) /\ n' = n + 1
        /\ tab' = IF (n + 1) % 10 = 0 THEN Append(tab, <<Str(M), Str(Y[1]), Str(Y[2])>>) ELSE tab
        /\ UNCHANGED <<i, end, at>>
\* the instant of unit slow-roll parameter
Exact == LET h1 == H0 \otimes ((1 \ominus E0) \oslash (Eps(r.pot, M, Y) \ominus E0))
             z == TLCEval(Move(r.pot, N, x, h1))
             e == Eps(r.pot, Real(N) \oplus h1, z)
             h2 == h1 \oplus ((1 \ominus e) \otimes (h1 \oslash (e \ominus E0)))
             y == TLCEval(Move(r.pot, N, x, h2))
             s == Flat(r.pot, Real(N) \oplus h2, y)
         IN S(<<Real(N) \oplus h2, HSq(s), V0(s), y[1]>>)
Stop == /\ end = <<>> /\ Ended
        /\ end' = Exact
        /\ UNCHANGED <<i, N, x, tab, n, at>>
T0 == [ pot |-> r.pot, tab |-> tab, Ne |-> Real(end[1]), He2 |-> Real(end[2]), Ve |-> Real(end[3]), phie |-> Real(end[4]) ]

Row(T, o, sc, t, which, k, v) ==
  LET c == TLCEval(Cross(T, o.lnk \ominus Ln(T.He2), o.lnk \oplus Ln(Real(k) \oslash KSTAR), 6))
      b == Local(T, c)
  IN CloseRel(v, sc \otimes Exp(IF which = "s" THEN b.s ELSE b.t), t)
GridK(kmin, kmax, m, j) == Real(kmin) \otimes Exp(((Real(j) \ominus 1) \oslash (m - 1)) \otimes Ln(Real(kmax) \oslash kmin))
Table(T, o, sc, q, which) == \A j \in DOMAIN q.at :
  Row(T, o, sc, "2e-3", which, GridK(q.kmin, q.kmax, q.n, q.at[j]), q.pk[j])
Near(a, b, tol) == CloseAbs(a, b, tol)
Served(T) ==
  LET d == point.d  q == point.q
      o == TLCEval(Obs(T, Real(T.Ne) \ominus d.N_star))
      U == TLCEval(Universe(T, q.A_s, Real(d.N_star), o))
      h == Reheat(U, q.rho)
      sc == U.sc
      dm1 == NegR(U.Nend \oplus CG!SinceEnd(U.V, GTH, 0))
  IN [ amplitude |-> CloseRel(d.A_s, q.A_s, "1.5e-5"),
       pivot |-> CASE Path(q) = "efolds" -> CloseAbs(d.N_star, Most(q), "1e-9")
                   [] Path(q) = "tilt" -> CloseAbs(d.n_s, q.ns, "1e-6") /\ Le(d.N_star, Most(q))
                   [] OTHER -> Near(Mismatch(T, q, d.N_star), 0, "2e-3"),
       scalar_tilt |-> Near(d.n_s, o.ns, "5e-5"),
       runnings |-> Near(d.n_run, o.nrun, "2e-5") /\ Near(d.n_runrun, 0, "1e-2"),
       tensor |-> CloseRel(Real(d.A_t), Exp(o.t) \otimes sc, "5e-4") /\ Near(d.n_t, o.nt, "2e-5"),
       ratio |-> CloseRel(d.r, Real(d.A_t) \oslash d.A_s, "1e-9"),
       end |-> /\ CloseRel(d.V_end, U.V, "1e-3") /\ CloseRel(d.H_end, U.Hend, "1e-3")
               /\ CloseAbs(d.phi_end, T.phie, "1e-3"),
       history |-> Near(d.N_end, U.Nend, "2e-3"),
       reheating |-> IF ~Given(q.rho) THEN IsNaN(d.rho_reh_GeV) /\ IsNaN(d.w_reh) /\ IsNaN(d.DeltaN_reh)
                     ELSE /\ CloseRel(d.rho_reh_GeV, q.rho, "1e-9")
                          /\ Near(d.N_reh, h.Nreh, "1e-6")
                          /\ Near(d.DeltaN_reh, h.dN, "2e-3")
                          /\ Near(Real(d.DeltaN_reh) \otimes (1 \oplus Real(d.w_reh)), h.dN \otimes (1 \oplus h.w), "2e-3")
                          /\ (Given(q.w) => CloseAbs(d.w_reh, q.w, "1e-12")),
       radiation |-> Near(d.DeltaN_minus1, dm1, "2e-3"),
       spectrum |-> Table(T, o, sc, point.scalar, "s") /\ Table(T, o, sc, point.tensor, "t") ]
Judge(T) == [ outcome |-> Verdict(T, point.q) \in {"either", point.outcome} ]
            @@ (IF point.outcome = "served" THEN Served(T) ELSE << >>)
Check == /\ end # <<>> /\ at \in DOMAIN Trace /\ point.model = r.model
         /\ LET c == Judge(T0) IN Report(at, Failing(c)) /\ PrintT("DONE 1 " \o ToString(Cardinality(DOMAIN c)))
         /\ at' = at + 1 /\ UNCHANGED <<i, N, x, tab, n, end>>
Next == Step \/ Stop \/ Check
=============================================================================
