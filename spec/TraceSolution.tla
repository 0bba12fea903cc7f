--------------------------- MODULE TraceSolution ---------------------------
(* P03: solution records produced by the real registry and solver.           *)
EXTENDS Solution, TraceKit
VARIABLES w, l, ncl, done

\* the toy dynamics: y(x) = c + A (sin(om x + ph) - sin ph)
F(v, x) == v.c \oplus (v.A \otimes (Sin((v.om \otimes (Real(x) \ominus "0.5")) \oplus v.ph) \ominus Sin(Real(v.ph))))
Var(r, n) == r.dyn[n]
Series(r, n, xs, ys) == /\ Len(xs) = Len(ys)
                        /\ \A i \in DOMAIN xs : CloseAbs(ys[i], F(Var(r, n), xs[i]), "1e-6")
\* crossings of level L by variable v between a and b in direction d, on a grid of n cells
G(v, L, x) == F(v, x) \ominus L
Hit(g0, g1, d) == \/ d >= 0 /\ Le(g0, 0) /\ Le(0, g1) /\ ~EqR(g0, g1)
                  \/ d <= 0 /\ Le(0, g0) /\ Le(g1, 0) /\ ~EqR(g0, g1)
RECURSIVE Crossings(_, _, _, _, _, _, _)
Crossings(v, L, d, a, h, g0, n) ==
  IF n = 0 THEN 0
  ELSE LET b  == a \oplus h
           g1 == G(v, L, b)
       IN (IF Hit(g0, g1, d) THEN 1 ELSE 0) + Crossings(v, L, d, b, h, g1, n - 1)
NCells == 100
Count(v, L, d, a, b) == LET h == (Real(b) \ominus a) \oslash NCells
                        IN Crossings(v, L, d, Real(a), h, G(v, L, a), NCells)

SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : EqR(a[i], b[i])
AnyTerm(r) == \E i \in DOMAIN r.evs : r.evs[i].term = 1 /\ Len(r.evout[i].x) > 0
EvOK(r, i, P(_, _)) == P(r.evs[i], r.evout[i])

JudgeCase(r) ==
  LET ns == Names(r.calls) IN
  IF r.exc # "none" THEN [ solves |-> FALSE ] ELSE
  [ solves      |-> TRUE,
    index       |-> GoodIndex(ns, r.idx),
    accessors   |-> \A i \in DOMAIN ns : r.acc[ns[i]] = r.probe[r.idx[ns[i]] + 1],
    accessors2d |-> \A i \in DOMAIN ns : r.acc2[ns[i]] = r.probe[r.idx[ns[i]] + 1],
    indep_accessor |-> r.accx = "77.0",
    indep_name  |-> r.indep_attr = r.indep,
    start_vector |-> \A i \in DOMAIN ns : EqR(r.y0[r.idx[ns[i]] + 1], Var(r, ns[i]).c),
    components  |-> \A i \in DOMAIN ns : Series(r, ns[i], r.x, r.series[ns[i]]),
    x_is_indep  |-> SameSeq(r.x, r.xnamed) /\ Len(r.x) > 1,
    x_start     |-> EqR(r.x[1], r.span[1]),
    x_end       |-> EqR(r.x[Len(r.x)], r.span[2]) \/ AnyTerm(r),
    event_keys  |-> r.tables_ok = TRUE,
    event_named |-> \A i \in DOMAIN r.evs : SameSeq(r.evout[i].x, r.evout[i].xn),
    event_level |-> \A i \in DOMAIN r.evs : \A j \in DOMAIN r.evout[i].x :
                      CloseAbs(F(Var(r, r.evs[i].var), r.evout[i].x[j]), r.evs[i].value, "1e-6"),
    event_values |-> \A i \in DOMAIN r.evs : \A k \in DOMAIN ns : Series(r, ns[k], r.evout[i].x, r.evout[i].vals[ns[k]]),
    event_ystate |-> \A i \in DOMAIN r.evs : \A j \in DOMAIN r.evout[i].x : \A k \in DOMAIN ns :
                      EqR(r.evout[i].y[j][r.idx[ns[k]] + 1], r.evout[i].vals[ns[k]][j]),
    \* a terminal event ends the integration; a crossing at that very instant may or may not be listed elsewhere
    event_count |-> \A i \in DOMAIN r.evs :
                      LET n(b) == Count(Var(r, r.evs[i].var), Real(r.evs[i].value), r.evs[i].dir, r.span[1], b)
                          e == Real(r.x[Len(r.x)])
                          m == Len(r.evout[i].x)
                      IN IF AnyTerm(r) THEN n(e \ominus "1e-6") <= m /\ m <= n(e \oplus "1e-6")
                         ELSE m = n(e),
    event_terminal |-> \A i \in DOMAIN r.evs : (r.evs[i].term = 1 /\ Len(r.evout[i].x) > 0) =>
                         /\ Len(r.evout[i].x) = 1
                         /\ Le(r.x[Len(r.x)], r.evout[i].x[1]) ]

\* initial conditions that search by integrating are told what the caller asked for
JudgeSearch(r) ==
  IF r.exc # "none" THEN [ solves |-> FALSE ] ELSE
  LET g == [o \in {x \in {"method", "rtol", "atol"} : r.user[x] # "absent"} |-> r.user[o]]
  IN [ solves |-> r.got.ncalls > 1,
       method |-> r.got.method = Expected(g, "method"),
       rtol   |-> \A i \in DOMAIN r.got.rtol : EqR(r.got.rtol[i], Expected(g, "rtol")),
       atol   |-> \A i \in DOMAIN r.got.atol : EqR(r.got.atol[i], Expected(g, "atol")) ]

JudgeOptions(r) ==
  IF r.exc # "none" THEN [ solves |-> FALSE ] ELSE
  LET g == [o \in {x \in {"method", "rtol", "atol"} : r.user[x] # "absent"} |-> r.user[o]]
  IN [ solves |-> TRUE,
       method |-> r.got.method = Expected(g, "method"),
       rtol   |-> EqR(r.got.rtol, Expected(g, "rtol")),
       atol   |-> EqR(r.got.atol, Expected(g, "atol")),
       t_eval |-> r.got.t_eval = r.user.t_eval,
       t_eval_used |-> r.user.t_eval => r.got.x_is_t_eval = TRUE,
       dense  |-> r.got.dense_output = r.user.dense_output,
       vectorized |-> r.got.vectorized = r.user.vectorized,
       max_step |-> r.user.max_step # "absent" => EqR(r.got.max_step, r.user.max_step),
       first_step |-> IF r.user.first_step = "absent" THEN r.got.first_step = "none" ELSE EqR(r.got.first_step, r.user.first_step),
       once   |-> r.got.ncalls = 1 ]

(* the registries of the package's own equations *)
JudgeRegistry(r) ==
  [ names |-> {r.names[i] : i \in DOMAIN r.names} =
       (IF r.form = "T" THEN {"phi", "dphidt", "_N"} ELSE {"phi", "dphidN"})
       \cup (IF r.tt THEN {"t"} ELSE {}) \cup (IF r.te THEN {"eta"} ELSE {}),
    index |-> GoodIndex(r.names, r.idx),
    indep |-> r.indep = (IF r.form = "T" THEN "t" ELSE "_N"),
    tables |-> r.tables = TRUE ]

Judge(r) ==
  CASE r.kind = "case" -> JudgeCase(r)
    [] r.kind = "options" -> JudgeOptions(r)
    [] r.kind = "search" -> JudgeSearch(r)
    [] r.kind = "registry" -> JudgeRegistry(r)

Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
