----------------------------- MODULE TraceEvents -----------------------------
(* P04: recorded event root functions and event tables.                      *)
EXTENDS Events, TraceKit
VARIABLES w, l, ncl, done

JudgeRoot(r) ==
  LET s == State(r.form, r.K, r.pot, r.N, r.phi, r.dphi)
      d == Quantity(r.ev, s, r.t) \ominus Threshold(r.ev, r.value)
      sure == Lt("1e-7" \otimes Size(r.ev, s, r.t), AbsR(d))
  IN [ defined |-> IsFin(r.root),
       \* sign of the root function: the sign that makes "direction" mean what it says
       sign |-> (sure /\ ~r.at) => EqR(Sgn(r.root), Sgn(d)),
       \* vanishes at the crossing (relative to its value one unit of the quantity away)
       zero |-> r.at => Le(AbsR(r.root), "1e-6" \otimes AbsR(r.far)),
       far  |-> r.at => ~EqR(r.far, 0) ]

JudgeMeta(r) ==
  [ direction |-> r.direction = r.dir,
    terminal  |-> r.terminal = r.term,
    constructs |-> r.exc = "none" ]

\* trackers that differ in kind, direction or terminal flag (or in the scale watched) have different names
Key(c) == <<c.ev, c.dir, c.term, c.value>>
JudgeNames(r) ==
  LET c == r.cfgs IN
  [ unique |-> \A i, j \in DOMAIN c : (c[i].name = c[j].name) => (Key(c[i]) = Key(c[j])) ]

JudgeDetect(r) ==
  [ runs |-> r.exc = "none",
    fires_exactly_there |-> r.exc = "none" =>
        /\ Len(r.times) = Len(r.fired)
        /\ \A i \in DOMAIN r.fired : /\ Lt(r.fired[i] - 1, r.times[i]) /\ Lt(r.times[i], r.fired[i]),
    stops |-> (r.exc = "none" /\ r.term /\ r.fired # <<>>) => Lt(r.last, r.fired[1]) ]

\* a real integration: samples smp (with t), event ev with its crossings cr
JudgeSolve(r) ==
  LET St(p) == State(r.form, r.K, r.pot, p.N, p.phi, p.dphi)
      D(p)  == Quantity(r.ev, St(p), p.t) \ominus Threshold(r.ev, r.value)
      Sz(p) == Size(r.ev, St(p), p.t)
      n  == Len(r.smp)
      ds == [i \in 1..n |-> D(r.smp[i])]
      sz == [i \in 1..n |-> Sz(r.smp[i])]
      sure(i) == Lt("1e-6" \otimes sz[i], AbsR(ds[i]))
      sg(i) == IF Lt(0, ds[i]) THEN 1 ELSE -1
      up(i) == sg(i) < 0 /\ sg(i + 1) > 0
      dn(i) == sg(i) > 0 /\ sg(i + 1) < 0
      want(i) == (r.dir >= 0 /\ up(i)) \/ (r.dir <= 0 /\ dn(i))
      inside(x, i) == Le(r.smp[i].x, x) /\ Le(x, r.smp[i + 1].x)
      nc == Len(r.cr)
  IN [ at_the_crossing |-> \A k \in 1..nc : Le(AbsR(D(r.cr[k])), r.tol \otimes (Sz(r.cr[k]) \oplus r.slope[k])),
       complete |-> \A i \in 1..(n - 1) : (sure(i) /\ sure(i + 1) /\ want(i)) => \E k \in 1..nc : inside(r.cr[k].x, i),
       directed |-> \A k \in 1..nc : \A i \in 1..(n - 1) :
                      (inside(r.cr[k].x, i) /\ sure(i) /\ sure(i + 1) /\ Cardinality({m \in 1..nc : inside(r.cr[m].x, i)}) = 1) => want(i),
       ends_there |-> (r.term /\ nc > 0) => nc = 1 /\ CloseRel(r.cr[1].x, r.smp[n].x, "1e-12"),
       not_at_start |-> (r.ti /\ nc > 0) => Lt(r.smp[1].x, r.cr[1].x) /\ ~CloseRel(r.cr[1].x, r.smp[1].x, "1e-9") ]

Judge(r) == CASE r.kind = "root" -> JudgeRoot(r)
              [] r.kind = "meta" -> JudgeMeta(r)
              [] r.kind = "names" -> JudgeNames(r)
              [] r.kind = "detect" -> JudgeDetect(r)
              [] r.kind = "solve" -> JudgeSolve(r)
Run == INSTANCE TraceRun
Init == Run!Init
Next == Run!Next
=============================================================================
