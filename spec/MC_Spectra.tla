----------------------------- MODULE MC_Spectra -----------------------------
(* The series of Spectra.tla are expansions of one and the same spectrum:    *)
(* power-law inflation is solved exactly, the methods agree at k = aH up to  *)
(* their truncation, and expansions about a pivot do not depend on where the *)
(* pivot is.  Checked for every direction <<e1,e2,e3,e4>> of a grid, scaled  *)
(* by two factors so that the order of the remainder shows.                  *)
EXTENDS Spectra, TLC
VARIABLES p, done
Grid == {-2, -1, 0, 1, 2}
Points == {x \in (1..2) \X Grid \X Grid \X Grid : TRUE}
\* the parameters of one background (e5 = 0) at scale s
At(x, s) ==
  LET e1 == Real(x[1]) \otimes s  e2 == Real(x[2]) \otimes s  e3 == Real(x[3]) \otimes s  e4 == Real(x[4]) \otimes s
      \* d/dN of the flow: De_i = e_i e_{i+1}
      d1 == (e2 \oslash 2) \ominus e1
      Dd1 == ((e2 \otimes e3) \oslash 2) \ominus (e1 \otimes e2)
      DDd1 == Sum(<<(e2 \otimes e3 \otimes (e3 \oplus e4)) \oslash 2, NegR(e1 \otimes e2 \otimes (e2 \oplus e3))>>)
      d2 == Sum(<<Dd1, d1 \otimes d1, NegR(e1 \otimes d1)>>)
      Dd2 == Sum(<<DDd1, 2 \otimes d1 \otimes Dd1, NegR(e1 \otimes e2 \otimes d1), NegR(e1 \otimes Dd1)>>)
      d3 == Sum(<<Dd2, (-2) \otimes e1 \otimes d2, d1 \otimes d2>>)
      g2 == e1 \otimes e2
      g3 == (g2 \otimes (e2 \oplus e3)) \ominus (e1 \otimes g2)
  IN [e1 |-> e1, e2 |-> e2, e3 |-> e3, e4 |-> e4, g2 |-> g2, g3 |-> g3, d1 |-> d1, d2 |-> d2, d3 |-> d3]
\* the background n e-folds on, from the flow's Taylor series
Shift(f, n) ==
  LET nn == Real(n)
      D1 == f.e2  D2 == f.e2 \otimes f.e3
      k1 == Sum(<<nn \otimes f.e2, "0.5" \otimes nn \otimes nn \otimes f.e2 \otimes (f.e2 \oplus f.e3)>>)
      k2 == Sum(<<nn \otimes f.e3, "0.5" \otimes nn \otimes nn \otimes f.e3 \otimes (f.e3 \oplus f.e4)>>)
      k3 == nn \otimes f.e4
      e1 == f.e1 \otimes (1 \oplus k1)  e2 == f.e2 \otimes (1 \oplus k2)  e3 == f.e3 \otimes (1 \oplus k3)
      \* ln H
      lnH == NegR(Sum(<<f.e1 \otimes nn, "0.5" \otimes nn \otimes nn \otimes f.e1 \otimes f.e2,
                       (nn \otimes nn \otimes nn \otimes f.e1 \otimes f.e2 \otimes (f.e2 \oplus f.e3)) \oslash 6>>))
  IN [e1 |-> e1, e2 |-> e2, e3 |-> e3, e4 |-> f.e4, lnH |-> lnH]
lnP0s(f) == (2 \otimes f.lnH) \ominus Ln(f.e1)
lnP0t(f) == 2 \otimes f.lnH
\* remainder at scale s and s/2 must fall by about 2^(order+1)
Falls(R(_), n) == LET a == AbsR(R(Real("2e-3")))  b == AbsR(R(Real("1e-3")))
                  IN Le(a, "4e4" \otimes Pow(Real("2e-3"), n + 1)) /\ Le(b, Sum(<<(Real("1.5") \otimes a) \oslash Pow(2, n + 1), "2e-14">>))

LocalOrder1s(x) == LET R(s) == CGSs(At(x, s), 1) \ominus STEs(At(x, s)) IN Falls(R, 1)
LocalOrder2s(x) == LET R(s) == CGSs(At(x, s), 2) \ominus STEs(At(x, s)) IN Falls(R, 2)
LocalOrder2t(x) == LET R(s) == CGSt(At(x, s), 2) \ominus STEt(At(x, s)) IN Falls(R, 2)
Exponent2s(x) == LET R(s) == Exp(LLMSs(At(x, s))[1]) \ominus STEs(At(x, s)) IN Falls(R, 2)
Exponent2t(x) == LET R(s) == Exp(LLMSt(At(x, s))[1]) \ominus STEt(At(x, s)) IN Falls(R, 2)
\* k = aH at f; -k eta = 1 comes ln(-k eta)-worth later
Moved(f) == LET n == Sum(<<Later(f.e1, f.e2), (11 \otimes f.e1 \otimes f.e1 \otimes f.e1) \oslash 6>>) IN Shift(f, n)
PivotOrder(x, n) == LET R(s) == LET f == At(x, s)  m == Moved(f) IN
      Sum(<<NegR(Ln(f.e1)), Ln(CGSs(f, n)), NegR(lnP0s(m)), NegR(Ln(ARs(m, n, m.e4)[1]))>>) IN Falls(R, n)
PivotOrderT(x, n) == LET R(s) == LET f == At(x, s)  m == Moved(f) IN
      Sum(<<Ln(CGSt(f, n)), NegR(lnP0t(m)), NegR(Ln(ARt(m, n)[1]))>>) IN Falls(R, n)
\* moving the pivot: dN changes L by dlnk/dN; central difference of P at fixed k, to third order
LnEta(f) == \* ln(1/|eta|) - N - lnH to third order: -ln(1+q)
  NegR(Sum(<<f.e1, "0.5" \otimes f.e1 \otimes f.e1, f.e1 \otimes f.e2>>))
dlnk(f) == Sum(<<1, NegR(f.e1), NegR(f.e1 \otimes f.e2)>>)
PivotFree(x, n, L) ==
  LET h == Real("1e-2")
      R(s) == LET f == At(x, s)  u == Shift(f, h)  d == Shift(f, NegR(h))
                  P(g, LL) == lnP0s(g) \oplus Ln(Poly(ARs(g, n, g.e4), LL))
              IN (P(u, L \ominus (h \otimes dlnk(f))) \ominus P(d, L \oplus (h \otimes dlnk(f)))) \oslash (2 \otimes h)
  IN Falls(R, n)
PivotFreeT(x, n, L) ==
  LET h == Real("1e-2")
      R(s) == LET f == At(x, s)  u == Shift(f, h)  d == Shift(f, NegR(h))
                  P(g, LL) == lnP0t(g) \oplus Ln(Poly(ARt(g, n), LL))
              IN (P(u, L \ominus (h \otimes dlnk(f))) \ominus P(d, L \oplus (h \otimes dlnk(f)))) \oslash (2 \otimes h)
  IN Falls(R, n)

\* power law: e2 = e3 = 0.  Taylor coefficients of the exact Gamma-function solution at k = aH
PowerLaw == LET c == <<Real("-0.540725690922956340047488423081"), Real("-0.459731353966222776392265909988"),
                       Real("-0.312765054586764957687038237692")>>
                E(e) == Sum(<<1, c[1] \otimes e, c[2] \otimes e \otimes e, c[3] \otimes e \otimes e \otimes e>>)
            IN \A i \in 1..5 :
                 LET s == Real(i) \otimes "1e-3" IN
                 /\ CloseAbs(CGSs(At(<<1, 0, 0, 0>>, s), 3), E(s), "40" \otimes Pow(s, 4))
                 /\ CloseAbs(CGSt(At(<<1, 0, 0, 0>>, s), 3), E(s), "40" \otimes Pow(s, 4))

Init == p \in Points /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED p
SameAtCrossing == done => LocalOrder1s(p) /\ LocalOrder2s(p) /\ LocalOrder2t(p)
SameExponent == done => Exponent2s(p) /\ Exponent2t(p)
SameAtPivot == done => \A n \in 1..3 : PivotOrder(p, n) /\ PivotOrderT(p, n)
PivotIndependent == done => \A n \in 1..3 : PivotFree(p, n, Real("0.7")) /\ PivotFreeT(p, n, Real("0.7"))
ASSUME PowerLaw
=============================================================================
