------------------------------ MODULE Pipeline ------------------------------
(* A spectrum request: a list of wavenumbers, a list of vacua, and how far    *)
(* inside and outside the horizon each mode is to be followed.                *)
EXTENDS Modes, Sequences, FiniteSets

-----------------------------------------------------------------------------
(* Epochs, as samples 1..n of a background with e-folds Ns and ln(aH) ls.      *)
\* last sample at which the mode is inside the horizon by more than a factor fb
Start(ls, lk, fb) ==
  LET I == IF EqR(fb, 0) THEN {} ELSE {i \in DOMAIN ls : Lt(Ln(fb), Real(lk) \ominus ls[i])}
  IN IF I = {} THEN 1 ELSE CHOOSE i \in I : \A j \in I : j <= i
\* first sample outside by more than a factor fe, but ten e-folds of evolution at least; 0: never
First(I) == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Outside(ls, lk, fe) == First({i \in DOMAIN ls : Lt(Ln(fe), Real(ls[i]) \ominus lk)})
Stop(Ns, ls, lk, fb, fe) ==
  LET b == Start(ls, lk, fb)  e == Outside(ls, lk, fe)
  IN IF e = 0 THEN 0
     ELSE IF Lt(Real(Ns[e]) \ominus Ns[b], 10) THEN First({i \in DOMAIN Ns : Lt(10, Real(Ns[i]) \ominus Ns[b])}) ELSE e

Dropped(K, k, drop) == drop /\ K = 1 /\ Lt(k, 1)

=============================================================================
