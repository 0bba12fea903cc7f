------------------------------ MODULE SlowRoll ------------------------------
(* The slow-roll attractor dN/dphi = V/V' with N = 0 where epsilon_1V = 1,    *)
(* its observables, and what a potential's constructor has to make of its     *)
(* arguments.                                                                 *)
EXTENDS Potentials

Base(pot) == [pot EXCEPT !.feature = "none"]
\* remaining e-folds per field, and its derivative
Slope(pot, phi) == LET j == VJet(pot, JVar(phi)) IN j[1] \oslash j[2]
Bend(pot, phi)  == LET j == VJet(pot, JVar(phi))
                       u == JDiv(j, JD(j)) IN u[2]

\* Gauss-Legendre, five points in each of m panels
GX == <<"-0.90617984593866399280", "-0.53846931010568309104", "0", "0.53846931010568309104", "0.90617984593866399280">>
GW == <<"0.23692688505618908751", "0.47862867049936646804", "0.56888888888888888889", "0.47862867049936646804", "0.23692688505618908751">>
RECURSIVE GSum(_, _, _, _)
GSum(f(_), c, r, i) == IF i = 0 THEN Real(0) ELSE GSum(f, c, r, i - 1) \oplus (GW[i] \otimes f(Real(c) \oplus (r \otimes GX[i])))
RECURSIVE Panels(_, _, _, _)
Panels(f(_), a, h, m) == IF m = 0 THEN Real(0)
                         ELSE Panels(f, a, h, m - 1) \oplus (GSum(f, Real(a) \oplus ((m \ominus "0.5") \otimes h), Real(h) \oslash 2, 5) \otimes (Real(h) \oslash 2))
Integral(f(_), a, b, m) == Panels(f, a, (Real(b) \ominus a) \oslash m, m)
Efolds(pot, a, b) == Integral(LAMBDA x : Slope(pot, x), a, b, 40)

\* observables at leading order
Tilt(pot, phi)  == LET e == EpsV(pot, phi) IN (1 \ominus (2 \otimes e[1])) \ominus e[2]
Ratio(pot, phi) == 16 \otimes Eps1V(pot, phi)
Amplitude(pot, phi) == VJet(pot, JVar(phi))[1] \oslash (24 \otimes Pi \otimes Pi \otimes Eps1V(pot, phi))

-----------------------------------------------------------------------------
\* constructors: which parameters shape the class needs
Needs == [MonomialPotential |-> {"p"}, LinearPotential |-> {}, QuadraticPotential |-> {}, CubicPotential |-> {}, QuarticPotential |-> {},
          StarobinskyPotential |-> {}, NaturalPotential |-> {"phi0"}, DoubleWellPotential |-> {"phi0", "p"},
          DoubleWell2Potential |-> {"phi0"}, DoubleWell4Potential |-> {"phi0"}, TmodelPotential |-> {"p", "alpha"},
          RadionGaugePotential |-> {"p", "alpha"}, RadionGauge2Potential |-> {"alpha"},
          StarobinskyGaussianDipPotential |-> {"phi_feature", "a_feature", "b_feature"},
          StarobinskyTanhStepPotential |-> {"phi_feature", "a_feature", "b_feature"}]
Common == {"Lambda", "A_s", "N_star", "phi_star"}
\* what a request with exactly the arguments g has to lead to
Outcome(cls, g) ==
  IF ~(Needs[cls] \subseteq g) THEN "refused"                                    \* insufficient
  ELSE IF ~(g \subseteq Needs[cls] \cup Common) THEN "refused"                   \* unknown
  ELSE IF "A_s" \in g THEN IF {"N_star", "phi_star"} \subseteq g THEN "refused"  \* contradictory
                           ELSE IF {"N_star", "phi_star"} \cap g = {} THEN "refused, documented"
                           ELSE IF "Lambda" \in g THEN "from amplitude, with warning" ELSE "from amplitude"
  ELSE IF {"N_star", "phi_star"} \cap g # {} THEN "refused"                      \* meaningless
  ELSE "built"
=============================================================================
