------------------------------ MODULE Spectra ------------------------------
(* Slow-roll series for the primordial spectra of a single field, in terms of *)
(* the Hubble-flow parameters e1, e2, e3, Gong's g2, g3 and the field          *)
(* accelerations d1, d2, d3 of one moment.                                     *)
(*                                                                             *)
(* Local series hold at k = aH (CGS, STE); LLMS expands in ln(k/k0) about      *)
(* k0 = aH and exponentiates; ARBDS expands in ln(k/k0) about -k0 eta = 1.     *)
(* MC_Spectra checks that they are expansions of one function.                 *)
EXTENDS F64, Integers, Sequences
LOCAL Pi == Acos(-1)
P2    == Pi \otimes Pi
Euler == Real("0.57721566490153286061")
Z3    == Real("1.2020569031595942854")
Alpha == (2 \ominus Ln(2)) \ominus Euler
CC    == NegR(Alpha)
LOCAL a ** b == Real(a) \otimes b
LOCAL Sq(x) == Real(x) \otimes x
LOCAL Cu(x) == Real(x) \otimes x \otimes x
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN Real(0) ELSE Head(s) \oplus Sum(Tail(s))
Frac(n, d) == Real(n) \oslash d

\* amplitudes at lowest order
Ps0(H, e1) == Sq(H) \oslash (8 \otimes P2 \otimes e1)
Pt0(H) == (2 \otimes Sq(H)) \oslash P2

\* ln(-k eta) at k = aH, to second order
LnX(f) == Sum(<<f.e1, "0.5" \otimes Sq(f.e1), 2 \otimes f.e1 \otimes (Real(f.e1) \oplus f.d1)>>)
\* e-folds from k = aH to -k eta = 1, to second order
Later(e1, e2) == Sum(<<e1, "1.5" \otimes Sq(e1), Real(e1) \otimes e2>>)

-----------------------------------------------------------------------------
(* Choe, Gong & Stewart (2004); Gong (2004): correction factor by order       *)
CGSs(f, n) ==
  LET a == Alpha \ominus LnX(f)
      a2 == Sq(a)   a3 == Cu(a)
      e == f.e1  x == f.d1  y == f.d2  z == f.d3
      o1 == Sum(<<1, ((4 \otimes a) \ominus 2) \otimes e, 2 \otimes a \otimes x, ((P2 \oslash 12) \ominus a2) \otimes y,
                  Sum(<<a3 \oslash 3, NegR((P2 \otimes a) \oslash 12), Frac(4, 3), NegR((2 \otimes Z3) \oslash 3)>>) \otimes z>>)
      o2 == Sum(<<
        Sum(<<4 \otimes a2, -19, (7 \otimes P2) \oslash 3>>) \otimes Sq(e),
        Sum(<<3 \otimes a2, 2 \otimes a, -20, (29 \otimes P2) \oslash 12>>) \otimes e \otimes x,
        Sum(<<3 \otimes a2, -4, (5 \otimes P2) \oslash 12>>) \otimes Sq(x),
        Sum(<<((-5) \otimes a3) \oslash 3, (-2) \otimes a2, 20 \otimes a, ((-9) \otimes P2 \otimes a) \oslash 4, Frac(16, 3), P2 \oslash 6,
              ((-14) \otimes Z3) \oslash 3>>) \otimes e \otimes y,
        Sum(<<(-3) \otimes a3, 8 \otimes a, ((-7) \otimes P2 \otimes a) \oslash 12, -4, 2 \otimes Z3>>) \otimes x \otimes y>>)
      o3 == Sum(<<
        Sum(<<4 \otimes a2, 8 \otimes a, 16, 5 \otimes P2, (-48) \otimes Z3>>) \otimes Cu(e),
        Sum(<<((-5) \otimes a3) \oslash 3, 4 \otimes a2, 32 \otimes a, ((-9) \otimes P2 \otimes a) \oslash 4, Frac(88, 3), (23 \otimes P2) \oslash 3,
              ((-230) \otimes Z3) \oslash 3>>) \otimes Sq(e) \otimes x,
        Sum(<<3 \otimes a3, 4 \otimes a2, (-24) \otimes a, (13 \otimes P2 \otimes a) \oslash 4, 16, (7 \otimes P2) \oslash 3, (-30) \otimes Z3>>)
              \otimes e \otimes Sq(x),
        Sum(<<4 \otimes a3, (-16) \otimes a, (5 \otimes P2 \otimes a) \oslash 3, 8, (-6) \otimes Z3>>) \otimes Cu(x)>>)
  IN CASE n = 0 -> Real(1) [] n = 1 -> o1 [] n = 2 -> o1 \oplus o2 [] OTHER -> Sum(<<o1, o2, o3>>)

CGSt(f, n) ==
  LET a == Alpha \ominus LnX(f)
      a2 == Sq(a)   a3 == Cu(a)
      e == f.e1
      o1 == Sum(<<1, 2 \otimes (a \ominus 1) \otimes e,
                  Sum(<<NegR(a2), 2 \otimes a, -2, P2 \oslash 12>>) \otimes f.g2,
                  Sum(<<a3 \oslash 3, NegR(a2), (2 \ominus (P2 \oslash 12)) \otimes a, P2 \oslash 12, Frac(-2, 3), ((-2) \otimes Z3) \oslash 3>>) \otimes f.g3>>)
      o2 == Sum(<<Sum(<<2 \otimes a2, (-2) \otimes a, -3, P2 \oslash 2>>) \otimes Sq(e),
                  Sum(<<((-5) \otimes a3) \oslash 3, 2 \otimes a2, (8 \ominus ((11 \otimes P2) \oslash 12)) \otimes a, (7 \otimes P2) \oslash 6,
                        Frac(-26, 3), ((-2) \otimes Z3) \oslash 3>>) \otimes e \otimes f.g2>>)
      o3 == Sum(<<(4 \otimes a3) \oslash 3, (-8) \otimes a, P2 \otimes a, Frac(16, 3), ((-14) \otimes Z3) \oslash 3>>) \otimes Cu(e)
  IN CASE n = 0 -> Real(1) [] n = 1 -> o1 [] n = 2 -> o1 \oplus o2 [] OTHER -> Sum(<<o1, o2, o3>>)

-----------------------------------------------------------------------------
(* Schwarz & Terrero-Escalante (2004), second order                            *)
STEs(f) ==
  LET e == f.e1  g == f.e2  h == f.e3  c == CC  c2 == Sq(CC) IN
  Sum(<<1, (-2) \otimes (c \oplus 1) \otimes e, NegR(c \otimes g),
        Sum(<<2 \otimes c2, 2 \otimes c, P2 \oslash 2, -5>>) \otimes Sq(e),
        Sum(<<c2 \oslash 2, P2 \oslash 8, -1>>) \otimes Sq(g),
        Sum(<<c2, NegR(c), (7 \otimes P2) \oslash 12, -7>>) \otimes e \otimes g,
        Sum(<<NegR(c2 \oslash 2), P2 \oslash 24>>) \otimes g \otimes h>>)
STEt(f) ==
  LET e == f.e1  g == f.e2  c == CC  c2 == Sq(CC) IN
  Sum(<<1, (-2) \otimes (c \oplus 1) \otimes e,
        Sum(<<2 \otimes c2, 2 \otimes c, P2 \oslash 2, -5>>) \otimes Sq(e),
        Sum(<<NegR(c2), (-2) \otimes c, P2 \oslash 12, -2>>) \otimes e \otimes g>>)

-----------------------------------------------------------------------------
(* Leach, Liddle, Martin & Schwarz (2002): ln P = ln P0 + b0 + b1 L + b2 L^2/2 *)
LLMSs(f) ==
  LET e == f.e1  g == f.e2  h == f.e3  c == CC  c2 == Sq(CC) IN
  << Sum(<<(-2) \otimes (c \oplus 1) \otimes e, NegR(c \otimes g),
           Sum(<<(-2) \otimes c, P2 \oslash 2, -7>>) \otimes Sq(e),
           Sum(<<NegR(c2), (-3) \otimes c, (7 \otimes P2) \oslash 12, -7>>) \otimes e \otimes g,
           ((P2 \oslash 8) \ominus 1) \otimes Sq(g),
           Sum(<<NegR(c2 \oslash 2), P2 \oslash 24>>) \otimes g \otimes h>>),
     Sum(<<(-2) \otimes e, NegR(g), (-2) \otimes Sq(e), NegR(((2 \otimes c) \oplus 3) \otimes e \otimes g), NegR(c \otimes g \otimes h)>>),
     Sum(<<(-2) \otimes e \otimes g, NegR(Real(g) \otimes h)>>) >>
LLMSt(f) ==
  LET e == f.e1  g == f.e2  c == CC  c2 == Sq(CC) IN
  << Sum(<<(-2) \otimes (c \oplus 1) \otimes e,
           Sum(<<(-2) \otimes c, P2 \oslash 2, -7>>) \otimes Sq(e),
           Sum(<<NegR(c2), (-2) \otimes c, P2 \oslash 12, -2>>) \otimes e \otimes g>>),
     Sum(<<(-2) \otimes e, (-2) \otimes Sq(e), (-2) \otimes (c \oplus 1) \otimes e \otimes g>>),
     (-2) \otimes e \otimes g >>

-----------------------------------------------------------------------------
(* Auclair & Ringeval (2022); Ballardini et al. (2025):                        *)
(* P = P0 (a0 + a1 L + a2 L^2 + a3 L^3), by order; e4 is an argument           *)
ARs(f, n, e4) ==
  LET e == f.e1  g == f.e2  h == f.e3  a == Alpha  b2 == Sq(Alpha)  b3 == Cu(Alpha)
      ee == Sq(e)  gg == Sq(g)  eg == Real(e) \otimes g  gh == Real(g) \otimes h
      cub == (8 \otimes Cu(e)) \oplus Cu(g)
      ghh == (gh \otimes h) \oplus (gh \otimes e4)
      on(k, x) == IF n >= k THEN x ELSE Real(0)
  IN << Sum(<<1, (-2) \otimes (1 \ominus a) \otimes e, a \otimes g,
          on(2, Sum(<<Sum(<<-3, (-2) \otimes a, 2 \otimes b2, P2 \oslash 2>>) \otimes ee,
                      Sum(<<-6, a, b2, (7 \otimes P2) \oslash 12>>) \otimes eg,
                      Sum(<<-1, b2 \oslash 2, P2 \oslash 8>>) \otimes gg,
                      Sum(<<NegR(b2 \oslash 2), P2 \oslash 24>>) \otimes gh>>)),
          on(3, Sum(<<NegR(Sum(<<-16, 24 \otimes a, (-4) \otimes b3, (-3) \otimes a \otimes P2, 14 \otimes Z3>>) \oslash 24) \otimes cub,
                      (Sum(<<(-72) \otimes a, 36 \otimes b2, 13 \otimes P2, 8 \otimes a \otimes P2, (-84) \otimes Z3>>) \oslash 12) \otimes ee \otimes g,
                      NegR(Sum(<<16, 24 \otimes a, (-12) \otimes b2, (-8) \otimes b3, (-15) \otimes P2, (-6) \otimes a \otimes P2, 100 \otimes Z3>>) \oslash 24)
                         \otimes e \otimes gg,
                      (Sum(<<16, 4 \otimes b3, NegR(a \otimes P2), (-8) \otimes Z3>>) \oslash 24) \otimes ghh,
                      (Sum(<<48 \otimes a, (-12) \otimes b3, (-5) \otimes a \otimes P2>>) \oslash 24) \otimes gg \otimes h,
                      (Sum(<<-8, 72 \otimes a, (-12) \otimes b2, (-8) \otimes b3, P2, (-6) \otimes a \otimes P2, (-8) \otimes Z3>>) \oslash 12)
                         \otimes eg \otimes h>>))>>),
        Sum(<<(-2) \otimes e, NegR(g),
          on(2, Sum(<<2 \otimes (1 \ominus (2 \otimes a)) \otimes ee, NegR((2 \otimes a) \oplus 1) \otimes eg, NegR(a \otimes gg), a \otimes gh>>)),
          on(3, Sum(<<NegR(Sum(<<-8, 4 \otimes b2, P2>>) \oslash 8) \otimes cub,
                      (((-2) \otimes Sum(<<-9, 9 \otimes a, P2>>)) \oslash 3) \otimes ee \otimes g,
                      NegR(Sum(<<-4, 4 \otimes a, 4 \otimes b2, P2>>) \oslash 4) \otimes e \otimes gg,
                      (Sum(<<-12, 4 \otimes a, 4 \otimes b2, P2>>) \oslash 2) \otimes eg \otimes h,
                      (Sum(<<(-12) \otimes b2, P2>>) \oslash 24) \otimes ghh,
                      (Sum(<<-48, 36 \otimes b2, 5 \otimes P2>>) \oslash 24) \otimes gg \otimes h>>))>>),
        on(2, Sum(<<2 \otimes ee, eg, "0.5" \otimes gg, "-0.5" \otimes gh,
          on(3, Sum(<<3 \otimes ee \otimes g,
                      "0.5" \otimes (1 \oplus (2 \otimes a)) \otimes ((Real(e) \otimes gg) \ominus (2 \otimes eg \otimes h)),
                      "0.5" \otimes a \otimes Sum(<<cub, (-3) \otimes gg \otimes h, ghh>>)>>))>>)),
        on(3, Sum(<<(-8) \otimes Cu(e), (-2) \otimes e \otimes gg, NegR(Cu(g)), 4 \otimes eg \otimes h, 3 \otimes gg \otimes h, NegR(ghh)>>) \oslash 6) >>
ARt(f, n) ==
  LET e == f.e1  g == f.e2  h == f.e3  a == Alpha  b2 == Sq(Alpha)  b3 == Cu(Alpha)
      ee == Sq(e)  eg == Real(e) \otimes g
      egx == (eg \otimes g) \oplus (eg \otimes h)
      on(k, x) == IF n >= k THEN x ELSE Real(0)
  IN << Sum(<<1, 2 \otimes (a \ominus 1) \otimes e,
          on(2, Sum(<<Sum(<<-3, (-2) \otimes a, 2 \otimes b2, P2 \oslash 2>>) \otimes ee,
                      Sum(<<-2, 2 \otimes a, NegR(b2), P2 \oslash 12>>) \otimes eg>>)),
          on(3, Sum(<<NegR(Sum(<<-16, 24 \otimes a, (-4) \otimes b3, (-3) \otimes a \otimes P2, 14 \otimes Z3>>) \oslash 3) \otimes Cu(e),
                      (Sum(<<-96, 72 \otimes a, 36 \otimes b2, (-24) \otimes b3, 13 \otimes P2, (-10) \otimes a \otimes P2>>) \oslash 12) \otimes ee \otimes g,
                      NegR(Sum(<<8, (-24) \otimes a, 12 \otimes b2, (-4) \otimes b3, NegR(P2), a \otimes P2, 8 \otimes Z3>>) \oslash 12) \otimes egx>>))>>),
        Sum(<<(-2) \otimes e,
          on(2, Sum(<<2 \otimes (1 \ominus (2 \otimes a)) \otimes ee, 2 \otimes (a \ominus 1) \otimes eg>>)),
          on(3, Sum(<<NegR(Sum(<<-8, 4 \otimes b2, P2>>)) \otimes Cu(e),
                      6 \otimes Sum(<<-1, NegR(a), b2, (5 \otimes P2) \oslash 36>>) \otimes ee \otimes g,
                      Sum(<<-2, 2 \otimes a, NegR(b2), P2 \oslash 12>>) \otimes egx>>))>>),
        on(2, Sum(<<2 \otimes ee, NegR(eg),
          on(3, Sum(<<4 \otimes a \otimes Cu(e), (3 \ominus (6 \otimes a)) \otimes ee \otimes g, NegR((1 \ominus a) \otimes egx)>>))>>)),
        on(3, Sum(<<(-8) \otimes Cu(e), 12 \otimes ee \otimes g, (-2) \otimes egx>>) \oslash 6) >>

\* value of a polynomial in L
Poly(c, L) == Sum(<<c[1], Real(c[2]) \otimes L, Real(c[3]) \otimes L \otimes L, Real(c[4]) \otimes L \otimes L \otimes L>>)
=============================================================================
