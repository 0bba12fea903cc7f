-------------------------------- MODULE Jet --------------------------------
(* Truncated Taylor series (order 4) over F64: <<a0,a1,a2,a3,a4>> stands for *)
(* a0 + a1 h + a2 h^2 + a3 h^3 + a4 h^4.  This is the oracle for derivatives: *)
(* a function is written once, as itself, and its derivatives follow.        *)
EXTENDS F64, Integers, Sequences

JConst(c) == <<Real(c), Real(0), Real(0), Real(0), Real(0)>>
JVar(x)   == <<Real(x), Real(1), Real(0), Real(0), Real(0)>>

JAdd(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3], a[4] \oplus b[4], a[5] \oplus b[5]>>
JSub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3], a[4] \ominus b[4], a[5] \ominus b[5]>>
JScale(c, a) == <<c \otimes a[1], c \otimes a[2], c \otimes a[3], c \otimes a[4], c \otimes a[5]>>
JShift(c, a) == <<c \oplus a[1], a[2], a[3], a[4], a[5]>>

JMul(a, b) ==
  << a[1] \otimes b[1],
     (a[1] \otimes b[2]) \oplus (a[2] \otimes b[1]),
     (a[1] \otimes b[3]) \oplus (a[2] \otimes b[2]) \oplus (a[3] \otimes b[1]),
     (a[1] \otimes b[4]) \oplus (a[2] \otimes b[3]) \oplus (a[3] \otimes b[2]) \oplus (a[4] \otimes b[1]),
     (a[1] \otimes b[5]) \oplus (a[2] \otimes b[4]) \oplus (a[3] \otimes b[3]) \oplus (a[4] \otimes b[2])
        \oplus (a[5] \otimes b[1]) >>

JDiv(a, b) ==
  LET c1 == a[1] \oslash b[1]
      c2 == (a[2] \ominus (c1 \otimes b[2])) \oslash b[1]
      c3 == (a[3] \ominus ((c1 \otimes b[3]) \oplus (c2 \otimes b[2]))) \oslash b[1]
      c4 == (a[4] \ominus ((c1 \otimes b[4]) \oplus (c2 \otimes b[3]) \oplus (c3 \otimes b[2]))) \oslash b[1]
      c5 == (a[5] \ominus ((c1 \otimes b[5]) \oplus (c2 \otimes b[4]) \oplus (c3 \otimes b[3]) \oplus (c4 \otimes b[2])))
               \oslash b[1]
  IN <<c1, c2, c3, c4, c5>>

JExp(a) ==
  LET e1 == Exp(a[1])
      e2 == a[2] \otimes e1
      e3 == ((a[2] \otimes e2) \oplus (2 \otimes a[3] \otimes e1)) \oslash 2
      e4 == ((a[2] \otimes e3) \oplus (2 \otimes a[3] \otimes e2) \oplus (3 \otimes a[4] \otimes e1)) \oslash 3
      e5 == ((a[2] \otimes e4) \oplus (2 \otimes a[3] \otimes e3) \oplus (3 \otimes a[4] \otimes e2)
               \oplus (4 \otimes a[5] \otimes e1)) \oslash 4
  IN <<e1, e2, e3, e4, e5>>

\* real power; the base may be negative when r is an integer
JPow(a, r) ==
  LET k(n, j) == (j \otimes r) \ominus (n - j)
      p1 == Pow(a[1], r)
      p2 == (k(1,1) \otimes a[2] \otimes p1) \oslash a[1]
      p3 == ((k(2,1) \otimes a[2] \otimes p2) \oplus (k(2,2) \otimes a[3] \otimes p1)) \oslash (2 \otimes a[1])
      p4 == ((k(3,1) \otimes a[2] \otimes p3) \oplus (k(3,2) \otimes a[3] \otimes p2)
               \oplus (k(3,3) \otimes a[4] \otimes p1)) \oslash (3 \otimes a[1])
      p5 == ((k(4,1) \otimes a[2] \otimes p4) \oplus (k(4,2) \otimes a[3] \otimes p3)
               \oplus (k(4,3) \otimes a[4] \otimes p2) \oplus (k(4,4) \otimes a[5] \otimes p1)) \oslash (4 \otimes a[1])
  IN <<p1, p2, p3, p4, p5>>

JSqrt(a) == JPow(a, "0.5")
JSq(a)   == JMul(a, a)
JNeg(a)  == JScale(-1, a)
JAbs(a)  == JScale(Sgn(a[1]), a)

\* sg = -1: sin/cos, sg = +1: sinh/cosh;  s' = c u', c' = sg s u'
JTrig(a, s1, c1, sg) ==
  LET s2 == a[2] \otimes c1
      c2 == sg \otimes a[2] \otimes s1
      s3 == ((a[2] \otimes c2) \oplus (2 \otimes a[3] \otimes c1)) \oslash 2
      c3 == (sg \otimes ((a[2] \otimes s2) \oplus (2 \otimes a[3] \otimes s1))) \oslash 2
      s4 == ((a[2] \otimes c3) \oplus (2 \otimes a[3] \otimes c2) \oplus (3 \otimes a[4] \otimes c1)) \oslash 3
      c4 == (sg \otimes ((a[2] \otimes s3) \oplus (2 \otimes a[3] \otimes s2) \oplus (3 \otimes a[4] \otimes s1))) \oslash 3
      s5 == ((a[2] \otimes c4) \oplus (2 \otimes a[3] \otimes c3) \oplus (3 \otimes a[4] \otimes c2)
               \oplus (4 \otimes a[5] \otimes c1)) \oslash 4
      c5 == (sg \otimes ((a[2] \otimes s4) \oplus (2 \otimes a[3] \otimes s3) \oplus (3 \otimes a[4] \otimes s2)
               \oplus (4 \otimes a[5] \otimes s1))) \oslash 4
  IN [s |-> <<s1, s2, s3, s4, s5>>, c |-> <<c1, c2, c3, c4, c5>>]

JCos(a)  == JTrig(a, Sin(a[1]), Cos(a[1]), -1).c
JSin(a)  == JTrig(a, Sin(a[1]), Cos(a[1]), -1).s
JTanh(a) == LET t == JTrig(a, Sinh(a[1]), Cosh(a[1]), 1) IN JDiv(t.s, t.c)

\* derivative of a series (one order is lost; the top coefficient is meaningless)
JD(a) == <<a[2], 2 \otimes a[3], 3 \otimes a[4], 4 \otimes a[5], Real(0)>>

\* n-th derivative at the expansion point
Deriv(a, n) == CASE n = 0 -> a[1] [] n = 1 -> a[2] [] n = 2 -> 2 \otimes a[3]
                 [] n = 3 -> 6 \otimes a[4] [] n = 4 -> 24 \otimes a[5]

\* composition f(a) for a polynomial f given by its coefficients around a's constant term
JCompose(f, a) ==
  LET d  == <<Real(0), a[2], a[3], a[4], a[5]>>
      d2 == JMul(d, d)
      d3 == JMul(d2, d)
      d4 == JMul(d3, d)
  IN JAdd(JConst(f[1]), JAdd(JScale(f[2], d), JAdd(JScale(f[3], d2), JAdd(JScale(f[4], d3), JScale(f[5], d4)))))
=============================================================================
