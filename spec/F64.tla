-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic.  TLC backs these operators by the Java      *)
(* class spec/java/F64.java; the bodies below only fix arities.  An        *)
(* argument may be an F64 value, an integer, or a string holding a decimal *)
(* literal ("1.5e-3", "nan", "inf"), which is how traces carry floats.     *)
(* Everything else in this specification is written in TLA+ on top.        *)
(***************************************************************************)
LOCAL F64Prim(args) == CHOOSE r \in {args} : TRUE

Real(a)      == F64Prim(<<a>>)        \* coerce to F64
AddR(a, b)   == F64Prim(<<a, b>>)
SubR(a, b)   == F64Prim(<<a, b>>)
MulR(a, b)   == F64Prim(<<a, b>>)
DivR(a, b)   == F64Prim(<<a, b>>)
a \oplus b   == AddR(a, b)
a \ominus b  == SubR(a, b)
a \otimes b  == MulR(a, b)
a \oslash b  == DivR(a, b)
NegR(a)       == F64Prim(<<a>>)
AbsR(a)      == F64Prim(<<a>>)
Sgn(a)       == F64Prim(<<a>>)
Sqrt(a)      == F64Prim(<<a>>)
Exp(a)       == F64Prim(<<a>>)
Ln(a)        == F64Prim(<<a>>)
Pow(a, b)    == F64Prim(<<a, b>>)
Sin(a)       == F64Prim(<<a>>)
Cos(a)       == F64Prim(<<a>>)
Tan(a)       == F64Prim(<<a>>)
Acos(a)      == F64Prim(<<a>>)
Cosh(a)      == F64Prim(<<a>>)
Sinh(a)      == F64Prim(<<a>>)
Tanh(a)      == F64Prim(<<a>>)
MaxR(a, b)   == F64Prim(<<a, b>>)
MinR(a, b)   == F64Prim(<<a, b>>)
Lt(a, b)     == F64Prim(<<a, b>>) = a     \* IEEE <  (FALSE on NaN)
Le(a, b)     == F64Prim(<<a, b>>) = a     \* IEEE <=
EqR(a, b)    == F64Prim(<<a, b>>) = a     \* IEEE == (NaN # NaN)
IsNaN(a)     == F64Prim(<<a>>) = a
IsFin(a)     == F64Prim(<<a>>) = a
Str(a)       == "F64"                     \* decimal string
\* |a-b| <= tol * max(|a|,|b|) ; FALSE if either is NaN; equal infinities agree
CloseRel(a, b, tol)    == F64Prim(<<a, b, tol>>) = a
\* |a-b| <= tol * scale, equal infinities agree
CloseAbs(a, b, tol)    == F64Prim(<<a, b, tol>>) = a
\* both NaN, or equal
SameR(a, b)            == F64Prim(<<a, b>>) = a
=============================================================================
