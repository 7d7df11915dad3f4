------------------------------ MODULE HSSpectrum ------------------------------
(***************************************************************************)
(* The seismic influence coefficient of GB 50011 (as a multiple of its     *)
(* maximum) and harmonic load curves, in fixed point with six digits.      *)
(* Periods in milliseconds, damping x in thousandths, tg the              *)
(* characteristic period of the site.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

ONE == 1000000
\* a / b and x y / ONE for numbers not below zero, x and y not above 2.1 ONE (all products below 2^31).
Div(a, b) == LET q == (1000 * a) \div b
                 r == (1000 * a) % b
             IN 1000 * q + (1000 * r) \div b
Mul(x, y) == LET h == x \div 1000
             IN h * (y \div 1000) + (h * (y % 1000)) \div 1000 + ((x % 1000) * y) \div ONE
SDiv(a, b) == IF a >= 0 THEN Div(a, b) ELSE -Div(-a, b)
AtLeast(v, least) == IF v < least THEN least ELSE v

\* ln(a / b) for b <= a <= 5 b: twice the series of the inverse hyperbolic tangent.
RECURSIVE LnSum(_, _, _)
LnSum(p, z2, n) == IF p < 2 \/ n > 61 THEN 0 ELSE p \div n + LnSum(Mul(p, z2), z2, n + 2)
Ln(a, b) == LET z == Div(a - b, a + b) IN 2 * LnSum(z, Mul(z, z), 1)
\* exp(-v) for 0 <= v <= 2: the series at v/4, squared twice.
RECURSIVE ExpSum(_, _, _)
ExpSum(p, w, n) == IF p = 0 \/ n > 12 THEN 0 ELSE p - ExpSum(Mul(p, w) \div (n + 1), w, n + 1)
Sq(x) == Mul(x, x)
ExpNeg(v) == Sq(Sq(ExpSum(ONE, v \div 4, 0)))
\* (b / a) ^ g for b <= a <= 5 b
PowDown(a, b, g) == ExpNeg(Mul(g, Ln(a, b)))

Gamma(x) == 900000 + SDiv(50 - x, 300 + 6 * x)
Eta1(x) == AtLeast(20000 + SDiv(50 - x, 4000 + 32 * x), 0)
Eta2(x) == AtLeast(ONE + SDiv(5 * (50 - x), 400 + 8 * x), 550000)

Rise(x, t) == 450000 + ((Eta2(x) - 450000) * t) \div 100
Curved(x, tg, t) == Mul(Eta2(x), PowDown(t, tg, Gamma(x)))
Slope(x, tg, t) == Mul(Eta2(x), PowDown(5, 1, Gamma(x))) - (Eta1(x) * (t - 5 * tg)) \div 1000
Alpha(x, tg, t) ==
  CASE t < 100 -> Rise(x, t)
    [] t >= 100 /\ t < tg -> Eta2(x)
    [] t >= 100 /\ t >= tg /\ t < 5 * tg -> Curved(x, tg, t)
    [] OTHER -> Slope(x, tg, t)

(***************************************************************************)
(* Harmonic curves: sine of a multiple of 30 degrees.                      *)
(***************************************************************************)
Sine(n) == LET m == n % 12
               s == <<0, 500000, 866025, ONE, 866025, 500000>>
           IN IF m < 6 THEN s[m + 1] ELSE -s[m - 5]
Cosine(n) == Sine(n + 3)
=============================================================================
