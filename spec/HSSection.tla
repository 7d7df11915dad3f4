------------------------------ MODULE HSSection ------------------------------
(***************************************************************************)
(* Sections and materials.  Dimensions are integers in an arbitrary unit   *)
(* of length; constants are given in thousandths (rounded down), with pi   *)
(* as 355/113.  Second moments are kept exact as numerators.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Milli(n, d) == 1000 * (n \div d) + (1000 * (n % d)) \div d          \* 1000 n / d
PiT(n) == 355 * (n \div 113) + (355 * (n % 113)) \div 113           \* pi n
MulDiv(n, a, b) == (n \div b) * a + ((n % b) * a) \div b            \* n a / b
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a > b THEN b ELSE a

\* Saint-Venant torsion of a rectangle a x c (a >= c): J = beta a c^3; millionths, by a/c.
Beta == <<1,1>> :> 140577 @@ <<2,1>> :> 228682 @@ <<3,1>> :> 263317 @@ <<4,1>> :> 280813 @@ <<5,1>> :> 291317
     @@ <<6,1>> :> 298320 @@ <<7,1>> :> 303321 @@ <<8,1>> :> 307073 @@ <<10,1>> :> 312325 @@ <<12,1>> :> 315826
     @@ <<16,1>> :> 320203 @@ <<20,1>> :> 322829 @@ <<3,2>> :> 195761 @@ <<4,3>> :> 180457 @@ <<5,2>> :> 249365
     @@ <<5,3>> :> 208612 @@ <<5,4>> :> 171733 @@ <<7,2>> :> 273312
BetaOf(a, c) == Beta[CHOOSE r \in DOMAIN Beta : r[1] * c = r[2] * a]
JRect(h, b) == LET a == Max2(h, b)
                   c == Min2(h, b)
               IN MulDiv(a * c * c * c, BetaOf(a, c), 1000)

\* Exact numerators: area, and twelve times the second moments.
A1(k, d) == CASE k = "rect" -> d[1] * d[2]
              [] k = "box"  -> d[1] * d[2] - (d[1] - 2 * d[4]) * (d[2] - 2 * d[3])
              [] k = "I"    -> 2 * d[2] * d[4] + (d[1] - 2 * d[4]) * d[3]
I22n(k, d) == CASE k = "rect" -> d[1] * d[2] * d[2] * d[2]
                [] k = "box"  -> LET hi == d[1] - 2 * d[4]
                                     bi == d[2] - 2 * d[3]
                                 IN d[1] * d[2] * d[2] * d[2] - hi * bi * bi * bi
                [] k = "I"    -> 2 * d[4] * d[2] * d[2] * d[2] + (d[1] - 2 * d[4]) * d[3] * d[3] * d[3]
I33n(k, d) == CASE k = "rect" -> d[2] * d[1] * d[1] * d[1]
                [] k = "box"  -> LET hi == d[1] - 2 * d[4]
                                     bi == d[2] - 2 * d[3]
                                 IN d[2] * d[1] * d[1] * d[1] - bi * hi * hi * hi
                [] k = "I"    -> LET hi == d[1] - 2 * d[4]
                                 IN d[2] * d[1] * d[1] * d[1] - (d[2] - d[3]) * hi * hi * hi

(***************************************************************************)
(* The catalogue.  d: rect <<h,b>>, circle <<d>>, pipe <<d,t>>, box and I  *)
(* <<h,b,tw,tf>>, general <<A,As2,As3,I22,I33,J,W22,W33>>.  i2, i3: squares *)
(* of the radii of gyration.  tj: J is known to one part in tj.            *)
(***************************************************************************)
Polygon(k, d, As2, As3, J, tj) ==
  LET h == d[1]
      b == d[2]
  IN [A |-> 1000 * A1(k, d), As2 |-> As2, As3 |-> As3, J |-> J, tj |-> tj,
      I22 |-> Milli(I22n(k, d), 12), I33 |-> Milli(I33n(k, d), 12),
      W22 |-> Milli(I22n(k, d), 6 * b), W33 |-> Milli(I33n(k, d), 6 * h),
      i2 |-> Milli(I22n(k, d), 12 * A1(k, d)), i3 |-> Milli(I33n(k, d), 12 * A1(k, d))]
Round(D, e, As) ==          \* outer and inner diameter
  LET n2 == D * D - e * e
      n4 == D * D * D * D - e * e * e * e
      I == PiT(Milli(n4, 64))
  IN [A |-> PiT(Milli(n2, 4)), As2 |-> As, As3 |-> As, J |-> PiT(Milli(n4, 32)), tj |-> 20000, I22 |-> I, I33 |-> I,
      W22 |-> PiT(Milli(n4, 32 * D)), W33 |-> PiT(Milli(n4, 32 * D)), i2 |-> Milli(D * D + e * e, 16), i3 |-> Milli(D * D + e * e, 16)]
Props(k, d) ==
  CASE k = "rect"   -> Polygon(k, d, Milli(5 * d[1] * d[2], 6), Milli(5 * d[1] * d[2], 6), JRect(d[1], d[2]), 2000)
    [] k = "box"    -> LET hm == d[1] - d[4]
                           bm == d[2] - d[3]
                           n == hm * hm * bm * bm
                           q == d[3] * d[4]
                           den == bm * d[3] + hm * d[4]
                       IN Polygon(k, d, 2000 * d[3] * d[1], 2000 * d[4] * d[2], Milli(2 * n * q, den), 20000)
    [] k = "I"      -> Polygon(k, d, 1000 * d[3] * d[1], Milli(5 * d[4] * d[2], 3),
                               2 * JRect(d[2], d[4]) + JRect(d[1] - 2 * d[4], d[3]), 400)
    [] k = "circle" -> Round(d[1], 0, PiT(Milli(9 * d[1] * d[1], 40)))
    [] k = "pipe"   -> Round(d[1], d[1] - 2 * d[2], PiT(Milli(d[2] * (d[1] - d[2]), 2)))
    [] k = "general" -> [A |-> 1000 * d[1], As2 |-> 1000 * d[2], As3 |-> 1000 * d[3], I22 |-> 1000 * d[4], I33 |-> 1000 * d[5], J |-> 1000 * d[6], tj |-> 20000,
                         W22 |-> 1000 * d[7], W33 |-> 1000 * d[8], i2 |-> Milli(d[4], d[1]), i3 |-> Milli(d[5], d[1])]
Shape(k) == CASE k = "rect" -> "R" [] OTHER -> k

\* Shear modulus and Lame constant of E, mu = mn/md, in thousandths.
GOf(m) == Milli(m.E * m.md, 2 * (m.md + m.mn))
LameOf(m) == Milli(m.E * m.mn * m.md, (m.md + m.mn) * (m.md - 2 * m.mn))
\* Stress of an isotropic material under the strain <<exx, eyy, ezz, gxy, gyz, gzx>> (g: engineering shear), in thousandths:
\* 2 G eps + lame tr(eps) 1, as <<sxx, syy, szz, sxy, syz, szx>>; and the tensor of the strain itself.
StressOf(m, e) ==
  LET tr == e[1] + e[2] + e[3]
      N(k) == Milli(m.E * m.md * ((m.md - 2 * m.mn) * e[k] + m.mn * tr), (m.md + m.mn) * (m.md - 2 * m.mn))
      S(k) == Milli(m.E * m.md * e[k], 2 * (m.md + m.mn))
  IN <<N(1), N(2), N(3), S(4), S(5), S(6)>>
TensorOf(e) == <<1000 * e[1], 1000 * e[2], 1000 * e[3], 500 * e[4], 500 * e[5], 500 * e[6]>>
\* A 3x3 matrix from its six different components.
Full(v) == << <<v[1], v[4], v[6]>>, <<v[4], v[2], v[5]>>, <<v[6], v[5], v[3]>> >>
=============================================================================
