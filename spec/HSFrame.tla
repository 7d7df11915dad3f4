------------------------------- MODULE HSFrame -------------------------------
(***************************************************************************)
(* Exact mechanics of space frames of Euler-Bernoulli beams, as the        *)
(* Hyperstatic core documents and implements it.  All arithmetic is exact  *)
(* on integers: coordinates are counted in fifths of the unit of length,   *)
(* so that 3-4-5 triangles give inclined members of integer length with    *)
(* rational direction cosines.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CU == 5                       \* coordinate units per unit of length
RD == 25                      \* common denominator of all direction cosines

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, Abs(a) % Abs(b))
Exact(a, b) == /\ b # 0 /\ Abs(a) % Abs(b) = 0
\* Exact division.  A driver that asks for an inexact one is in error (never the code).
Div(a, b) == IF Exact(a, b)
             THEN (IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b)))
             ELSE IF Assert(FALSE, <<"driver: inexact division", a, b>>) THEN 0 ELSE 0

\* Integer square root by bisection; -1 when n is not a square.
RECURSIVE SqrtB(_, _, _)
SqrtB(n, lo, hi) == IF lo > hi THEN -1
                    ELSE LET m == (lo + hi) \div 2
                         IN IF m * m = n THEN m
                            ELSE IF m * m < n THEN SqrtB(n, m + 1, hi)
                            ELSE SqrtB(n, lo, m - 1)
ISqrt(n) == SqrtB(n, 0, 20000)

Vec3(a, b) == <<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>
Len2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
BeamLen(la, lb) == Div(ISqrt(Len2(Vec3(la, lb))), CU)

Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Scale3(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>

\* Divide rows by their common factor with the denominator.
ReduceT(t) == LET g == Gcd(Gcd(Gcd(Gcd(t.R[1][1], t.R[1][2]), Gcd(t.R[1][3], t.R[2][1])),
                               Gcd(Gcd(t.R[2][2], t.R[2][3]), Gcd(t.R[3][1], t.R[3][2]))),
                           Gcd(t.R[3][3], t.D))
              IN [D |-> t.D \div g,
                  R |-> [i \in 1..3 |-> [j \in 1..3 |-> Div(t.R[i][j], g)]]]

(***************************************************************************)
(* Local axes of a member from la to lb (in coordinate units) rolled by    *)
(* the angle with cosine rot[1]/rot[3] and sine rot[2]/rot[3].  Axis 1     *)
(* runs from start to end; axis 2 lies in the vertical plane through the   *)
(* member, upwards (global X for vertical members); axis 3 = 1 x 2.        *)
(* The rows of R divided by D are the unit vectors.                        *)
(***************************************************************************)
Axes(la, lb, rot) ==
  LET v == Vec3(la, lb)
      L == ISqrt(Len2(v))
      base == IF v[1] = 0 /\ v[2] = 0
              THEN LET s == IF v[3] > 0 THEN 1 ELSE -1
                   IN [D |-> 1, R |-> << <<0, 0, s>>, <<1, 0, 0>>, <<0, s, 0>> >>]
              ELSE LET h == ISqrt(v[1] * v[1] + v[2] * v[2])
                   IN ReduceT([D |-> h * L,
                               R |-> << <<v[1] * h, v[2] * h, v[3] * h>>,
                                        <<-v[1] * v[3], -v[2] * v[3], h * h>>,
                                        <<v[2] * L, -v[1] * L, 0>> >>])
      y == Add3(Scale3(rot[1], base.R[2]), Scale3(rot[2], base.R[3]))
      z == Add3(Scale3(-rot[2], base.R[2]), Scale3(rot[1], base.R[3]))
  IN TLCEval(ReduceT([D |-> base.D * rot[3], R |-> <<Scale3(rot[3], base.R[1]), y, z>>]))

NoRot == <<1, 0, 1>>

\* Rows times the four 3-vectors of a 12-vector (global -> local, times D).
ToLocal(t, g) == TLCEval([k \in 1..12 |->
                    LET o == ((k - 1) \div 3) * 3
                        r == t.R[((k - 1) % 3) + 1]
                    IN r[1] * g[o + 1] + r[2] * g[o + 2] + r[3] * g[o + 3]])
\* Transposed rows (local -> global, times D).
ToGlobal(t, l) == TLCEval([k \in 1..12 |->
                    LET o == ((k - 1) \div 3) * 3
                        c == ((k - 1) % 3) + 1
                    IN t.R[1][c] * l[o + 1] + t.R[2][c] * l[o + 2] + t.R[3][c] * l[o + 3]])

\* Shear modulus E / 2(1+mu), mu = mn/md.
ShearG(E, mn, md) == Div(E * md, 2 * (md + mn))

(***************************************************************************)
(* Stiffness times end displacements, local axes, order                    *)
(* u1 u2 u3 r1 r2 r3 at the start, the same at the end.                    *)
(* p: [E, mn, md, A, I2, I3, J].  J < 0 means that torsion is not modelled *)
(* here, which requires equal twists.                                      *)
(***************************************************************************)
KTimes(p, l, d) ==
  LET ka == Div(p.E * p.A, l)
      t3 == Div(2 * p.E * p.I3, l)              \* 2EI/l
      t2 == Div(2 * p.E * p.I2, l)
      s3 == Div(6 * p.E * p.I3, l * l)          \* 6EI/l^2
      s2 == Div(6 * p.E * p.I2, l * l)
      w3 == Div(12 * p.E * p.I3, l * l * l)     \* 12EI/l^3
      w2 == Div(12 * p.E * p.I2, l * l * l)
      tw == d[4] - d[10]
      f4 == IF p.J < 0 THEN (IF Assert(tw = 0, "driver: torsion of an unmodelled section") THEN 0 ELSE 0)
            ELSE Div(ShearG(p.E, p.mn, p.md) * p.J, l) * tw
      f1 == ka * (d[1] - d[7])
      f2 == w3 * (d[2] - d[8]) + s3 * (d[6] + d[12])
      f3 == w2 * (d[3] - d[9]) - s2 * (d[5] + d[11])
  IN TLCEval(<< f1, f2, f3, f4,
        -s2 * (d[3] - d[9]) + 2 * t2 * d[5] + t2 * d[11],
         s3 * (d[2] - d[8]) + 2 * t3 * d[6] + t3 * d[12],
        -f1, -f2, -f3, -f4,
        -s2 * (d[3] - d[9]) + t2 * d[5] + 2 * t2 * d[11],
         s3 * (d[2] - d[8]) + t3 * d[6] + 2 * t3 * d[12] >>)

(***************************************************************************)
(* Equivalent (fixed-end) loads of a member of length l, in local axes.    *)
(* q = <<pi,pj,qi2,qj2,qi3,qj3,ti,tj>>: linearly varying distributed       *)
(* loads; F = <<F1,F2,F3,M1,M2,M3>>: concentrated at rn/rd of the length.  *)
(* Results are scaled by FS(l, rd).                                        *)
(***************************************************************************)
FS(l, rd) == 60 * rd * rd * rd * l
LinI(a, b) == 2 * a + b
LinJ(a, b) == a + 2 * b
DistS(q, l, rd) ==
  LET k == rd * rd * rd * l IN
  << 10 * l * LinI(q[1], q[2]) * k,
      3 * l * (7 * q[3] + 3 * q[4]) * k,
      3 * l * (7 * q[5] + 3 * q[6]) * k,
     10 * l * LinI(q[7], q[8]) * k,
     -1 * l * l * (3 * q[5] + 2 * q[6]) * k,
      1 * l * l * (3 * q[3] + 2 * q[4]) * k,
     10 * l * LinJ(q[1], q[2]) * k,
      3 * l * (3 * q[3] + 7 * q[4]) * k,
      3 * l * (3 * q[5] + 7 * q[6]) * k,
     10 * l * LinJ(q[7], q[8]) * k,
      1 * l * l * (2 * q[5] + 3 * q[6]) * k,
     -1 * l * l * (2 * q[3] + 3 * q[4]) * k >>
ConcS(F, rn, rd, l) ==
  LET a == rn
      b == rd - rn
      c == 60 * l
      ff(x, y) == c * y * y * (rd + 2 * x)        \* b'^2 (1+2a')
      fm(x, y) == c * l * x * y * y               \* a' b'^2 l
      mf == 360 * a * b * rd                      \* 6 a' b' / l
      mm(x, y) == c * rd * y * (rd - 3 * x)       \* b' (1-3a')
  IN
  << c * rd * rd * b * F[1],
     ff(a, b) * F[2] - mf * F[6],
     ff(a, b) * F[3] + mf * F[5],
     c * rd * rd * b * F[4],
     -fm(a, b) * F[3] + mm(a, b) * F[5],
      fm(a, b) * F[2] + mm(a, b) * F[6],
     c * rd * rd * a * F[1],
     ff(b, a) * F[2] + mf * F[6],
     ff(b, a) * F[3] - mf * F[5],
     c * rd * rd * a * F[4],
      fm(b, a) * F[3] + mm(b, a) * F[5],
     -fm(b, a) * F[2] + mm(b, a) * F[6] >>
FefS(q, F, rn, rd, l) == TLCEval(LET x == DistS(q, l, rd)
                                     y == ConcS(F, rn, rd, l)
                                 IN [k \in 1..12 |-> x[k] + y[k]])
Zero6 == <<0, 0, 0, 0, 0, 0>>
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Zero12 == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
F6 == <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>
F12 == F6 \o F6
AddV(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
ScaleV(c, a) == [k \in DOMAIN a |-> c * a[k]]

\* Exact fixed-end loads (the driver chooses divisible magnitudes).
Fef(q, F, rn, rd, l) == LET s == FefS(q, F, rn, rd, l) IN TLCEval([k \in 1..12 |-> Div(s[k], FS(l, rd))])

(***************************************************************************)
(* Deformation at relative location xn/xd from the end displacements d:    *)
(* axial, deflections along axes 2 and 3, twist, and the slopes of the two *)
(* deflections; scaled by l * xd^3.                                        *)
(***************************************************************************)
DeformS(d, l, xn, xd) ==
  LET x == xn
      y == xd - xn
      k == l * xd * xd
      n1 == l * (xd * xd * xd - 3 * x * x * xd + 2 * x * x * x)
      n2 == l * l * (x * y * y)
      n3 == l * (3 * x * x * xd - 2 * x * x * x)
      n4 == -l * l * (x * x * y)
      m1 == 6 * xd * (x * x - x * xd)
      m2 == l * xd * (xd * xd - 4 * x * xd + 3 * x * x)
      m4 == l * xd * (3 * x * x - 2 * x * xd)
  IN TLCEval(<< k * (y * d[1] + x * d[7]),
        n1 * d[2] + n2 * d[6] + n3 * d[8] + n4 * d[12],
        n1 * d[3] - n2 * d[5] + n3 * d[9] - n4 * d[11],
        k * (y * d[4] + x * d[10]),
        m1 * (d[2] - d[8]) + m2 * d[6] + m4 * d[12],
        m1 * (d[3] - d[9]) - m2 * d[5] - m4 * d[11] >>)
DeformScale(l, xd) == l * xd * xd * xd

(***************************************************************************)
(* Consistent mass of a member (times 420), local axes: the kinetic energy *)
(* of the interpolated motion; twisting with the inertia rho J.            *)
(***************************************************************************)
HermM(l) == << <<156, 22 * l, 54, -13 * l>>, <<22 * l, 4 * l * l, 13 * l, -3 * l * l>>,
               <<54, 13 * l, 156, -22 * l>>, <<-13 * l, -3 * l * l, -22 * l, 4 * l * l>> >>
PlaceM(k, seq) == IF \E x \in 1..Len(seq) : seq[x] = k THEN CHOOSE x \in 1..Len(seq) : seq[x] = k ELSE 0
ConsM420(p, l) ==
  LET a == p.rho * p.A * l
      t == p.rho * p.J * l
      H == HermM(l)
      two(x, y) == IF x = y THEN 140 ELSE 70
      el(i, j, seq, sgn) == LET x == PlaceM(i, seq)
                                y == PlaceM(j, seq)
                            IN IF x = 0 \/ y = 0 THEN 0 ELSE sgn[x] * sgn[y] * H[x][y]
      pair(i, j, seq) == LET x == PlaceM(i, seq)
                             y == PlaceM(j, seq)
                         IN IF x = 0 \/ y = 0 THEN 0 ELSE two(x, y)
  IN [i \in 1..12 |-> [j \in 1..12 |->
        a * (pair(i, j, <<1, 7>>) + el(i, j, <<2, 6, 8, 12>>, <<1, 1, 1, 1>>) + el(i, j, <<3, 5, 9, 11>>, <<1, -1, 1, -1>>)) + t * pair(i, j, <<4, 10>>)]]
=============================================================================
