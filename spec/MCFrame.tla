------------------------------- MODULE MCFrame -------------------------------
(***************************************************************************)
(* The mechanics of HSFrame checked against first principles, exhaustively *)
(* over small parameters.  The interpolation of a member is pinned down by *)
(* being cubic (linear) with the right end values and slopes; stiffness    *)
(* and fixed-end loads then have to be the work done on it: stiffness the  *)
(* strain energy, fixed-end loads the load's work on the shape of each end *)
(* displacement.  Quadratures are exact for the degrees at hand (Boole for *)
(* degree 5, Simpson for degree 3).                                        *)
(***************************************************************************)
EXTENDS HSFrame, FiniteSets, IOUtils

LMax == atoi(IOEnv.LMAX)
Unit(n, k) == [j \in 1..n |-> IF j = k THEN 1 ELSE 0]
Lens == 1..LMax
Locs == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 3>>, <<2, 3>>, <<1, 5>>, <<3, 5>>}
Dirs == {<<x, y, z>> \in (-4..4) \X (-4..4) \X (-4..4) : ISqrt(Len2(<<x, y, z>>)) > 0 /\ ISqrt(x * x + y * y) >= 0}
        \cup {<<12, 16, 15>>, <<-12, 16, 15>>, <<16, -12, -15>>, <<9, 12, 20>>, <<-9, -12, 20>>, <<12, 9, -20>>, <<15, 20, 60>>, <<-3, 4, -12>>}
Rots == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-3, 4, 5>>, <<-4, -3, 5>>, <<5, 12, 13>>}

Tests ==
  [kind : {"dist"}, l : Lens, k : 1..8, j : 1..12] \cup
  [kind : {"conc"}, l : Lens, k : 1..6, j : 1..12, at : Locs] \cup
  [kind : {"stat"}, l : Lens, k : 1..14, at : Locs] \cup
  [kind : {"interp"}, l : Lens, k : 1..12, xn : 0..6, xd : {3, 4, 6}] \cup
  [kind : {"stiff"}, l : Lens, k : 1..12, j : 1..12] \cup
  [kind : {"mass"}, l : Lens, k : 1..12, j : 1..12] \cup
  [kind : {"axes"}, v : Dirs, rot : Rots]

VARIABLE t
Init == t \in Tests
Next == UNCHANGED t
Spec == Init /\ [][Next]_t

---------------------------------------------------------------------------
\* The deformation of a member whose ends move by d, at x quarters of its length, times 64 l.
W(d, l, x) == DeformS(d, l, x, 4)
Boole(g(_)) == 7 * g(0) + 32 * g(1) + 12 * g(2) + 32 * g(3) + 7 * g(4)     \* times 1/90
Lin(a, b, x) == (4 - x) * a + x * b                                        \* times 4

\* Fixed-end loads do the load's work on every end displacement.
FixedEndDist == t.kind = "dist" =>
  LET q == Unit(8, t.k)
      d == Unit(12, t.j)
      f == DistS(q, t.l, 1)                     \* times 60 l
      g(x) == LET w == W(d, t.l, x)
              IN Lin(q[1], q[2], x) * w[1] + Lin(q[3], q[4], x) * w[2] + Lin(q[5], q[6], x) * w[3] + Lin(q[7], q[8], x) * w[4]
      \* work = l * Boole / 90 / (4 * 64 l)
  IN f[t.j] * 90 * 256 = 60 * t.l * Boole(g)
FixedEndConc == t.kind = "conc" =>
  LET F == Unit(6, t.k)
      d == Unit(12, t.j)
      rn == t.at[1]
      rd == t.at[2]
      f == ConcS(F, rn, rd, t.l)                \* times 60 rd^3 l
      w == DeformS(d, t.l, rn, rd)              \* times l rd^3
  IN f[t.j] = 60 * (F[1] * w[1] + F[2] * w[2] + F[3] * w[3] + F[4] * w[4] - F[5] * w[6] + F[6] * w[5])

\* Resultants, for combined loads too (t.k <= 8: distributed, else concentrated, both at 14).
Resultants == t.kind = "stat" =>
  LET q == IF t.k <= 8 THEN Unit(8, t.k) ELSE IF t.k = 14 THEN <<1, -2, 3, 1, -1, 2, 1, 3>> ELSE Zero8
      F == IF t.k > 8 /\ t.k < 14 THEN Unit(6, t.k - 8) ELSE IF t.k = 14 THEN <<2, -1, 3, 1, -2, 1>> ELSE Zero6
      rn == t.at[1]
      rd == t.at[2]
      l == t.l
      f == FefS(q, F, rn, rd, l)
      S == FS(l, rd)
      sum(a, b) == (a + b) * l                  \* times 2
      mom(a, b) == l * l * (a + 2 * b)          \* times 6
  IN /\ 6 * rd * (f[1] + f[7]) = S * rd * (3 * sum(q[1], q[2]) + 6 * F[1])
     /\ 6 * rd * (f[2] + f[8]) = S * rd * (3 * sum(q[3], q[4]) + 6 * F[2])
     /\ 6 * rd * (f[3] + f[9]) = S * rd * (3 * sum(q[5], q[6]) + 6 * F[3])
     /\ 6 * rd * (f[4] + f[10]) = S * rd * (3 * sum(q[7], q[8]) + 6 * F[4])
     /\ 6 * rd * (f[6] + f[12] + l * f[8]) = S * (rd * mom(q[3], q[4]) + 6 * F[2] * rn * l + 6 * rd * F[6])
     /\ 6 * rd * (f[5] + f[11] - l * f[9]) = S * (-(rd * mom(q[5], q[6])) - 6 * F[3] * rn * l + 6 * rd * F[5])
\* Mirror image: seen from the other end.
Mirrored == t.kind = "stat" =>
  LET q == IF t.k <= 8 THEN Unit(8, t.k) ELSE <<1, -2, 3, 1, -1, 2, 1, 3>>
      F == IF t.k > 8 THEN <<2, -1, 3, 1, -2, 1>> ELSE Zero6
      rn == t.at[1]
      rd == t.at[2]
      f == FefS(q, F, rn, rd, t.l)
      \* reflection in the plane across the member: axial forces and the moments about axes 2, 3 change sign
      g == FefS(<<-q[2], -q[1], q[4], q[3], q[6], q[5], q[8], q[7]>>, <<-F[1], F[2], F[3], F[4], -F[5], -F[6]>>, rd - rn, rd, t.l)
  IN g = <<-f[7], f[8], f[9], f[10], -f[11], -f[12], -f[1], f[2], f[3], f[4], -f[5], -f[6]>>

\* Interpolation: cubic with these end values and end slopes, slopes its derivative.
Interpolation == t.kind = "interp" =>
  LET d == Unit(12, t.k)
      l == t.l
      w(x) == DeformS(d, l, x, t.xd)
      s == DeformScale(l, t.xd)
      x == t.xn
      \* fourth differences of a cubic vanish, second differences of a line
      D4(i) == w(x)[i] - 4 * w(x + 1)[i] + 6 * w(x + 2)[i] - 4 * w(x + 3)[i] + w(x + 4)[i]
      D2(i) == w(x)[i] - 2 * w(x + 1)[i] + w(x + 2)[i]
      \* 12 h w' for cubics
      Dw(i) == 8 * (w(x + 1)[i] - w(x - 1)[i]) - (w(x + 2)[i] - w(x - 2)[i])
  IN /\ w(0) = <<s * d[1], s * d[2], s * d[3], s * d[4], s * d[6], -s * d[5]>>
     /\ w(t.xd) = <<s * d[7], s * d[8], s * d[9], s * d[10], s * d[12], -s * d[11]>>
     /\ D4(2) = 0 /\ D4(3) = 0 /\ D2(1) = 0 /\ D2(4) = 0
     /\ Dw(2) * t.xd = 12 * l * w(x)[5] /\ Dw(3) * t.xd = 12 * l * w(x)[6]

\* Stiffness: strain energy of the interpolated shapes.
P == [E |-> 60, mn |-> 1, md |-> 4, A |-> 2 * 12 * 9 * 8, I2 |-> 3 * 144 * 72, I3 |-> 5 * 144 * 72, J |-> 7 * 72]
Stiffness == t.kind = "stiff" =>
  LET l == t.l
      ej == Unit(12, t.j)
      ek == Unit(12, t.k)
      kk == KTimes(P, l, ek)
      \* second derivative times 64 l * l^2 / 16, at x quarters; first times 64 l * l / 4
      c(d, i, x) == W(d, l, x + 1)[i] - 2 * W(d, l, x)[i] + W(d, l, x - 1)[i]
      g(d, i) == W(d, l, 1)[i] - W(d, l, 0)[i]
      \* Simpson (at 0, 2, 4 quarters), times 1/6
      B(i) == c(ej, i, 0) * c(ek, i, 0) + 4 * c(ej, i, 2) * c(ek, i, 2) + c(ej, i, 4) * c(ek, i, 4)
      \* in units: EI l / 6 * (16 / (64 l^3))^2 * B = EI B / (96 l^5)
      G(i) == g(ej, i) * g(ek, i)       \* EA l (4 / (64 l^2))^2 = EA / (256 l^3)
      cl == l * l * l * l * l
      b3 == Div(B(2), 96) b2 == Div(B(3), 96) ga == Div(G(1), 256) gt == Div(G(4), 256)
  IN kk[t.j] = Div(P.E * P.I3, cl) * b3 + Div(P.E * P.I2, cl) * b2 + Div(P.E * P.A, l * l * l) * ga + Div(24 * P.J, l * l * l) * gt

\* Consistent mass: kinetic energy of the interpolated motions (Newton-Cotes with seven points, exact to degree 7).
Mass == t.kind = "mass" =>
  LET l == t.l
      p == [rho |-> 1, A |-> 1, J |-> 3]
      M == ConsM420(p, l)
      wt == <<41, 216, 27, 272, 27, 216, 41>>                         \* times 1/840
      v(d, x) == LET s == DeformS(d, l, x, 6) IN [i \in 1..4 |-> Div(s[i], l)]   \* times 216
      dj == Unit(12, t.j)
      dk == Unit(12, t.k)
      e(x) == LET a == v(dj, x)
                  b == v(dk, x)
              IN a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + 3 * a[4] * b[4]
      S == wt[1] * e(0) + wt[2] * e(1) + wt[3] * e(2) + wt[4] * e(3) + wt[5] * e(4) + wt[6] * e(5) + wt[7] * e(6)
      \* rigid translation: the whole mass
      row(i, q) == LET RECURSIVE go(_)
                       go(z) == IF z = 0 THEN 0 ELSE q[z] * M[i][z] + go(z - 1)
                   IN go(12)
      rigid(c) == [z \in 1..12 |-> IF z = c \/ z = c + 6 THEN 1 ELSE 0]
  IN /\ M[t.j][t.k] * 2 * 216 * 216 = l * S
     /\ M[t.j][t.k] = M[t.k][t.j]
     /\ t.j <= 3 => row(t.j, rigid(t.j)) + row(t.j + 6, rigid(t.j)) = 420 * l

Orthonormal == t.kind = "axes" =>
  LET o == <<1, -2, 3>>
      a == Axes(o, Add3(o, t.v), t.rot)
      r == a.R
      L == ISqrt(Len2(t.v))
      z == Axes(o, Add3(o, t.v), NoRot)
      b == Axes(Add3(o, t.v), o, NoRot)
  IN /\ \A i, j \in 1..3 : Dot3(r[i], r[j]) = IF i = j THEN a.D * a.D ELSE 0
     /\ Cross(r[1], r[2]) = Scale3(a.D, r[3])
     /\ Scale3(L, r[1]) = Scale3(a.D, t.v)
     \* unrolled: axis 3 horizontal, axis 2 upwards; vertical members: axis 2 along X
     /\ z.R[3][3] = 0
     /\ IF t.v[1] = 0 /\ t.v[2] = 0 THEN z.R[2] = <<z.D, 0, 0>> ELSE z.R[2][3] > 0
     \* rolled: the angle from axis 2 to its new direction
     /\ Dot3(r[2], z.R[2]) * t.rot[3] = t.rot[1] * a.D * z.D /\ Dot3(r[2], z.R[3]) * t.rot[3] = t.rot[2] * a.D * z.D
     \* the same member drawn the other way round
     /\ b.D = z.D /\ b.R = <<Scale3(-1, z.R[1]), z.R[2], Scale3(-1, z.R[3])>>
=============================================================================
