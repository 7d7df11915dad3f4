-------------------------------- MODULE HSCsys --------------------------------
(***************************************************************************)
(* Coordinate systems: a set of them, each with an origin and three axes.  *)
(* Axes are exact: the rows of the integer matrix R divided by D.          *)
(* Turns are given by integer quaternions (half the angle has the tangent  *)
(* x/w), so that every turn is a rational matrix.                          *)
(***************************************************************************)
EXTENDS HSFrame

IsFrame(D, R) ==
  /\ D > 0
  /\ \A i \in 1..3 : Dot3(R[i], R[i]) = D * D
  /\ Cross(R[1], R[2]) = Scale3(D, R[3])
  /\ Cross(R[2], R[3]) = Scale3(D, R[1])

ReduceF(D, R) == LET t == ReduceT([D |-> D, R |-> R]) IN [D |-> t.D, R |-> t.R]

\* Along: b is a positive multiple of a.
Along(a, b) == Cross(a, b) = <<0, 0, 0>> /\ Dot3(a, b) > 0

\* Three points: x through A, B on the positive y side of the x-y plane.
By3(O, A, B, D, R) == LET a == Vec3(O, A)
                          b == Vec3(O, B)
                      IN IsFrame(D, R) /\ Along(R[1], a) /\ Dot3(R[3], b) = 0 /\ Dot3(R[2], b) > 0
Line3(O, A, B) == Cross(Vec3(O, A), Vec3(O, B)) = <<0, 0, 0>>
\* Normal and guide: z along the normal, the guide in the y-z plane on the positive y side.
ByN(n, g, D, R) == IsFrame(D, R) /\ Along(R[3], n) /\ Dot3(R[1], g) = 0 /\ Dot3(R[2], g) > 0
LineN(n, g) == Cross(n, g) = <<0, 0, 0>>

\* The turn of quaternion (w; v): matrix times N.
QN(w, v) == w * w + Dot3(v, v)
QMat(w, v) ==
  LET x == v[1]
      y == v[2]
      z == v[3]
  IN << <<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
        <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
        <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>> >>
MulMV(M, r) == <<Dot3(M[1], r), Dot3(M[2], r), Dot3(M[3], r)>>
TurnVec(f, w, v) == LET M == QMat(w, v)
                        t == ReduceF(f.D * QN(w, v), [i \in 1..3 |-> MulMV(M, f.R[i])])
                    IN [f EXCEPT !.D = t.D, !.R = t.R]

\* A turn about the system's own k-th axis: the two others turn in their plane.
Nx(k) == (k % 3) + 1
TurnOwn(f, k, w, x) ==
  LET c == w * w - x * x
      s == 2 * w * x
      N == w * w + x * x
      i == Nx(k)
      j == Nx(Nx(k))
      p == Add3(Scale3(c, f.R[i]), Scale3(s, f.R[j]))
      q == Add3(Scale3(-s, f.R[i]), Scale3(c, f.R[j]))
      t == ReduceF(f.D * N, [m \in 1..3 |-> IF m = k THEN Scale3(N, f.R[k]) ELSE IF m = i THEN p ELSE q])
  IN [f EXCEPT !.D = t.D, !.R = t.R]
UnitV(k) == [m \in 1..3 |-> IF m = k THEN 1 ELSE 0]
TurnGlobal(f, k, w, x) == TurnVec(f, w, Scale3(x, UnitV(k)))
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>

Has(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Frm(a) == [O |-> a.O, D |-> a.D, R |-> a.R, n |-> a.n]
InitCs == [x \in {} |-> 0]

(***************************************************************************)
(* Members.  A member leaves its start in the horizontal direction         *)
(* (p, q)/r and the vertical direction s; only whether it has a horizontal *)
(* and a vertical part, not how large these are, decides the pattern of    *)
(* its axes.  A row is given with every entry divided by the length ratio  *)
(* it carries (entries along and across the plan direction, times r).      *)
(***************************************************************************)
PlanDir(P) == P[3] > 0 /\ P[1] * P[1] + P[2] * P[2] = P[3] * P[3]
MemberR(P, s) ==
  IF P = <<0, 0, 0>> THEN << <<0, 0, s>>, <<1, 0, 0>>, <<0, s, 0>> >>
  ELSE << <<P[1], P[2], s>>, <<-s * P[1], -s * P[2], 1>>, <<P[2], -P[1], 0>> >>
\* Rolled by q quarter turns about its own x axis.
Roll4(R, q) == CASE q % 4 = 0 -> R
                 [] q % 4 = 1 -> <<R[1], R[3], Scale3(-1, R[2])>>
                 [] q % 4 = 2 -> <<R[1], Scale3(-1, R[2]), Scale3(-1, R[3])>>
                 [] OTHER     -> <<R[1], Scale3(-1, R[3]), R[2]>>
MemberOK(P, s) == (P = <<0, 0, 0>> /\ s \in {1, -1}) \/ (PlanDir(P) /\ s \in {-1, 0, 1})

(* cs: identifier -> system.  Result: the new set and whether the call is accepted. *)
ApplyCs(cs, op, a) ==
  LET keep == [ok |-> FALSE, cs |-> cs]
      to(f) == [ok |-> TRUE, cs |-> Put(cs, a.i, f)]
      cur == cs[a.i]
  IN CASE op = "new3" -> IF Line3(a.O, a.A, a.B) THEN keep
                         ELSE IF Assert(By3(a.O, a.A, a.B, a.D, a.R), "driver: not the frame of three points") THEN to(Frm(a)) ELSE keep
       [] op = "newn" -> IF LineN(a.N, a.G) THEN keep
                         ELSE IF Assert(ByN(a.N, a.G, a.D, a.R), "driver: not the frame of a normal") THEN to(Frm(a)) ELSE keep
       [] op = "set3" -> IF Line3(a.O, a.A, a.B) THEN keep
                         ELSE IF Assert(By3(a.O, a.A, a.B, a.D, a.R), "driver: not the frame of three points")
                              THEN to([Frm(a) EXCEPT !.n = cur.n]) ELSE keep
       [] op = "origin" -> to([cur EXCEPT !.O = a.O])
       [] op = "align"  -> to([cur EXCEPT !.D = 1, !.R = Id3])
       [] op = "own"    -> to(TurnOwn(cur, a.k, a.w, a.x))
       [] op = "glob"   -> to(TurnGlobal(cur, a.k, a.w, a.x))
       [] op = "member" -> IF Assert(MemberOK(a.P, a.s), "driver: not a direction") THEN to([R |-> MemberR(a.P, a.s), q |-> 0]) ELSE keep
       [] op = "mroll"  -> to([cur EXCEPT !.q = a.q])
       [] op = "vec"    -> to(TurnVec(cur, a.w, Scale3(a.x, a.v)))
       [] OTHER -> Assert(FALSE, <<"driver: unknown call", op>>)
=============================================================================
