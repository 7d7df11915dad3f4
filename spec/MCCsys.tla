-------------------------------- MODULE MCCsys --------------------------------
(***************************************************************************)
(* All orientations a coordinate system can reach by turns from a set of   *)
(* quaternions, and what must hold of each of them.  With EXPORT=1 every   *)
(* step of the model is printed for replay on the code.                    *)
(***************************************************************************)
EXTENDS HSCsys, IOUtils, Json, FiniteSets

DMAX == CHOOSE n \in 1..3125 : ToString(n) = IOEnv.DMAX
DEPTH == CHOOSE n \in 0..20 : ToString(n) = IOEnv.DEPTH
EXPORT == IOEnv.EXPORT = "1"

\* (w, x): half-angle tangents.  1:1 quarter turn, 0:1 half turn, 2:1 and 1:2 the 3-4-5 angles.
Half == << <<1, 1>>, <<1, -1>>, <<0, 1>>, <<2, 1>>, <<1, -2>> >>
Vecs == << [w |-> 1, v |-> <<1, 1, 1>>], [w |-> 1, v |-> <<-1, 1, -1>>], [w |-> 0, v |-> <<1, 1, 0>>], [w |-> 0, v |-> <<0, -1, 1>>] >>
Ops == [k \in 1..(6 * Len(Half) + Len(Vecs)) |->
          IF k <= 3 * Len(Half) THEN [op |-> "own", k |-> ((k - 1) % 3) + 1, w |-> Half[((k - 1) \div 3) + 1][1], x |-> Half[((k - 1) \div 3) + 1][2], v |-> <<0, 0, 0>>]
          ELSE IF k <= 6 * Len(Half) THEN LET m == k - 3 * Len(Half) IN
               [op |-> "glob", k |-> ((m - 1) % 3) + 1, w |-> Half[((m - 1) \div 3) + 1][1], x |-> Half[((m - 1) \div 3) + 1][2], v |-> <<0, 0, 0>>]
          ELSE [op |-> "vec", k |-> 0, w |-> Vecs[k - 6 * Len(Half)].w, x |-> 1, v |-> Vecs[k - 6 * Len(Half)].v]]
Do(f, o) == CASE o.op = "own" -> TurnOwn(f, o.k, o.w, o.x) [] o.op = "glob" -> TurnGlobal(f, o.k, o.w, o.x) [] OTHER -> TurnVec(f, o.w, o.v)

VARIABLES f, hist
Init == /\ f = [D |-> 1, R |-> Id3] /\ hist = <<>>
        /\ EXPORT => PrintT("A " \o ToJson(Ops))
Next == \E k \in DOMAIN Ops :
          /\ Len(hist) < DEPTH
          /\ f.D * (IF Ops[k].op = "vec" THEN QN(Ops[k].w, Ops[k].v) ELSE Ops[k].w * Ops[k].w + Ops[k].x * Ops[k].x) <= DMAX
          /\ f' = Do(f, Ops[k])
          /\ hist' = Append(hist, k)
          /\ EXPORT => PrintT("H " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<f, hist>>
View == f

RightHanded == IsFrame(f.D, f.R)
Eq(a, b) == a.D = b.D /\ a.R = b.R
\* A turn and its opposite cancel; two half-way turns make the whole; the axis stays.
OwnTurns == \A k \in 1..3 : \A h \in DOMAIN Half :
  LET w == Half[h][1]
      x == Half[h][2]
      g == TurnOwn(f, k, w, x)
  IN /\ Eq(TurnOwn(g, k, w, -x), f)
     /\ Eq(TurnOwn(g, k, w, x), TurnOwn(f, k, w * w - x * x, 2 * w * x))
     /\ \A c \in 1..3 : g.R[k][c] * f.D = f.R[k][c] * g.D
     \* about its own axis is about that vector
     /\ Eq(g, TurnVec(f, w * f.D, Scale3(x, f.R[k])))
     \* the angle between old and new of the next axis, right-hand sense
     /\ Dot3(f.R[Nx(k)], g.R[Nx(k)]) * (w * w + x * x) = (w * w - x * x) * f.D * g.D
     /\ Dot3(f.R[Nx(Nx(k))], g.R[Nx(k)]) * (w * w + x * x) = 2 * w * x * f.D * g.D
\* About a global axis: the components along it stay, the others turn in the plane.
GlobalTurns == \A k \in 1..3 : \A h \in DOMAIN Half :
  LET w == Half[h][1]
      x == Half[h][2]
      N == w * w + x * x
      g == TurnGlobal(f, k, w, x)
      p == Nx(k)
      q == Nx(Nx(k))
  IN \A r \in 1..3 : /\ g.R[r][k] * f.D = f.R[r][k] * g.D
                     /\ N * g.R[r][p] * f.D = ((w * w - x * x) * f.R[r][p] - 2 * w * x * f.R[r][q]) * g.D
                     /\ N * g.R[r][q] * f.D = (2 * w * x * f.R[r][p] + (w * w - x * x) * f.R[r][q]) * g.D
\* Three points, normal and guide determine the axes: no other reachable system satisfies the relation.
Flip == { <<1, 1, -1>>, <<1, -1, 1>>, <<-1, 1, 1>>, <<1, -1, -1>>, <<-1, -1, 1>>, <<-1, 1, -1>>, <<-1, -1, -1>> }
Unique == LET O == <<3, -2, 1>>
              A == Add3(O, f.R[1])
              B == Add3(O, Add3(Scale3(-2, f.R[1]), f.R[2]))
              G == Add3(Scale3(3, f.R[3]), f.R[2])
              sg(s) == [m \in 1..3 |-> Scale3(s[m], f.R[m])]
          IN /\ By3(O, A, B, f.D, f.R) /\ ByN(Scale3(2, f.R[3]), G, f.D, f.R)
             /\ ~Line3(O, A, B) /\ ~LineN(f.R[3], G)
             /\ \A s \in Flip : ~By3(O, A, B, f.D, sg(s)) /\ ~ByN(f.R[3], G, f.D, sg(s))
             /\ \A k \in DOMAIN Ops : LET g == Do(f, Ops[k]) IN By3(O, A, B, g.D, g.R) => Eq(f, g)
=============================================================================
