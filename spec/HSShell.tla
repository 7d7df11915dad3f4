------------------------------- MODULE HSShell -------------------------------
(***************************************************************************)
(* Plane shells of three or four corners: what any flat shell does under a *)
(* field of constant strain and constant curvature, exactly.  Corners have *)
(* whole-number coordinates in a plane of their own (a frame); everything  *)
(* is said in that plane, so it must not depend on where the plane lies.   *)
(*                                                                         *)
(* A field is <<u0,v0, gxx,gxy,gyx,gyy, w0,wx,wy, kxx,kyy,kxy>>:           *)
(*   (u,v) = (u0,v0) + G p,  w = w0 + wx x + wy y + quadratic(k),          *)
(*   turns (w,y ; -w,x), no turn in the plane beyond the one of the field. *)
(* Units: in-plane forces E0 t0 / (4 (md^2-mn^2)), out-of-plane forces and *)
(* moments E0 t0^3 / (24 Lc (md^2-mn^2)), Poisson's ratio mn/md, Lc a      *)
(* common multiple of the squared side lengths.                            *)
(***************************************************************************)
EXTENDS HSFrame

X2(a, b) == a[1] * b[2] - a[2] * b[1]
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul2(k, a) == <<k * a[1], k * a[2]>>
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Nxt(P, k) == (k % Len(P)) + 1
Prv(P, k) == ((k + Len(P) - 2) % Len(P)) + 1
Out(d) == <<d[2], -d[1]>>            \* a quarter turn clockwise: outwards of a counter-clockwise side
Corner(P, k) == X2(Sub2(P[k], P[Prv(P, k)]), Sub2(P[Nxt(P, k)], P[k]))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
InLine(P) == Corner(P, 2) = 0
Sense(P) == Sgn(Corner(P, 2))
Convex(P) == \A k \in DOMAIN P : Sgn(Corner(P, k)) = Sense(P) /\ Sense(P) # 0
Area2(P) == Abs(IF Len(P) = 3 THEN Corner(P, 2) ELSE X2(Sub2(P[3], P[1]), Sub2(P[4], P[2])))

Sym2(M, a) == <<M[1] * a[1] + M[3] * a[2], M[3] * a[1] + M[2] * a[2]>>        \* <<xx, yy, xy>>
Stress(mn, md, f) == <<2 * md * (md * f[3] + mn * f[6]), 2 * md * (md * f[6] + mn * f[3]), md * (md - mn) * (f[4] + f[5])>>
Bend(mn, md, f) == <<md * (md * f[10] + mn * f[11]), md * (md * f[11] + mn * f[10]), md * (md - mn) * f[12]>>

\* Forces of the membrane at corner k: the stress over half of each adjacent side.
MembraneAt(P, S, k) == Mul2(Sense(P), Sym2(S, Out(Sub2(P[Nxt(P, k)], P[Prv(P, k)]))))
\* The plate: twisting moments along a side gather at its ends, normal moments load both ends alike.
Side(P, k) == Sub2(P[Nxt(P, k)], P[k])
Twist(P, M, k, Lc) == LET d == Side(P, k) IN Div(Lc, Dot2(d, d)) * Dot2(d, Sym2(M, Out(d)))
Normal(P, M, k, Lc) == LET d == Side(P, k)
                           q == Div(Lc, Dot2(d, d)) * Dot2(Out(d), Sym2(M, Out(d)))
                       IN Mul2(q, Out(d))
PlateAt(P, M, k, Lc) ==
  LET w == 2 * (Twist(P, M, Prv(P, k), Lc) - Twist(P, M, k, Lc))
      g == Add2(Normal(P, M, k, Lc), Normal(P, M, Prv(P, k), Lc))
  IN Scale3(Sense(P), <<w, g[2], -g[1]>>)

\* Motions without resistance.  The membrane: three rigid ones and one of the turns about the normal.  The plate: three
\* rigid ones, and in some shapes (rectangles among them) one that the four points at which the stiffness is evaluated miss.
\* A triangle has no stiffness against turns about its normal at all, and its plate no other motion without resistance.
IsTri(s) == Len(s.P) = 3
NullityM(s) == IF IsTri(s) THEN {6} ELSE {4}
NullityP(s) == IF IsTri(s) THEN {3} ELSE {3, 4}

IsM(s) == s.ty \in {"shell", "membrane"}
IsP(s) == s.ty \in {"shell", "plate"}
\* The six forces at corner k of shell s under field f.
ForceAt(c, s, f, k) ==
  LET m == IF IsM(s) THEN Mul2(s.e * s.th, MembraneAt(s.P, Stress(c.mn, c.md, f), k)) ELSE <<0, 0>>
      p == IF IsP(s) THEN Scale3(s.e * s.th * s.th * s.th, PlateAt(s.P, Bend(c.mn, c.md, f), k, c.Lc)) ELSE <<0, 0, 0>>
  IN <<m[1], m[2], p[1], p[2], p[3], 0>>
\* The sixth is not determined by statics where the membrane is strained.
Strained(f) == f[3] # 0 \/ f[4] # 0 \/ f[5] # 0 \/ f[6] # 0
Known6(s, f) == IsTri(s) \/ ~IsM(s) \/ ~Strained(f)

\* Displacements (and turns) of a point.
FieldAt(f, p) ==
  <<f[1] + f[3] * p[1] + f[4] * p[2], f[2] + f[5] * p[1] + f[6] * p[2],
    f[7] + f[8] * p[1] + f[9] * p[2] + Div(f[10] * p[1] * p[1] + f[11] * p[2] * p[2], 2) + f[12] * p[1] * p[2],
    f[9] + f[11] * p[2] + f[12] * p[1], -(f[8] + f[10] * p[1] + f[12] * p[2]), 0>>

(***************************************************************************)
(* A structure of shells: nodes (each in one of the frames), sections,     *)
(* shells, restraints and loads, all in the frame of the node.             *)
(***************************************************************************)
None == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
InitSh(c) == [c |-> c, nodes |-> None, secs |-> None, shells |-> None, rest |-> None, loads |-> None]
Add6(a, b) == [i \in 1..6 |-> a[i] + b[i]]

AddShell(s, a) ==
  IF ~(\A k \in DOMAIN a.ns : a.ns[k] \in DOMAIN s.nodes) \/ a.sec \notin DOMAIN s.secs THEN [s |-> s, ok |-> FALSE]
  ELSE LET P == [k \in 1..Len(a.ns) |-> s.nodes[a.ns[k]].p]
           z == s.secs[a.sec]
       IN IF InLine(P) THEN [s |-> s, ok |-> FALSE]
          ELSE IF ~Convex(P) \/ (\E k \in DOMAIN a.ns : s.nodes[a.ns[k]].fr # s.nodes[a.ns[1]].fr) THEN Assert(FALSE, "driver: shell is not plane and convex")
          ELSE [s |-> [s EXCEPT !.shells = Put(s.shells, a.n, [ns |-> a.ns, P |-> P, fr |-> s.nodes[a.ns[1]].fr, e |-> z.e, th |-> z.th, ty |-> z.ty])], ok |-> TRUE]
ApplySh(s, op, a) ==
  CASE op = "node"  -> [s |-> [s EXCEPT !.nodes = Put(s.nodes, a.n, [fr |-> a.fr, p |-> a.p])], ok |-> TRUE]
    [] op = "sec"   -> [s |-> [s EXCEPT !.secs = Put(s.secs, a.n, [e |-> a.e, th |-> a.th, ty |-> a.ty])], ok |-> TRUE]
    [] op = "shell" -> AddShell(s, a)
    [] op = "rest"  -> [s |-> [s EXCEPT !.rest = Put(s.rest, a.n, a.r)], ok |-> TRUE]
    [] op = "load"  -> [s |-> [s EXCEPT !.loads = Put(s.loads, a.n, a.v)], ok |-> TRUE]
    [] op \in {"beam", "solve", "look"} -> [s |-> s, ok |-> TRUE]

\* Forces of the whole structure at node n when the nodes of frame fr move with field f (the others stay).
RECURSIVE SumAt(_, _, _, _)
SumAt(s, S, f, n) ==
  IF S = {} THEN Zero6
  ELSE LET h == CHOOSE x \in S : TRUE
           sh == s.shells[h]
       IN Add6(ForceAt(s.c, sh, f, CHOOSE k \in DOMAIN sh.ns : sh.ns[k] = n), SumAt(s, S \ {h}, f, n))
At(s, n) == {h \in DOMAIN s.shells : \E k \in DOMAIN s.shells[h].ns : s.shells[h].ns[k] = n}
NodeForce(s, f, fr, n) == IF s.nodes[n].fr # fr THEN Zero6 ELSE SumAt(s, At(s, n), f, n)
NodeKnown6(s, f, fr, n) == s.nodes[n].fr # fr \/ \A h \in At(s, n) : Known6(s.shells[h], f)

RestOf(s, n) == IF n \in DOMAIN s.rest THEN s.rest[n] ELSE [i \in 1..6 |-> FALSE]
LoadOf(s, n) == IF n \in DOMAIN s.loads THEN s.loads[n] ELSE Zero6
\* The driver's field is the solution: it vanishes where restrained and its forces are the loads elsewhere.
Solves(s, f, fr) ==
  \A n \in DOMAIN s.nodes : \A i \in 1..6 :
    /\ RestOf(s, n)[i] => FieldAt(f, s.nodes[n].p)[i] = 0
    /\ ~RestOf(s, n)[i] => i # 6 /\ LoadOf(s, n)[i] = NodeForce(s, f, fr, n)[i]

\* b is a turned (first corner moved by sh), enlarged (k times) and moved copy of a.
Copy(a, b, k, sh) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Sub2(b[i], b[1]) = Mul2(k, Sub2(a[((i - 1 + sh) % Len(a)) + 1], a[sh + 1]))
CopyOf(a, b) == CHOOSE x \in (1..9) \X (0..Len(a) - 1) : Copy(a, b, x[1], x[2])
IsCopy(a, b) == \E x \in (1..9) \X (0..Len(a) - 1) : Copy(a, b, x[1], x[2])
=============================================================================
