------------------------------- MODULE MCShell -------------------------------
(***************************************************************************)
(* The corner forces of HSShell against first principles, for every convex *)
(* triangle and quadrilateral with whole-number corners up to NMAX, any    *)
(* sense and first corner, and every field of the basis: they balance, are *)
(* none in a rigid motion, and do the work of the strained and bent area.  *)
(***************************************************************************)
EXTENDS HSShell, IOUtils, FiniteSets

NMAX == CHOOSE n \in 1..9 : ToString(n) = IOEnv.NMAX
VARIABLES P, c
Pt == (0..NMAX) \X (0..NMAX)
Mus == {<<0, 1>>, <<3, 10>>, <<1, 4>>}
RECURSIVE Lcm(_, _)
Lcm(Q, k) == IF k = 0 THEN 1 ELSE LET d == Side(Q, k)
                                      n == Dot2(d, d)
                                      m == Lcm(Q, k - 1)
                                  IN (m \div Gcd(m, n)) * n
\* Two corners and Poisson's ratio, then the other two.
Init == P \in [1..2 -> Pt] /\ P[1] # P[2] /\ c \in {[mn |-> m[1], md |-> m[2], Lc |-> 0] : m \in Mus}
Next == /\ c.Lc = 0
        /\ \E p, q \in Pt : P' = P \o <<p, q>> \/ (q = <<0, 0>> /\ P' = Append(P, p))
        /\ Convex(P')
        /\ c' = [c EXCEPT !.Lc = Lcm(P', Len(P'))]
Spec == Init /\ [][Next]_<<P, c>>
Done == c.Lc > 0

E12(j, v) == [i \in 1..12 |-> IF i = j THEN v ELSE 0]
Basis == {E12(j, 2) : j \in 1..12}
Sh(Q) == [P |-> Q, e |-> 1, th |-> 1, ty |-> "shell"]
F(Q, f) == TLCEval([k \in DOMAIN P |-> ForceAt(c, Sh(Q), f, k)])
SumK(x) == x[1] + x[2] + x[3] + (IF Len(P) = 4 THEN x[4] ELSE 0)
Balanced == Done => \A f \in Basis : LET R == F(P, f) IN
  /\ \A j \in 1..3 : SumK([k \in DOMAIN P |-> R[k][j]]) = 0
  /\ SumK([k \in DOMAIN P |-> P[k][1] * R[k][2] - P[k][2] * R[k][1]]) = 0
  /\ SumK([k \in DOMAIN P |-> R[k][4] + P[k][2] * R[k][3]]) = 0
  /\ SumK([k \in DOMAIN P |-> R[k][5] - P[k][1] * R[k][3]]) = 0
Rigid == {E12(j, 2) : j \in {1, 2, 7, 8, 9}} \cup {[i \in 1..12 |-> IF i = 4 THEN -2 ELSE IF i = 5 THEN 2 ELSE 0]}
Free == Done => \A f \in Rigid : F(P, f) = [k \in DOMAIN P |-> Zero6]
\* Work of the forces of f in the motion g: stress times strain times area (in the units of HSShell).
Work(R, g) == LET U == [k \in DOMAIN P |-> FieldAt(g, P[k])] IN
  <<SumK([k \in DOMAIN P |-> R[k][1] * U[k][1] + R[k][2] * U[k][2]]), SumK([k \in DOMAIN P |-> R[k][3] * U[k][3] + R[k][4] * U[k][4] + R[k][5] * U[k][5]])>>
Energy == Done => \A f \in Basis :
  LET S == Stress(c.mn, c.md, f)
      M == Bend(c.mn, c.md, f)
      R == F(P, f)
  IN \A g \in Basis : Work(R, g) = <<Area2(P) * (S[1] * g[3] + S[2] * g[6] + S[3] * (g[4] + g[5])),
                          c.Lc * Area2(P) * (M[1] * g[10] + M[2] * g[11] + 2 * M[3] * g[12])>>
\* The listing of the corners does not matter.
Turned == Done => \A f \in Basis :
  LET R == F(P, f)
  IN /\ F([j \in DOMAIN P |-> P[Nxt(P, j)]], f) = [k \in DOMAIN P |-> R[Nxt(P, k)]]
     /\ F([j \in DOMAIN P |-> P[Len(P) + 1 - j]], f) = [k \in DOMAIN P |-> R[Len(P) + 1 - k]]
\* Enlarging does nothing to stresses: forces of the membrane grow with the size, bending by curvature likewise.
Enlarged == Done => \A f \in Basis : \A k \in DOMAIN P :
  LET Q == [j \in DOMAIN P |-> Mul2(2, P[j])]
      a == MembraneAt(P, Stress(c.mn, c.md, f), k)
      b == PlateAt(P, Bend(c.mn, c.md, f), k, c.Lc)
  IN /\ MembraneAt(Q, Stress(c.mn, c.md, f), k) = Mul2(2, a)
     /\ PlateAt(Q, Bend(c.mn, c.md, f), k, 4 * c.Lc) = <<4 * b[1], 8 * b[2], 8 * b[3]>>
=============================================================================
