------------------------------ MODULE HSDynamics ------------------------------
(***************************************************************************)
(* Vibration modes and time histories.  As in HSSolution a driver proposes *)
(* and the operators below check exactly: every proposed mode satisfies    *)
(* the eigen equation of stiffness against lumped mass under the case's    *)
(* restraints, the modes are orthogonal and as many as there are free      *)
(* components with mass, so none is missing; every proposed state of a     *)
(* time history satisfies the central difference equation.                 *)
(***************************************************************************)
EXTENDS HSSolution

\* Lumped mass at a node, times 10: its own, and half of every adjoining member's (lengths in fifths).
Half10(b) == IF b.p.rho = 0 THEN 0 ELSE b.p.rho * b.p.A * ISqrt(Len2(Vec3(b.la, b.lb)))
MassAt10(m, x) ==
  LET n == m.nodes[x]
      S == {<<z, j>> \in (1..Len(m.beams)) \X {0, 1} : IF j = 0 THEN m.beams[z].s = n.n ELSE m.beams[z].e = n.n}
      half(ij) == LET h == Half10(m.beams[ij[1]]) IN <<h, h, h, 0, 0, 0>>
  IN AddV(ScaleV(10, n.mass), SumSet6([ij \in S |-> half(ij)], S))
MassMap(m) == TLCEval([n \in NodeNames(m) |-> MassAt10(m, Idx(m.nodes, n))])
FreeSet(m, c) == {nk \in NodeNames(m) \X (1..6) : ~RestOf(m, c, nk[1])[nk[2]]}

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

\* Forces of the members' deformation at the nodes (global axes, times 25).
Restoring(m, U, DL) ==
  LET EL == TLCEval([n \in DOMAIN DL |-> LET b == BeamByName(m, n) IN KTimes(b.p, BeamL(b), DL[n])])
      ok == \A i \in DOMAIN m.beams :
              LET b == m.beams[i] IN
              /\ Assert(Compatible(b, BeamT(b), U[b.s], U[b.e], DL[b.n]), <<"driver: incompatible", b.n>>)
              /\ \A k \in 1..12 : b.rel[k] => Assert(EL[b.n][k] = 0, <<"driver: release carries force", b.n, k>>)
  IN IF ok THEN TLCEval([n \in NodeNames(m) |-> MemberSum(m, EL, n)]) ELSE [n \in NodeNames(m) |-> Zero6]

---------------------------------------------------------------------------
(* Modes.  w.ms: sequence of [ln, ld, U, DL] with eigenvalue ln/ld. *)
ModalSol(m, c, num, w) ==
  LET M10 == MassMap(m)
      free == TLCEval(FreeSet(m, c))
      heavy == TLCEval({nk \in free : M10[nk[1]][nk[2]] > 0})
      ms == TLCEval([x \in DOMAIN w.ms |-> [ln |-> w.ms[x].ln, ld |-> w.ms[x].ld, U |-> Fn(w.ms[x].U), DL |-> Fn(w.ms[x].DL)]])
      mov == TLCEval([x \in DOMAIN ms |-> {nk \in heavy : ms[x].U[nk[1]][nk[2]] # 0}])
      ip(x, y) == LET S == mov[x] \cap mov[y]
                  IN SumOver([nk \in S |-> M10[nk[1]][nk[2]] * ms[x].U[nk[1]][nk[2]] * ms[y].U[nk[1]][nk[2]]], S)
      eig(x) == LET R == Restoring(m, ms[x].U, ms[x].DL) IN
                \A n \in NodeNames(m) : \A k \in 1..6 :
                  LET g == Gcd(10, M10[n][k]) IN
                  IF <<n, k>> \in free
                  THEN Assert(R[n][k] * ms[x].ld * (10 \div g) = RD * ms[x].ln * (M10[n][k] \div g) * ms[x].U[n][k], <<"driver: not a mode", c, x, n, k>>)
                  ELSE Assert(ms[x].U[n][k] = 0, <<"driver: restraint moves", c, n, k>>)
      ok == /\ Len(ms) = Cardinality(heavy)
            /\ \A x \in DOMAIN ms : ms[x].ld > 0 /\ ms[x].ln > 0 /\ eig(x)
            /\ \A x \in 2..Len(ms) : ms[x - 1].ln * ms[x].ld <= ms[x].ln * ms[x - 1].ld
            /\ \A x \in DOMAIN ms : ip(x, x) > 0 /\ \A y \in 1..(x - 1) : ip(x, y) = 0
      k == IF num < Cardinality(free) THEN num ELSE Cardinality(free)
  IN IF Assert(ok, <<"driver: bad modes", c>>) /\ Assert(k >= 1 /\ k <= Len(ms), <<"driver: modes without mass", c>>)
     THEN [stable |-> TRUE, num |-> FALSE, k |-> k, ms |-> ms, G |-> TLCEval([x \in DOMAIN ms |-> ip(x, x)])]
     ELSE [stable |-> FALSE, num |-> FALSE]

\* Eigenvalue of mode x times ld and a factor.
SameEig(sol, x, y) == sol.ms[x].ln * sol.ms[y].ld = sol.ms[y].ln * sol.ms[x].ld
\* x..y are all the modes with one eigenvalue.
IsGroup(sol, x, y) == /\ x <= y /\ y <= Len(sol.ms)
                      /\ \A z \in x..y : SameEig(sol, x, z)
                      /\ x > 1 => ~SameEig(sol, x - 1, x)
                      /\ y < Len(sol.ms) => ~SameEig(sol, y, y + 1)
(* The projection on the modes x..y: sum of (mode)(mode)^T over mass-normalised  *)
(* modes, times s/10.  It does not depend on signs nor on which basis of a       *)
(* multiple eigenvalue was found.                                                *)
Projection(sol, x, y, s, ns) ==
  [r \in 1..(6 * Len(ns)) |-> [q \in 1..(6 * Len(ns)) |->
     SumOver([z \in x..y |-> Div(s, sol.G[z]) * sol.ms[z].U[ns[((r - 1) \div 6) + 1]][((r - 1) % 6) + 1]
                                              * sol.ms[z].U[ns[((q - 1) \div 6) + 1]][((q - 1) % 6) + 1]], x..y)]]

---------------------------------------------------------------------------
(***************************************************************************)
(* Time history by central differences from rest.  With the units of time  *)
(* and damping of the trace the equation of step t is                      *)
(*   al m (u+ - 2u + u-) + be (m + K)(u+ - u-) + e K u = e f(t)            *)
(* (m: mass, K: stiffness, f: load; the damping is a0 m + a1 K of the      *)
(* Rayleigh type).  w.h: the states 0, 1, 2, ... as [U, DL].               *)
(***************************************************************************)
LoadAt4(m, c, n, t) ==       \* nodal and equivalent member loads, times 4*25
  LET S == {<<x, j>> \in (1..Len(m.beams)) \X {0, 1} : IF j = 0 THEN m.beams[x].s = n ELSE m.beams[x].e = n}
      part(xj) == LET b == m.beams[xj[1]]
                      tt == BeamT(b)
                  IN ScaleV(Div(RD, tt.D), Half(ToGlobal(tt, CaseBeamAt4(m, m.cases[c], b.n, BeamL(b), t)), xj[2]))
  IN AddV(SumSet6([xj \in S |-> part(xj)], S), ScaleV(RD, CaseNodalAt4(m, m.cases[c], n, t)))
Rest0(m) == [n \in NodeNames(m) |-> Zero6]
HistorySol(m, c, w) ==
  LET M10 == MassMap(m)
      free == TLCEval(FreeSet(m, c))
      pl == m.cases[c].plist
      n == MinLen(pl, 1)
      I == m.cases[c].int
      H == TLCEval([x \in DOMAIN w.h |-> [U |-> Fn(w.h[x].U), DL |-> Fn(w.h[x].DL)]])
      R == TLCEval([x \in DOMAIN H |-> Restoring(m, H[x].U, H[x].DL)])
      U(x) == IF x = 0 THEN Rest0(m) ELSE H[x].U
      Q(x) == IF x = 0 THEN Rest0(m) ELSE R[x]
      step(x) == \* from states x-1 and x to x+1, with the load at x-1
        \A nk \in free :
          LET a == nk[1]
              k == nk[2]
              g == Gcd(10, M10[a][k])
              mm == M10[a][k] \div g
              z == 10 \div g
              acc == RD * mm * (I.al * (U(x + 1)[a][k] - 2 * U(x)[a][k] + U(x - 1)[a][k]) + I.be * (U(x + 1)[a][k] - U(x - 1)[a][k]))
              fr == z * (I.be * (Q(x + 1)[a][k] - Q(x - 1)[a][k]) + I.e * Q(x)[a][k])
          IN Assert(4 * (acc + fr) = z * I.e * LoadAt4(m, c, a, x - 1)[k], <<"driver: not the next state", c, x, a, k>>)
      ok == /\ Len(pl) > 0
            /\ Len(H) = n + 1
            /\ I.e > 0 /\ I.al > 0
            /\ H[1].U = Rest0(m)
            /\ \A x \in DOMAIN H : \A a \in NodeNames(m) : \A k \in 1..6 : <<a, k>> \in free \/ H[x].U[a][k] = 0
            /\ \A nk \in free : M10[nk[1]][nk[2]] > 0
            /\ \A b \in DOMAIN m.beams : m.beams[b].rel = F12
            /\ \A x \in 1..n : step(x)
  IN IF Assert(ok, <<"driver: bad history", c>>) THEN [stable |-> TRUE, num |-> FALSE, h |-> H, plain |-> \A x \in DOMAIN pl : m.pats[pl[x].id].bd = EmptyMap /\ m.pats[pl[x].id].bc = EmptyMap]
     ELSE [stable |-> FALSE, num |-> FALSE]

\* The solution a solve call ends with.
DynamicOf(st, a) ==
  IF ~Solvable(st, a) THEN [stable |-> FALSE, num |-> FALSE]
  ELSE IF a.w.kind = "modes" THEN ModalSol(st.asb.mem, a.c, a.num, a.w)
  ELSE IF a.w.kind = "hist" THEN HistorySol(st.asb.mem, a.c, a.w)
  ELSE SolutionOf(st, a)
===============================================================================
