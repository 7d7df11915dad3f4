------------------------------ MODULE HSSolution ------------------------------
(***************************************************************************)
(* What it means for displacements to be the solution of a static case.    *)
(*                                                                         *)
(* A driver proposes the solution as integers: node displacements U and    *)
(* member end displacements DL (local axes), both counted in 1/q of the    *)
(* unit, or, for an unstable case, a mechanism z.  Nothing of it is        *)
(* believed: the operators below check compatibility, the releases,        *)
(* equilibrium of every free component and the restraints exactly.  A      *)
(* proposal that fails is an error of the driver (Assert), never of the    *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS HSCore

Fn(arr) == [k \in {arr[i][1] : i \in DOMAIN arr} |-> (arr[CHOOSE i \in DOMAIN arr : arr[i][1] = k])[2]]

RestOf(m, c, n) == GetOr(EffRest(m, m.cases[c]), n, F6)
BeamT(b) == Axes(b.la, b.lb, b.rot)
BeamL(b) == BeamLen(b.la, b.lb)
BeamByName(m, n) == m.beams[Idx(m.beams, n)]
SumSet6(f, S) == [k \in 1..6 |->
   LET RECURSIVE go(_)
       go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x][k] + go(T \ {x})
   IN go(S)]

\* End displacements of a member agree with its nodes except where released.
Compatible(b, t, Ui, Uj, dl) ==
  LET g == ToLocal(t, Ui \o Uj)
  IN \A k \in 1..12 : b.rel[k] \/ t.D * dl[k] = g[k]

\* End forces (times q, local axes): stiffness times end displacements less fixed-end loads.
EndForces(m, c, b, dl, q) ==
  LET l == BeamL(b)
      kd == KTimes(b.p, l, dl)
      f4 == CaseBeam4(m, m.cases[c], b.n, l)
  IN TLCEval([k \in 1..12 |-> kd[k] - (q \div 4) * f4[k]])

Half(v, j) == IF j = 0 THEN SubSeq(v, 1, 6) ELSE SubSeq(v, 7, 12)

\* Sum of the members' end forces at node n (global axes, times 25 q).
MemberSum(m, EL, n) ==
  LET S == {<<i, j>> \in (1..Len(m.beams)) \X {0, 1} :
              IF j = 0 THEN m.beams[i].s = n ELSE m.beams[i].e = n}
      part(ij) == LET b == m.beams[ij[1]]
                      t == BeamT(b)
                  IN ScaleV(Div(RD, t.D), Half(ToGlobal(t, EL[b.n]), ij[2]))
  IN TLCEval(SumSet6([ij \in S |-> part(ij)], S))

\* The whole solution of case c of snapshot m proposed by w.
MakeSol(m, c, w) ==
  LET U  == Fn(w.U)
      DL == Fn(w.DL)
      q  == w.q
      EL == TLCEval([n \in DOMAIN DL |-> EndForces(m, c, BeamByName(m, n), DL[n], q)])
      BAL == TLCEval([n \in DOMAIN U |->
                LET ms == MemberSum(m, EL, n)
                    fn == CaseNodal4(m, m.cases[c], n)
                IN [k \in 1..6 |-> ms[k] - RD * (q \div 4) * fn[k]]])
      ok == /\ q > 0 /\ q % 4 = 0
            /\ DOMAIN U = NodeNames(m)
            /\ DOMAIN DL = {m.beams[i].n : i \in DOMAIN m.beams}
            /\ \A i \in DOMAIN m.beams :
                 LET b == m.beams[i] IN
                 /\ Assert(Compatible(b, BeamT(b), U[b.s], U[b.e], DL[b.n]), <<"driver: incompatible", c, b.n>>)
                 /\ \A k \in 1..12 : b.rel[k] => Assert(EL[b.n][k] = 0, <<"driver: release carries force", c, b.n, k>>)
            /\ \A n \in DOMAIN U : \A k \in 1..6 :
                 IF RestOf(m, c, n)[k] THEN Assert(U[n][k] = 0, <<"driver: restraint moves", c, n, k>>)
                 ELSE Assert(BAL[n][k] = 0, <<"driver: no equilibrium", c, n, k, BAL[n][k]>>)
  IN IF Assert(ok, <<"driver: bad solution", c>>)
     THEN [stable |-> TRUE, num |-> TRUE, q |-> q, U |-> U, DL |-> DL, EL |-> EL, BAL |-> BAL]
     ELSE [stable |-> FALSE, num |-> FALSE]

\* A mechanism: a motion z of free components that strains no member (DL: the members' ends).
Mechanism(m, c, w) ==
  LET Z == Fn(w.U)
      DL == Fn(w.DL)
  IN /\ \E n \in DOMAIN Z : Z[n] # Zero6
     /\ DOMAIN Z = NodeNames(m)
     /\ \A n \in DOMAIN Z : \A k \in 1..6 : RestOf(m, c, n)[k] => Z[n][k] = 0
     /\ \A i \in DOMAIN m.beams :
          LET b == m.beams[i] IN
          /\ Compatible(b, BeamT(b), Z[b.s], Z[b.e], DL[b.n])
          /\ KTimes(b.p, BeamL(b), DL[b.n]) = Zero12

\* The solution of a solve call: computed when it matters, opaque otherwise.
SolutionOf(st, a) ==
  IF ~Solvable(st, a) THEN [stable |-> FALSE, num |-> FALSE]
  ELSE IF a.w.kind = "sol" THEN MakeSol(st.asb.mem, a.c, a.w)
  ELSE IF a.w.kind = "mech"
       THEN IF Assert(Mechanism(st.asb.mem, a.c, a.w), <<"driver: not a mechanism", a.c>>)
            THEN [stable |-> FALSE, num |-> FALSE] ELSE [stable |-> FALSE, num |-> FALSE]
  ELSE [stable |-> TRUE, num |-> FALSE]     \* kind "opaque": stable by construction, values not compared
=============================================================================
