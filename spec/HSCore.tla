-------------------------------- MODULE HSCore --------------------------------
(***************************************************************************)
(* State machine of the Hyperstatic core interface: the model registry,    *)
(* load patterns and cases, assembly snapshots, results, saved projects    *)
(* and the work directory.  Apply(st, op, a) gives the next state and the  *)
(* reply of every interface call.  A call that fails leaves the state as   *)
(* it was (FailAtomic, checked exhaustively in MCCore).                    *)
(*                                                                         *)
(* st.mem    what the interface object holds in memory                     *)
(* st.asb    the last assembled snapshot (a frozen copy of st.mem)         *)
(* st.res    per case: the snapshot it was solved from and the solution    *)
(* st.files  saved projects in the work directory                          *)
(***************************************************************************)
EXTENDS HSFrame, FiniteSets

EmptyMap == [x \in {} |-> x]
Put(m, k, v) == (k :> v) @@ m
Has(m, k) == k \in DOMAIN m

\* Position of name n in a sequence of records, 0 if absent.
RECURSIVE IdxFrom(_, _, _)
IdxFrom(s, n, i) == IF i > Len(s) THEN 0 ELSE IF s[i].n = n THEN i ELSE IdxFrom(s, n, i + 1)
Idx(s, n) == IdxFrom(s, n, 1)
\* Define or redefine: the position (index) of a redefined object is kept.
Upsert(s, r) == LET i == Idx(s, r.n) IN IF i = 0 THEN Append(s, r) ELSE [s EXCEPT ![i] = r]

EmptyMem == [ nodes |-> <<>>, beams |-> <<>>, shells |-> <<>>,
              grest |-> EmptyMap, mats |-> EmptyMap, secs |-> EmptyMap, ssecs |-> EmptyMap,
              pats |-> <<>>, pcur |-> EmptyMap, cases |-> EmptyMap ]
NoAsb == [ok |-> FALSE]
InitSt == [ mem |-> EmptyMem, asb |-> NoAsb, nasb |-> 0, res |-> EmptyMap, files |-> EmptyMap ]

Ok(st, v)  == [st |-> st, ok |-> TRUE, v |-> v]
Bad(st)    == [st |-> st, ok |-> FALSE, v |-> -1]
Mem(st, m) == [st EXCEPT !.mem = m]

NewPat(n) == [n |-> n, nl |-> EmptyMap, nd |-> EmptyMap, bd |-> EmptyMap, bc |-> EmptyMap]
FQ == 4            \* load factors are counted in quarters
NewCase(k) == [kind |-> k, plist |-> <<>>, rest |-> EmptyMap, int |-> [e |-> 0, al |-> 0, be |-> 0]]

NodeLoc(m, n) == LET i == Idx(m.nodes, n) IN m.nodes[i].loc

\* The first node at the same place (duplicate checking), 0 if none.
RECURSIVE SamePlace(_, _, _)
SamePlace(s, loc, i) == IF i > Len(s) THEN 0 ELSE IF s[i].loc = loc THEN i ELSE SamePlace(s, loc, i + 1)
RECURSIVE SameSpan(_, _, _, _)
SameSpan(s, la, lb, i) ==
  IF i > Len(s) THEN 0
  ELSE IF (s[i].la = la /\ s[i].lb = lb) \/ (s[i].la = lb /\ s[i].lb = la) THEN i
  ELSE SameSpan(s, la, lb, i + 1)

AddNode(st, a) ==
  LET m == st.mem
      d == IF a.dup THEN SamePlace(m.nodes, <<a.x, a.y, a.z>>, 1) ELSE 0
      ns == Upsert(m.nodes, [n |-> a.n, loc |-> <<a.x, a.y, a.z>>, mass |-> Zero6])
  IN IF d # 0 THEN Ok(st, d - 1)
     ELSE Ok(Mem(st, [m EXCEPT !.nodes = ns]), Idx(ns, a.n) - 1)

SetMass(st, a) ==
  LET m == st.mem
      i == Idx(m.nodes, a.n)
  IN IF i = 0 THEN Bad(st) ELSE Ok(Mem(st, [m EXCEPT !.nodes[i].mass = a.m]), -1)

SetGRest(st, a) ==
  IF Idx(st.mem.nodes, a.n) = 0 THEN Bad(st)
  ELSE Ok(Mem(st, [st.mem EXCEPT !.grest = Put(@, a.n, a.r)]), -1)

AddMat(st, a) ==
  Ok(Mem(st, [st.mem EXCEPT !.mats = Put(@, a.n, [rho |-> a.rho, E |-> a.E, mn |-> a.mn, md |-> a.md])]), -1)

\* A section captures its material when it is defined.
SecOf(mat, A, I2, I3, J) == [E |-> mat.E, mn |-> mat.mn, md |-> mat.md, rho |-> mat.rho, A |-> A, I2 |-> I2, I3 |-> I3, J |-> J]
WithMat(st, a, s) == IF ~Has(st.mem.mats, a.mat) THEN Bad(st)
                     ELSE Ok(Mem(st, [st.mem EXCEPT !.secs = Put(@, a.n, s)]), -1)
AddSec(st, a) == IF ~Has(st.mem.mats, a.mat) THEN Bad(st)
                 ELSE WithMat(st, a, SecOf(st.mem.mats[a.mat], a.A, a.I2, a.I3, a.J))
\* Catalogue shapes with integer area and inertia (torsion constant: see Sections.tla).
AddRect(st, a) == IF ~Has(st.mem.mats, a.mat) THEN Bad(st)
   ELSE WithMat(st, a, SecOf(st.mem.mats[a.mat], a.h * a.b, Div(a.h * a.b * a.b * a.b, 12), Div(a.b * a.h * a.h * a.h, 12), -1))
AddBox(st, a) == IF ~Has(st.mem.mats, a.mat) THEN Bad(st)
   ELSE LET hi == a.h - 2 * a.tf
            bi == a.b - 2 * a.tw
        IN WithMat(st, a, SecOf(st.mem.mats[a.mat], a.h * a.b - hi * bi,
                         Div(a.h * a.b * a.b * a.b - hi * bi * bi * bi, 12),
                         Div(a.b * a.h * a.h * a.h - bi * hi * hi * hi, 12), -1))
AddISec(st, a) == IF ~Has(st.mem.mats, a.mat) THEN Bad(st)
   ELSE LET hi == a.h - 2 * a.tf
        IN WithMat(st, a, SecOf(st.mem.mats[a.mat], 2 * a.b * a.tf + hi * a.tw,
                         Div(2 * a.tf * a.b * a.b * a.b + hi * a.tw * a.tw * a.tw, 12),
                         Div(a.b * a.h * a.h * a.h - (a.b - a.tw) * hi * hi * hi, 12), -1))
AddSSec(st, a) == IF ~Has(st.mem.mats, a.mat) THEN Bad(st)
   ELSE Ok(Mem(st, [st.mem EXCEPT !.ssecs = Put(@, a.n, [t |-> a.t, ty |-> a.ty])]), -1)

\* A beam captures positions and properties of its ends and section.
NewBeam(st, a, p) ==
  LET m == st.mem
      la == NodeLoc(m, a.s)
      lb == NodeLoc(m, a.e)
      b == [n |-> a.n, s |-> a.s, e |-> a.e, la |-> la, lb |-> lb, p |-> p, rel |-> F12, rot |-> NoRot]
      d == IF a.dup THEN SameSpan(m.beams, la, lb, 1) ELSE 0
      bs == Upsert(m.beams, b)
  IN IF la = lb THEN Bad(st)
     ELSE IF d # 0 THEN Ok(st, d - 1)
     ELSE Ok(Mem(st, [m EXCEPT !.beams = bs]), Idx(bs, a.n) - 1)
AddBeam(st, a) ==
  IF Idx(st.mem.nodes, a.s) = 0 \/ Idx(st.mem.nodes, a.e) = 0 \/ ~Has(st.mem.secs, a.sec) THEN Bad(st)
  ELSE NewBeam(st, a, st.mem.secs[a.sec])
AddSBeam(st, a) ==
  IF Idx(st.mem.nodes, a.s) = 0 \/ Idx(st.mem.nodes, a.e) = 0 THEN Bad(st)
  ELSE NewBeam(st, a, [E |-> a.E, mn |-> a.mn, md |-> a.md, rho |-> a.rho, A |-> a.A, I2 |-> a.I2, I3 |-> a.I3, J |-> a.J])
SetRel(st, a) ==
  LET i == Idx(st.mem.beams, a.n)
  IN IF i = 0 THEN Bad(st) ELSE Ok(Mem(st, [st.mem EXCEPT !.beams[i].rel = a.r]), -1)
SetRot(st, a) ==
  LET i == Idx(st.mem.beams, a.n)
  IN IF i = 0 THEN Bad(st) ELSE Ok(Mem(st, [st.mem EXCEPT !.beams[i].rot = a.rot]), -1)

\* First three corners in a line: no surface.
InLine(a, b, c) == Cross(Vec3(a, b), Vec3(b, c)) = <<0, 0, 0>>
AddShell(st, a) ==
  IF (\E k \in DOMAIN a.ns : Idx(st.mem.nodes, a.ns[k]) = 0) \/ ~Has(st.mem.ssecs, a.sec) THEN Bad(st)
  ELSE LET m == st.mem
           locs == [k \in 1..Len(a.ns) |-> NodeLoc(m, a.ns[k])]
           ss == Upsert(m.shells, [n |-> a.n, ns |-> a.ns, locs |-> locs, sec |-> m.ssecs[a.sec]])
       IN IF InLine(locs[1], locs[2], locs[3]) THEN Bad(st)
          ELSE Ok(Mem(st, [m EXCEPT !.shells = ss]), Idx(ss, a.n) - 1)

\* Load patterns: cases hold on to the pattern object they were given.
AddPat(st, a) ==
  LET m == st.mem
  IN Ok(Mem(st, [m EXCEPT !.pats = Append(@, NewPat(a.p)), !.pcur = Put(@, a.p, Len(m.pats) + 1)]), -1)
OnPat(st, a, P(_)) ==
  IF ~Has(st.mem.pcur, a.p) THEN Bad(st)
  ELSE LET i == st.mem.pcur[a.p]
       IN Ok(Mem(st, [st.mem EXCEPT !.pats[i] = P(@)]), -1)
SetNLoad(st, a) == OnPat(st, a, LAMBDA p : [p EXCEPT !.nl = Put(@, a.n, a.f)])
SetNDisp(st, a) == OnPat(st, a, LAMBDA p : [p EXCEPT !.nd = Put(@, a.n, a.f)])
SetBDist(st, a) == OnPat(st, a, LAMBDA p : [p EXCEPT !.bd = Put(@, a.n, a.q)])
SetBConc(st, a) == OnPat(st, a, LAMBDA p : [p EXCEPT !.bc = Put(@, a.n, [F |-> a.f, rn |-> a.rn, rd |-> a.rd])])

AddCase(st, a) == Ok(Mem(st, [st.mem EXCEPT !.cases = Put(@, a.c, NewCase(a.kind))]), -1)
OnCase(st, a, C(_)) ==
  IF ~Has(st.mem.cases, a.c) THEN Bad(st)
  ELSE Ok(Mem(st, [st.mem EXCEPT !.cases[a.c] = C(@)]), -1)
\* cv: the curve's values at the load steps (time histories); constant for other cases.
Constant == <<1, 1>>
CasePat(st, a, cv) ==
  IF ~Has(st.mem.pcur, a.p) THEN Bad(st)
  ELSE OnCase(st, a, LAMBDA c : [c EXCEPT !.plist = Upsert(@, [n |-> a.p, id |-> st.mem.pcur[a.p], f |-> a.f, cv |-> cv])])
AddCasePat(st, a) == CasePat(st, a, Constant)
AddCaseCurve(st, a) == CasePat(st, a, a.cv)
SetFactor(st, a) ==
  OnCase(st, a, LAMBDA c : LET i == Idx(c.plist, a.p) IN IF i = 0 THEN c ELSE [c EXCEPT !.plist[i].f = a.f])
\* Step size and damping of a direct time integration.
UseInt(st, a) == OnCase(st, a, LAMBDA c : [c EXCEPT !.int = [e |-> a.e, al |-> a.al, be |-> a.be]])
SetCRest(st, a) == OnCase(st, a, LAMBDA c : [c EXCEPT !.rest = Put(@, a.n, a.r)])

---------------------------------------------------------------------------
(* Loads of a case (in quarters). *)
RECURSIVE SumSeq(_, _, _)
SumSeq(s, z, i) == IF i > Len(s) THEN z ELSE SumSeq(s, AddV(z, s[i]), i + 1)
GetOr(m, k, d) == IF Has(m, k) THEN m[k] ELSE d
\* Value of a pattern's curve at a step; a curve that has ended contributes nothing.
CurveAt(e, step) == IF step < Len(e.cv) THEN e.cv[step + 1] ELSE 0
CaseNodalAt4(m, c, n, step) ==
  SumSeq([i \in 1..Len(c.plist) |-> ScaleV(c.plist[i].f * CurveAt(c.plist[i], step), GetOr(m.pats[c.plist[i].id].nl, n, Zero6))], Zero6, 1)
CaseNodal4(m, c, n) == CaseNodalAt4(m, c, n, 0)
\* Number of steps: the longest and the shortest curve.
RECURSIVE MaxLen(_, _), MinLen(_, _)
MaxLen(pl, i) == IF i > Len(pl) THEN 0 ELSE LET r == MaxLen(pl, i + 1) IN IF Len(pl[i].cv) > r THEN Len(pl[i].cv) ELSE r
MinLen(pl, i) == IF i > Len(pl) THEN 1000000 ELSE LET r == MinLen(pl, i + 1) IN IF Len(pl[i].cv) < r THEN Len(pl[i].cv) ELSE r
CaseDisp4(m, c, n) ==
  SumSeq([i \in 1..Len(c.plist) |-> ScaleV(c.plist[i].f, GetOr(m.pats[c.plist[i].id].nd, n, Zero6))], Zero6, 1)
NoConc == [F |-> Zero6, rn |-> 1, rd |-> 2]
PatFef(p, b, l) == LET cc == GetOr(p.bc, b, NoConc)
                   IN Fef(GetOr(p.bd, b, Zero8), cc.F, cc.rn, cc.rd, l)
HasBeamLoad(p, b) == Has(p.bd, b) \/ Has(p.bc, b)
CaseBeamAt4(m, c, b, l, step) ==
  TLCEval(SumSeq([i \in 1..Len(c.plist) |-> LET p == m.pats[c.plist[i].id]
                                    IN IF HasBeamLoad(p, b)
                                       THEN ScaleV(c.plist[i].f * CurveAt(c.plist[i], step), PatFef(p, b, l)) ELSE Zero12],
         Zero12, 1))
CaseBeam4(m, c, b, l) == CaseBeamAt4(m, c, b, l, 0)

\* The restraints a case is solved under.
EffRest(m, c) == IF DOMAIN c.rest = {} THEN m.grest ELSE c.rest
NodeNames(m) == {m.nodes[i].n : i \in 1..Len(m.nodes)}

---------------------------------------------------------------------------
(***************************************************************************)
(* Assembly, solution, work directory.                                     *)
(***************************************************************************)
Assemble(st) == Ok([st EXCEPT !.asb = [ok |-> TRUE, id |-> st.nasb + 1, mem |-> st.mem], !.nasb = @ + 1], -1)

\* a.w: the solution (HSSolution) or an abstract one (MCCore); w.stable says
\* whether the case's equations have a unique solution.
Solvable(st, a) == /\ st.asb.ok
                   /\ Has(st.asb.mem.cases, a.c)
                   /\ DOMAIN EffRest(st.asb.mem, st.asb.mem.cases[a.c]) \subseteq NodeNames(st.asb.mem)
Solve(st, a) ==
  IF Solvable(st, a) /\ a.w.stable
  THEN Ok([st EXCEPT !.res = Put(@, a.c, [id |-> st.asb.id, sol |-> a.w])], -1)
  ELSE Bad(st)

\* A result may be asked for when its case was solved from the current snapshot.
ResCurrent(st, c) == Has(st.res, c) /\ st.asb.ok /\ st.res[c].id = st.asb.id
ResAbsent(st, c) == ~Has(st.res, c) \/ ~st.asb.ok

Save(st, a) == Ok([st EXCEPT !.files = Put(@, a.f, st.mem)], -1)
Load(st, a) == IF Has(st.files, a.f) THEN Ok(Mem(st, st.files[a.f]), -1) ELSE Bad(st)
Clear(st) == Ok([st EXCEPT !.asb = NoAsb, !.res = EmptyMap, !.files = EmptyMap], -1)
\* Another interface object on the same work directory.
Fresh(st) == Ok(Mem(st, EmptyMem), -1)

Apply(st, op, a) ==
  CASE op = "add_node"   -> AddNode(st, a)
    [] op = "set_mass"   -> SetMass(st, a)
    [] op = "set_grest"  -> SetGRest(st, a)
    [] op = "add_mat"    -> AddMat(st, a)
    [] op = "add_sec"    -> AddSec(st, a)
    [] op = "add_rect"   -> AddRect(st, a)
    [] op = "add_box"    -> AddBox(st, a)
    [] op = "add_isec"   -> AddISec(st, a)
    [] op = "add_ssec"   -> AddSSec(st, a)
    [] op = "add_beam"   -> AddBeam(st, a)
    [] op = "add_sbeam"  -> AddSBeam(st, a)
    [] op = "set_rel"    -> SetRel(st, a)
    [] op = "set_rot"    -> SetRot(st, a)
    [] op = "add_shell"  -> AddShell(st, a)
    [] op = "add_pat"    -> AddPat(st, a)
    [] op = "set_nload"  -> SetNLoad(st, a)
    [] op = "set_ndisp"  -> SetNDisp(st, a)
    [] op = "set_bdist"  -> SetBDist(st, a)
    [] op = "set_bconc"  -> SetBConc(st, a)
    [] op = "add_case"   -> AddCase(st, a)
    [] op = "add_cp"     -> AddCasePat(st, a)
    [] op = "add_cpt"    -> AddCaseCurve(st, a)
    [] op = "set_pf"     -> SetFactor(st, a)
    [] op = "set_crest"  -> SetCRest(st, a)
    [] op = "use_int"    -> UseInt(st, a)
    [] op = "assemble"   -> Assemble(st)
    [] op = "solve"      -> Solve(st, a)
    [] op = "solvem"     -> Solve(st, a)      \* modes
    [] op = "solvet"     -> Solve(st, a)      \* time history
    [] op = "save"       -> Save(st, a)
    [] op = "load"       -> Load(st, a)
    [] op = "clear"      -> Clear(st)
    [] op = "fresh"      -> Fresh(st)
    [] OTHER             -> Ok(st, -1)
=============================================================================
