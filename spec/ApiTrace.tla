------------------------------- MODULE ApiTrace -------------------------------
(***************************************************************************)
(* Trace validation: every line of the trace is a call made on the real    *)
(* code with its reply and what was read back afterwards.  The state is    *)
(* advanced by HSCore!Apply, and reply and readings are compared with it.  *)
(* The verdict is total: a mismatch is printed with the label of the       *)
(* clause that failed and the rest of the trace is still checked.          *)
(***************************************************************************)
EXTENDS HSDynamics, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, nbad

Range(s) == {s[k] : k \in DOMAIN s}
SameSet(a, b) == Range(a) = Range(b) /\ Len(a) = Cardinality(Range(a))

\* Equal up to the resolution of the readings: exact below 500000, beyond that to
\* two millionths of the largest component.
RECURSIVE MaxAbsFrom(_, _)
MaxAbsFrom(v, k) == IF k > Len(v) THEN 0 ELSE LET r == MaxAbsFrom(v, k + 1) IN IF Abs(v[k]) > r THEN Abs(v[k]) ELSE r
Near(v, x) == LET slack == MaxAbsFrom(x, 1) \div 500000
              IN Len(v) = Len(x) /\ \A k \in DOMAIN x : Abs(v[k] - x[k]) <= slack
Close(v, x) == Abs(v - x) <= 1 + Abs(x) \div 500000
NearAll(v, x) == Len(v) = Len(x) /\ \A k \in DOMAIN x : Near(v[k], x[k])

MapRecs(m, F(_, _)) == {F(k, m[k]) : k \in DOMAIN m}

\* The case as currently defined (loads are read from the case object).
---------------------------------------------------------------------------
NodesView(m) == [k \in 1..Len(m.nodes) |-> [n |-> m.nodes[k].n, hid |-> k - 1, loc |-> m.nodes[k].loc, mass |-> m.nodes[k].mass]]
LocView(m)   == [k \in 1..Len(m.nodes) |-> [n |-> m.nodes[k].n, loc |-> m.nodes[k].loc]]
BeamsView(m) == [k \in 1..Len(m.beams) |-> LET b == m.beams[k] IN
                   [n |-> b.n, hid |-> k - 1, s |-> b.s, e |-> b.e, la |-> b.la, lb |-> b.lb, len2 |-> Len2(Vec3(b.la, b.lb))]]
BeamView1(m) == [k \in 1..Len(m.beams) |-> LET b == m.beams[k] IN
                   [n |-> b.n, s |-> b.s, e |-> b.e, la |-> b.la, lb |-> b.lb]]
ShellsView(m) == [k \in 1..Len(m.shells) |-> LET s == m.shells[k] IN
                   [n |-> s.n, hid |-> k - 1, ns |-> s.ns, locs |-> s.locs]]
ShellView1(m) == [k \in 1..Len(m.shells) |-> LET s == m.shells[k] IN [n |-> s.n, ns |-> s.ns, locs |-> s.locs]]
RestView(f) == MapRecs(f, LAMBDA k, v : [n |-> k, r |-> v])
LoadView(f) == MapRecs(f, LAMBDA k, v : [n |-> k, f |-> v])
\* Nodes a case's dictionary of loads mentions: those any of its patterns loads.
CaseKeys(m, c, field(_)) == UNION {DOMAIN field(m.pats[c.plist[k].id]) : k \in DOMAIN c.plist}
Nl(p) == p.nl
Nd(p) == p.nd

\* The stiffness of a member as sections and material give it (columns of KTimes).
Unit12(k) == [j \in 1..12 |-> IF j = k THEN 1 ELSE 0]
BeamK(b) == [k \in 1..12 |-> KTimes(b.p, BeamL(b), Unit12(k))]

\* The assembled load vector (global axes, times 4*25) of an unreleased frame.
AsmF(m, c) ==
  [n \in NodeNames(m) |->
     LET S == {<<x, j>> \in (1..Len(m.beams)) \X {0, 1} :
                 IF j = 0 THEN m.beams[x].s = n ELSE m.beams[x].e = n}
         part(xj) == LET b == m.beams[xj[1]]
                         t == BeamT(b)
                     IN ScaleV(Div(RD, t.D), Half(ToGlobal(t, CaseBeam4(m, c, b.n, BeamL(b))), xj[2]))
     IN AddV(SumSet6([xj \in S |-> part(xj)], S), ScaleV(RD, CaseNodal4(m, c, n)))]

\* A result query: absent, present with a value, or unspecified (stale snapshot).
ResultIs(s, o, known, val(_)) ==
  IF ResAbsent(s, o.c) THEN ~o.ok
  ELSE IF ~ResCurrent(s, o.c) THEN TRUE
  ELSE IF ~known THEN ~o.ok
  ELSE IF ~s.res[o.c].sol.num THEN o.ok
  ELSE o.ok /\ Near(o.v, val(s.res[o.c].sol))

AMem(s) == s.asb.mem
KnownNode(s, n) == s.asb.ok /\ Idx(AMem(s).nodes, n) # 0
KnownBeam(s, n) == s.asb.ok /\ Idx(AMem(s).beams, n) # 0

Holds(s, o) ==
  /\ ~o.raised          \* the interface never raises
  /\ LET m == s.mem IN
     CASE o.k = "nodes"  -> o.v = NodesView(m)
       [] o.k = "locs"   -> o.v = LocView(m)
       [] o.k = "beams"  -> o.v = BeamsView(m)
       [] o.k = "conn"   -> o.v = BeamView1(m)
       [] o.k = "shells" -> o.v = ShellsView(m)
       [] o.k = "sconn"  -> o.v = ShellView1(m)
       [] o.k = "loc1"   -> IF Idx(m.nodes, o.n) = 0 THEN ~o.ok ELSE o.ok /\ o.v = NodeLoc(m, o.n)
       [] o.k = "conn1"  -> IF Idx(m.beams, o.n) = 0 THEN ~o.ok
                            ELSE LET b == BeamByName(m, o.n) IN o.ok /\ o.v = <<b.s, b.e>>
       [] o.k = "bloc1"  -> IF Idx(m.beams, o.n) = 0 THEN ~o.ok
                            ELSE LET b == BeamByName(m, o.n) IN o.ok /\ o.v = <<b.la, b.lb>>
       [] o.k = "sconn1" -> IF Idx(m.shells, o.n) = 0 THEN ~o.ok
                            ELSE o.ok /\ o.v = m.shells[Idx(m.shells, o.n)].ns
       [] o.k = "sloc1"  -> IF Idx(m.shells, o.n) = 0 THEN ~o.ok
                            ELSE o.ok /\ o.v = m.shells[Idx(m.shells, o.n)].locs
       [] o.k = "beamk"  -> NearAll(o.v, BeamK(BeamByName(m, o.b)))
       [] o.k = "grest"  -> SameSet(o.v, o.v) /\ Range(o.v) = RestView(m.grest)
       [] o.k = "crest"  -> IF ~Has(m.cases, o.c) THEN ~o.ok
                            ELSE o.ok /\ SameSet(o.v, o.v) /\ Range(o.v) = RestView(m.cases[o.c].rest)
       [] o.k = "nl"     -> IF ~Has(m.pcur, o.p) THEN ~o.ok
                            ELSE o.ok /\ SameSet(o.v, o.v) /\ Range(o.v) = LoadView(m.pats[m.pcur[o.p]].nl)
       [] o.k = "nl1"    -> IF ~Has(m.pcur, o.p) THEN ~o.ok
                            ELSE LET f == m.pats[m.pcur[o.p]].nl
                                 IN IF Has(f, o.n) THEN o.ok /\ o.v = f[o.n] ELSE ~o.ok
       [] o.k = "nd"     -> LET f == m.pats[m.pcur[o.p]].nd
                            IN SameSet(o.v, o.v) /\ Range(o.v) = LoadView(f)
       [] o.k = "pbeamf" -> \* a pattern's equivalent loads of a member of length l (fixed-end values, exact multiples)
                            LET p == m.pats[m.pcur[o.p]]
                                cc == GetOr(p.bc, o.b, NoConc)
                                fs == FefS(GetOr(p.bd, o.b, Zero8), cc.F, cc.rn, cc.rd, o.l)
                            IN Near(o.v, fs)
       [] o.k = "casef"  -> Near(o.v, CaseNodal4(m, m.cases[o.c], o.n))
       [] o.k = "cased"  -> /\ SameSet(o.v, o.v)
                            /\ LET c == m.cases[o.c]
                               IN Range(o.v) = {[n |-> n, f |-> CaseNodal4(m, c, n)] : n \in CaseKeys(m, c, Nl)}
       [] o.k = "casend" -> /\ SameSet(o.v, o.v)
                            /\ LET c == m.cases[o.c]
                               IN Range(o.v) = {[n |-> n, f |-> CaseDisp4(m, c, n)] : n \in CaseKeys(m, c, Nd)}
       [] o.k = "thf"    -> Near(o.v, CaseNodalAt4(m, m.cases[o.c], o.n, o.step))
       [] o.k = "thb"    -> Near(o.v, CaseBeamAt4(m, m.cases[o.c], o.b, o.l, o.step))
       [] o.k = "thhist" -> LET c == m.cases[o.c]
                            IN NearAll(o.v, [x \in 1..MaxLen(c.plist, 1) |-> CaseNodalAt4(m, c, o.n, x - 1)])
       [] o.k = "thdict" -> LET c == m.cases[o.c]
                            IN /\ SameSet(o.v, o.v)
                               /\ Range(o.v) = {[n |-> n, f |-> [x \in 1..MaxLen(c.plist, 1) |-> CaseNodalAt4(m, c, n, x - 1)]] : n \in CaseKeys(m, c, Nl)}
       [] o.k = "steps"  -> LET c == m.cases[o.c] IN o.v = <<MaxLen(c.plist, 1), MinLen(c.plist, 1)>>
       [] o.k = "beamf"  -> Near(o.v, CaseBeam4(m, m.cases[o.c], o.b, o.l))
       [] o.k = "beamfd" -> /\ SameSet(o.v, o.v)
                            /\ Range(o.v) = {[n |-> o.ls[x].n, f |-> CaseBeam4(m, m.cases[o.c], o.ls[x].n, o.ls[x].l)] : x \in DOMAIN o.ls}
       [] o.k = "asmf"   -> LET f == AsmF(AMem(s), AMem(s).cases[o.c])
                                ns == AMem(s).nodes
                            IN NearAll(o.v, [x \in 1..Len(ns) |-> f[ns[x].n]])
       [] o.k = "massm"  -> o.off = 0 /\ NearAll(o.v, [x \in 1..Len(AMem(s).nodes) |-> MassAt10(AMem(s), x)])
       [] o.k = "nodem"  -> o.v = ScaleV(10, m.nodes[Idx(m.nodes, o.n)].mass)
       [] o.k = "beamm"  -> o.off = 0 /\ LET h == Half10(BeamByName(m, o.b)) IN Near(o.v, <<h, h, h, 0, 0, 0, h, h, h, 0, 0, 0>>)
       [] o.k = "consm"  -> NearAll(o.v, ConsM420(o.p, BeamLen(o.la, o.lb)))
       [] o.k = "disp"   -> ResultIs(s, o, KnownNode(s, o.n), LAMBDA sol : sol.U[o.n])
       [] o.k = "react"  -> ResultIs(s, o, KnownNode(s, o.n), LAMBDA sol :
                                [k \in 1..6 |-> IF RestOf(AMem(s), o.c, o.n)[k] THEN sol.BAL[o.n][k] ELSE 0])
       [] o.k = "endf"   -> ResultIs(s, o, KnownBeam(s, o.b), LAMBDA sol : sol.EL[o.b])
       [] o.k = "rel0"   -> ResultIs(s, o, KnownBeam(s, o.b), LAMBDA sol :
                                [k \in 1..12 |-> IF BeamByName(AMem(s), o.b).rel[k] THEN 0 ELSE o.v[k]])
       [] o.k = "deform" -> ResultIs(s, o, KnownBeam(s, o.b), LAMBDA sol :
                                DeformS(sol.DL[o.b], BeamL(BeamByName(AMem(s), o.b)), o.xn, o.xd))
       [] o.k = "freq"   -> IF ~ResCurrent(s, o.c) THEN TRUE
                            ELSE LET sol == s.res[o.c].sol IN
                                 o.ok /\ \A q \in 1..3 : Len(o.v[q]) = sol.k /\ \A x \in 1..sol.k : Close(o.v[q][x], sol.ms[x].ln * o.R[x])
       [] o.k = "proj"   -> IF ~ResCurrent(s, o.c) THEN TRUE
                            ELSE LET sol == s.res[o.c].sol
                                     P == TLCEval(Projection(sol, o.x, o.y, o.S, o.ns))
                                     big == MaxAbsFrom([r \in DOMAIN P |-> MaxAbsFrom(P[r], 1)], 1)
                                 IN IF ~(IsGroup(sol, o.x, o.y) /\ o.y <= sol.k) THEN Assert(FALSE, "driver: group of modes")
                                    ELSE o.ok /\ Len(o.v) = Len(P) /\ \A r \in DOMAIN P : Len(o.v[r]) = Len(P)
                                              /\ \A q \in DOMAIN P : Abs(o.v[r][q] - P[r][q]) <= big \div 500000
       [] o.k = "tdisp"  -> IF ~ResCurrent(s, o.c) THEN TRUE
                            ELSE LET h == s.res[o.c].sol.h IN o.ok /\ NearAll(o.v, [x \in DOMAIN h |-> h[x].U[o.n]])
       [] o.k = "tdeform" -> IF ~ResCurrent(s, o.c) THEN TRUE
                            ELSE LET h == s.res[o.c].sol.h
                                     l == BeamL(BeamByName(AMem(s), o.b))
                                 IN o.ok /\ Near(o.v, DeformS(h[o.step].DL[o.b], l, o.xn, o.xd))
       [] o.k = "tendf"  -> IF ~ResCurrent(s, o.c) THEN TRUE
                            ELSE LET h == s.res[o.c].sol.h
                                     b == BeamByName(AMem(s), o.b)
                                 IN o.ok /\ (s.res[o.c].sol.plain => Near(o.v, KTimes(b.p, BeamL(b), h[o.step].DL[o.b])))
       [] o.k = "same"   -> o.v        \* the reading was repeated: equal bit by bit
       [] o.k = "gone"   -> o.v        \* the work directory is empty / nothing outside it changed
       [] OTHER -> Assert(FALSE, <<"driver: unknown observation", o.k>>)

RetOk(ret, r) == ~ret.exc /\ ret.ok = r.ok /\ (ret.v = -2 \/ ~r.ok \/ ret.v = r.v)

Args(s, ev) == IF ev.op \in {"solve", "solvem", "solvet"} THEN [ev.a EXCEPT !.w = DynamicOf(s, ev.a)] ELSE ev.a

Report(ev, label, k) == PrintT("BAD " \o ToJson([t |-> ev.t, e |-> ev.e, label |-> label, obs |-> k]))

---------------------------------------------------------------------------
Init == i = 1 /\ st = InitSt /\ nbad = 0

Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ \E ev \in {Trace[i]} :   \* (bound by \E: TLC evaluates the value once)
     IF ev.op = "reset" THEN st' = InitSt /\ nbad' = nbad
     ELSE \E r \in {Apply(st, ev.op, Args(st, ev))} :
          \E badret \in {IF ~ev.silent /\ ~RetOk(ev.ret, r) THEN {0} ELSE {}} :
          \E badobs \in {{k \in DOMAIN ev.obs : ~Holds(r.st, ev.obs[k])}} :
             /\ st' = r.st
             /\ nbad' = nbad + Cardinality(badret) + Cardinality(badobs)
             /\ \A k \in badret : Report(ev, "ret", 0)
             /\ \A k \in badobs : Report(ev, ev.obs[k].k, k)
  /\ (i = Len(Trace)) => PrintT("END " \o ToJson([events |-> Len(Trace), bad |-> nbad']))

Next == Step
Spec == Init /\ [][Next]_<<i, st, nbad>>
=============================================================================
