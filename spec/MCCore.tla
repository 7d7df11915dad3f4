-------------------------------- MODULE MCCore --------------------------------
(***************************************************************************)
(* Model checking of HSCore.  A small alphabet of calls is closed under    *)
(* every order up to DEPTH calls; the properties of the interface are      *)
(* checked in every state and on every step, and every step (shortest      *)
(* history + call) is exported to be replayed on the code.                 *)
(***************************************************************************)
EXTENDS HSCore, Json, IOUtils

Which == IOEnv.ALPHABET
Depth == atoi(IOEnv.DEPTH)
Export == IOEnv.EXPORT = "1"

T6 == <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>
R1 == <<TRUE, FALSE, TRUE, FALSE, FALSE, TRUE>>
Op(o, a) == [op |-> o, a |-> a]
NodeAt(n, x, y, z, dup) == Op("add_node", [n |-> n, x |-> x, y |-> y, z |-> z, dup |-> dup])
Sec(n, m) == Op("add_sec", [n |-> n, mat |-> m, A |-> 60, I2 |-> 60, I3 |-> 120, J |-> 60])
Mat(n, E) == Op("add_mat", [n |-> n, rho |-> 1, E |-> E, mn |-> 0, md |-> 1])
Beam(n, s, e, sec, dup) == Op("add_beam", [n |-> n, s |-> s, e |-> e, sec |-> sec, dup |-> dup])
SBeam(n, s, e, E, dup) == Op("add_sbeam", [n |-> n, s |-> s, e |-> e, E |-> E, mn |-> 0, md |-> 1, A |-> 2, I2 |-> 2, I3 |-> 4, J |-> 2, rho |-> 1, dup |-> dup])
NLoad(p, n, f) == Op("set_nload", [p |-> p, n |-> n, f |-> f])
Pat(p) == Op("add_pat", [p |-> p])
Case(c) == Op("add_case", [c |-> c, kind |-> "static"])
CP(c, p, f) == Op("add_cp", [c |-> c, p |-> p, f |-> f])
PF(c, p, f) == Op("set_pf", [c |-> c, p |-> p, f |-> f])
GRest(n, r) == Op("set_grest", [n |-> n, r |-> r])
CRest(c, n, r) == Op("set_crest", [c |-> c, n |-> n, r |-> r])
Plain(o) == Op(o, [x |-> 0])
Solv(c) == Op("solve", [c |-> c, w |-> 0])
F1 == <<0, 2, 0, 0, 0, 1>>
F2 == <<3, 0, -1, 0, 2, 0>>
Q1 == <<0, 0, 60, 60, 0, 0, 0, 0>>
Q2 == <<60, 0, 0, 0, 0, 120, 0, 60>>
Dist(p, b, q) == Op("set_bdist", [p |-> p, n |-> b, q |-> q])
Conc(p, b, f) == Op("set_bconc", [p |-> p, n |-> b, f |-> f, rn |-> 1, rd |-> 2])

\* calls made once, before everything
Prefix ==
  CASE Which = "registry" -> << Mat("m0", 2) >>
    [] Which = "beams" -> << Mat("m0", 2), Sec("s0", "m0"), NodeAt("n0", 0, 0, 0, FALSE), NodeAt("n1", 5, 0, 0, FALSE), NodeAt("n2", 0, 0, 10, FALSE) >>
    [] Which = "loads" -> << Pat("p0"), Case("c0") >>
    [] Which = "shells" -> << Mat("m0", 2), NodeAt("n0", 0, 0, 0, FALSE), NodeAt("n1", 5, 0, 0, FALSE), NodeAt("n2", 5, 5, 0, FALSE), NodeAt("n3", 0, 5, 0, FALSE),
                               Op("add_ssec", [n |-> "t0", mat |-> "m0", t |-> 1, ty |-> "shell"]) >>
    [] Which = "restraints" -> << NodeAt("n0", 0, 0, 0, FALSE), NodeAt("n1", 5, 0, 0, FALSE), SBeam("b0", "n0", "n1", 2, FALSE), Pat("p0"), NLoad("p0", "n1", F1),
                                  NLoad("p0", "n0", F2), Case("c0"), CP("c0", "p0", 4), Case("c1"), CP("c1", "p0", 8) >>
    [] Which = "life" \/ Which = "files" ->
         << NodeAt("n0", 0, 0, 0, FALSE), NodeAt("n1", 5, 0, 0, FALSE), SBeam("b0", "n0", "n1", 2, FALSE), GRest("n0", T6),
            Pat("p0"), NLoad("p0", "n1", F1), Case("c0"), CP("c0", "p0", 4), Pat("p1"), NLoad("p1", "n1", F2), Case("c1"), CP("c1", "p1", 4) >>

Alphabet ==
  CASE Which = "registry" ->
         << NodeAt("n0", 0, 0, 0, FALSE), NodeAt("n0", 5, 0, 0, FALSE), NodeAt("n1", 5, 0, 0, FALSE), NodeAt("n1", 5, 0, 0, TRUE), NodeAt("n2", 0, 0, 10, FALSE),
            NodeAt("n2", 0, 0, 0, TRUE), Op("set_mass", [n |-> "n0", m |-> <<1, 2, 3, 4, 5, 6>>]), Op("set_mass", [n |-> "n1", m |-> <<7, 0, 0, 0, 0, 8>>]),
            GRest("n0", R1), GRest("n0", T6), GRest("n1", R1), Sec("s0", "m0"), Beam("b0", "n0", "n1", "s0", FALSE), Beam("b1", "n2", "n0", "s0", FALSE),
            SBeam("b0", "n1", "n2", 4, FALSE) >>
    [] Which = "beams" ->
         << Beam("b0", "n0", "n1", "s0", FALSE), Beam("b1", "n0", "n1", "s0", FALSE), Beam("b1", "n1", "n0", "s0", TRUE), Beam("b2", "n2", "n0", "s1", FALSE),
            SBeam("b0", "n1", "n2", 4, FALSE), SBeam("b3", "n0", "n2", 4, TRUE), SBeam("b1", "n0", "zz", 4, FALSE), Beam("b0", "n0", "n0", "s0", FALSE),
            Sec("s1", "m0"), Sec("s0", "zz"), Mat("m0", 6), NodeAt("n1", 10, 0, 0, FALSE), NodeAt("n3", 5, 0, 0, TRUE),
            Op("set_rel", [n |-> "b0", r |-> F6 \o R1]), Op("set_rel", [n |-> "b1", r |-> T6 \o F6]) >>
    [] Which = "shells" ->
         << Op("add_shell", [n |-> "h0", ns |-> <<"n0", "n1", "n2", "n3">>, sec |-> "t0"]), Op("add_shell", [n |-> "h1", ns |-> <<"n1", "n2", "n3", "n0">>, sec |-> "t0"]),
            Op("add_shell", [n |-> "h0", ns |-> <<"n3", "n2", "n1", "n0">>, sec |-> "t0"]), Op("add_shell", [n |-> "h2", ns |-> <<"n0", "n1", "n4", "n3">>, sec |-> "t0"]),
            Op("add_shell", [n |-> "h1", ns |-> <<"n0", "n1", "n2", "n3">>, sec |-> "zz"]), NodeAt("n0", -5, 0, 0, FALSE), NodeAt("n2", 10, 5, 0, FALSE),
            NodeAt("n4", 5, 10, 0, FALSE), SBeam("b0", "n0", "n1", 2, FALSE) >>
    [] Which = "loads" ->
         << Pat("p0"), Pat("p1"), NLoad("p0", "n0", F1), NLoad("p0", "n0", F2), NLoad("p0", "n1", F1), NLoad("p1", "n0", F1), Case("c0"), Case("c1"),
            CP("c0", "p0", 4), CP("c0", "p0", -8), CP("c0", "p1", 2), CP("c1", "p1", 4), PF("c0", "p0", 12),
            Dist("p0", "b0", Q1), Dist("p1", "b0", Q2), Conc("p0", "b0", <<0, 120, 0, 60, 0, 120>>) >>
    [] Which = "restraints" ->
         << GRest("n0", T6), GRest("n0", R1), GRest("n1", R1), GRest("n0", F6), CRest("c0", "n0", T6), CRest("c0", "n1", R1), CRest("c0", "n0", F6), CRest("c0", "n1", T6),
            Plain("assemble"), Solv("c0"), Solv("c1") >>
    [] Which = "life" ->
         << NLoad("p0", "n1", F2), NLoad("p1", "n1", F1), CP("c0", "p0", -8), CP("c0", "p1", 4), CRest("c1", "n0", T6), CRest("c1", "n1", R1),
            GRest("n1", R1), NodeAt("n1", 10, 0, 0, FALSE), SBeam("b0", "n0", "n1", 4, FALSE), Case("c1"),
            Plain("assemble"), Solv("c0"), Solv("c1"), Plain("fresh") >>
    [] Which = "files" ->
         << NLoad("p0", "n1", F2), CP("c0", "p1", 4), NodeAt("n2", 0, 5, 0, FALSE), Plain("assemble"), Solv("c0"), Op("save", [f |-> "f0"]), Op("save", [f |-> "f1"]),
            Op("load", [f |-> "f0"]), Op("load", [f |-> "f1"]), Plain("clear"), Plain("fresh") >>

\* An abstract solution: it knows the snapshot it came from.
AbsSol(s, c) == [stable |-> Solvable(s, [c |-> c]) /\ (\E n \in DOMAIN EffRest(s.asb.mem, s.asb.mem.cases[c]) : EffRest(s.asb.mem, s.asb.mem.cases[c])[n] = T6),
                 num |-> FALSE, of |-> IF s.asb.ok THEN <<s.asb.mem>> ELSE <<>>]
Do(s, o) == Apply(s, o.op, IF o.op = "solve" THEN [o.a EXCEPT !.w = AbsSol(s, o.a.c)] ELSE o.a)

RECURSIVE RunAll(_, _, _)
RunAll(s, ops, k) == IF k > Len(ops) THEN s ELSE RunAll(Do(s, ops[k]).st, ops, k + 1)

VARIABLES st, hist
\* setting a factor is only meaningful for a pattern of the case
Enabled(s, o) == o.op = "set_pf" => Idx(s.mem.cases[o.a.c].plist, o.a.p) # 0
Init == /\ st = RunAll(InitSt, Prefix, 1) /\ hist = <<>>
        /\ Export => PrintT("A " \o ToJson([prefix |-> Prefix, ops |-> Alphabet]))
Step(k) == /\ Enabled(st, Alphabet[k])
           /\ st' = Do(st, Alphabet[k]).st
           /\ hist' = Append(hist, k)
           /\ Export => PrintT("H " \o ToJson(hist'))
Next == Len(hist) < Depth /\ \E k \in DOMAIN Alphabet : Step(k)
Spec == Init /\ [][Next]_<<st, hist>>
View == st

---------------------------------------------------------------------------
Names(s) == [k \in DOMAIN s |-> s[k].n]
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i].n # s[j].n
OpsOn == {k \in DOMAIN Alphabet : Enabled(st, Alphabet[k])}
After(k) == Do(st, Alphabet[k])

\* C01: each name once; an index never changes and is the one returned.
UniqueNames == NoDup(st.mem.nodes) /\ NoDup(st.mem.beams) /\ NoDup(st.mem.shells)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
StableIndices == \A k \in OpsOn : Alphabet[k].op \notin {"load", "fresh"} =>
   LET r == After(k) IN
   /\ IsPrefixOf(Names(st.mem.nodes), Names(r.st.mem.nodes))
   /\ IsPrefixOf(Names(st.mem.beams), Names(r.st.mem.beams))
   /\ IsPrefixOf(Names(st.mem.shells), Names(r.st.mem.shells))
   /\ r.ok /\ Alphabet[k].op = "add_node" => LET i == Idx(r.st.mem.nodes, Alphabet[k].a.n) IN
        (i > 0 /\ r.v = i - 1) \/ (Alphabet[k].a.dup /\ r.st.mem.nodes[r.v + 1].loc = <<Alphabet[k].a.x, Alphabet[k].a.y, Alphabet[k].a.z>>)
\* C01: a call changes the named object only.
OnlyNamed == \A k \in OpsOn : LET o == Alphabet[k]
                                  r == After(k) IN
   o.op \in {"add_node", "set_mass", "add_beam", "add_sbeam", "set_rel", "add_shell"} =>
     /\ \A i \in DOMAIN st.mem.nodes : (o.op \in {"add_node", "set_mass"} /\ st.mem.nodes[i].n = o.a.n) \/ r.st.mem.nodes[i] = st.mem.nodes[i]
     /\ \A i \in DOMAIN st.mem.beams : (o.op \in {"add_beam", "add_sbeam", "set_rel"} /\ st.mem.beams[i].n = o.a.n) \/ r.st.mem.beams[i] = st.mem.beams[i]
     /\ \A i \in DOMAIN st.mem.shells : (o.op = "add_shell" /\ st.mem.shells[i].n = o.a.n) \/ r.st.mem.shells[i] = st.mem.shells[i]
\* C02: a failed call changes nothing.
FailAtomic == \A k \in OpsOn : LET r == After(k) IN ~r.ok => r.st = st
\* C02, C03, C05: last write wins - saying the same again changes nothing.
Idem == {"set_mass", "set_grest", "add_mat", "add_sec", "set_rel", "set_nload", "set_bdist", "set_bconc", "add_cp", "set_pf", "set_crest", "save", "load", "clear", "fresh", "solve"}
Idempotent == \A k \in OpsOn : Alphabet[k].op \in Idem => LET r == After(k) IN r.ok => Do(r.st, Alphabet[k]).st = r.st
\* C03: a case's load is linear in its factors; patterns are independent.
LoadOnlyItsPattern == \A k \in OpsOn : Alphabet[k].op \in {"set_nload", "set_bdist", "set_bconc"} =>
   LET r == After(k) IN \A i \in DOMAIN st.mem.pats : (r.ok /\ i = st.mem.pcur[Alphabet[k].a.p]) \/ r.st.mem.pats[i] = st.mem.pats[i]
SumOfPatterns == \A c \in DOMAIN st.mem.cases : \A n \in {"n0", "n1"} :
   LET cs == st.mem.cases[c]
       f(i) == ScaleV(cs.plist[i].f, GetOr(st.mem.pats[cs.plist[i].id].nl, n, Zero6))
       half == [cs EXCEPT !.plist = SubSeq(@, 1, Len(@) \div 2)]
       rest == [cs EXCEPT !.plist = SubSeq(@, Len(@) \div 2 + 1, Len(@))]
   IN /\ CaseNodal4(st.mem, cs, n) = AddV(CaseNodal4(st.mem, half, n), CaseNodal4(st.mem, rest, n))
      /\ NoDup(cs.plist)
      /\ \A i \in DOMAIN cs.plist : CaseNodal4(st.mem, [cs EXCEPT !.plist = <<cs.plist[i]>>], n) = f(i)
\* C09: settings of different things commute.
Target(o) == CASE o.op \in {"set_nload", "set_bdist", "set_bconc"} -> <<o.op, o.a.p, o.a.n>> [] o.op = "set_grest" -> <<o.op, o.a.n>>
               [] o.op = "set_crest" -> <<o.op, o.a.c, o.a.n>> [] o.op = "set_mass" -> <<o.op, o.a.n>> [] OTHER -> <<"none">>
Commute == \A j, k \in OpsOn : LET a == Alphabet[j]
                                   b == Alphabet[k] IN
   (Target(a)[1] # "none" /\ Target(b)[1] # "none" /\ (Target(a)[1] # Target(b)[1] \/ Target(a) # Target(b)))
     => Do(Do(st, a).st, b).st = Do(Do(st, b).st, a).st
\* C10: the snapshot changes only by assembling (or clearing); results only by solving their case.
SnapshotIsolated == \A k \in OpsOn : LET o == Alphabet[k]
                                         r == After(k) IN
   /\ o.op \notin {"assemble", "clear"} => r.st.asb = st.asb
   /\ o.op \notin {"solve", "clear"} => r.st.res = st.res
   /\ o.op = "solve" => \A c \in DOMAIN st.res : c # o.a.c => r.st.res[c] = st.res[c]
   /\ o.op = "solve" /\ r.ok => r.st.res[o.a.c].sol.of = <<st.asb.mem>>
   /\ o.op \notin {"save", "clear"} => r.st.files = st.files
CurrentIsOfSnapshot == \A c \in DOMAIN st.res : ResCurrent(st, c) => st.res[c].sol.of = <<st.asb.mem>>
\* C11: what is loaded is what was saved; clearing removes results and saves, not the model.
FilesFaithful == \A k \in OpsOn : LET o == Alphabet[k]
                                      r == After(k) IN
   /\ o.op = "save" => r.st.files[o.a.f] = st.mem /\ r.st.mem = st.mem /\ \A f \in DOMAIN st.files : f # o.a.f => r.st.files[f] = st.files[f]
   /\ o.op = "load" => (r.ok <=> Has(st.files, o.a.f)) /\ (r.ok => r.st.mem = st.files[o.a.f] /\ r.st.asb = st.asb)
   /\ o.op = "clear" => r.st.mem = st.mem /\ DOMAIN r.st.files = {} /\ DOMAIN r.st.res = {} /\ ~r.st.asb.ok
\* C05: effective restraints.
EffectiveRestraints == \A c \in DOMAIN st.mem.cases : LET cs == st.mem.cases[c] IN
   EffRest(st.mem, cs) = IF cs.rest = EmptyMap THEN st.mem.grest ELSE cs.rest
=============================================================================
