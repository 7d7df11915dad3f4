------------------------------ MODULE ShellTrace ------------------------------
(* Trace validation of plane shells; see ApiTrace for the scheme. *)
EXTENDS HSShell, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, nbad

RECURSIVE MaxAbs(_, _)
MaxAbs(v, n) == IF n = 0 THEN 0 ELSE LET m == MaxAbs(v, n - 1) IN IF Abs(v[n]) > m THEN Abs(v[n]) ELSE m
Big(v) == MaxAbs(v, Len(v))
\* Rows v equal rows x up to rounding and a millionth of the largest; component j of row r only where Use(r, j).
RowNear(v, x, tol, use) == Len(v) = 6 /\ \A j \in use : Abs(v[j] - x[j]) <= tol[IF j <= 2 THEN 1 ELSE 2]
Tol(X) == LET inn == MaxAbs([k \in DOMAIN X |-> Big(<<X[k][1], X[k][2]>>)], Len(X))
              out == MaxAbs([k \in DOMAIN X |-> Big(<<X[k][3], X[k][4], X[k][5]>>)], Len(X))
          IN <<1 + inn \div 1000000, 1 + out \div 1000000>>
Rows(v, X, use) == LET t == Tol(X) IN Len(v) = Len(X) /\ \A k \in DOMAIN X : RowNear(v[k], X[k], t, use[k])

Use(six) == IF six THEN 1..6 ELSE 1..5
Forces(s, o, use) == LET h == s.shells[o.id]
                     IN Rows(o.v, [k \in DOMAIN h.P |-> ForceAt(s.c, h, o.f, k)], [k \in DOMAIN h.P |-> use \cap Use(Known6(h, o.f))])
\* The strained membrane of a triangle is a matter of its own.
Force(s, o) == Forces(s, o, IF IsTri(s.shells[o.id]) /\ Strained(o.f) THEN 3..6 ELSE 1..6)
TriMembrane(s, o) == Forces(s, o, 1..6)
NodeUse(s, o, n) == IF s.nodes[n].fr = o.fr /\ Strained(o.f) /\ \E h \in At(s, n) : IsTri(s.shells[h]) THEN 3..5 ELSE Use(NodeKnown6(s, o.f, o.fr, n))
Struct(s, o) == Rows(o.v, [k \in DOMAIN o.ns |-> NodeForce(s, o.f, o.fr, o.ns[k])], [k \in DOMAIN o.ns |-> NodeUse(s, o, o.ns[k])])
Disp(s, o) == IF ~Solves(s, o.f, o.fr) THEN Assert(FALSE, "driver: not a solution")
              ELSE Rows(o.v, [k \in DOMAIN o.ns |-> FieldAt(o.f, s.nodes[o.ns[k]].p)], [k \in DOMAIN o.ns |-> 1..6])
\* Reactions: the forces of the structure less the loads, where restrained.
Reac(s, o) == Rows(o.v, [k \in DOMAIN o.ns |-> [j \in 1..6 |-> IF RestOf(s, o.ns[k])[j] THEN NodeForce(s, o.f, o.fr, o.ns[k])[j] - LoadOf(s, o.ns[k])[j] ELSE 0]],
                   [k \in DOMAIN o.ns |-> 1..5])
MemRatio(s, o) == LET a == s.shells[o.of]
                      b == s.shells[o.id]
                  IN IsM(a) /\ IsM(b) => o.m = b.e * b.th
PlaRatio(s, o) == LET a == s.shells[o.of]
                      b == s.shells[o.id]
                  IN IsP(a) /\ IsP(b) => o.p = b.e * b.th * b.th * b.th
Odd(s, o) == LET c == CopyOf(s.shells[o.of].P, s.shells[o.id].P)
             IN IF c[1] # o.size THEN Assert(FALSE, "driver: size of the copy") ELSE c[2] % 2 = 1

\* The clauses a reading breaks.
Bad(s, o) ==
  IF o.raised THEN {"raised"}
  ELSE CASE o.k = "force"  -> {x \in {"force"} : ~Force(s, o)} \cup {x \in {"triangle-membrane"} : IsTri(s.shells[o.id]) /\ ~TriMembrane(s, o)}
         [] o.k = "struct" -> {x \in {"struct"} : ~Struct(s, o)}
         [] o.k = "disp"   -> {x \in {"disp"} : ~Disp(s, o)}
         [] o.k = "reac"   -> {x \in {"reac"} : ~Reac(s, o)}
         [] o.k = "area"   -> {x \in {"area"} : o.v # Area2(s.shells[o.id].P)}
         [] o.k = "axes"   -> {x \in {"axes"} : o.z # <<0, 0, Sense(s.shells[o.id].P)>> \/ ~o.orth}
         [] o.k = "kind"   -> LET h == s.shells[o.id]
                              IN {x \in {"symmetric"} : ~o.sym} \cup {x \in {"coupled"} : ~o.apart}
                                 \cup {x \in {"resistance"} : o.neg # 0 \/ o.np \notin (IF IsP(h) THEN NullityP(h) ELSE {12})}
                                 \cup {x \in {IF IsTri(h) THEN "triangle-membrane" ELSE "resistance"} : o.nm \notin (IF IsM(h) THEN NullityM(h) ELSE {12})}
         [] o.k = "ratio"  -> IF ~IsCopy(s.shells[o.of].P, s.shells[o.id].P) THEN Assert(FALSE, "driver: not a copy")
                              ELSE {x \in {IF IsTri(s.shells[o.id]) THEN "triangle-membrane" ELSE IF Odd(s, o) THEN "first-corner" ELSE "membrane-copy"} : ~MemRatio(s, o)}
                                   \cup {x \in {"plate-copy"} : ~PlaRatio(s, o)}
         [] o.k = "names"  -> {x \in {"names"} : o.v # DOMAIN s.shells}
         [] OTHER -> Assert(FALSE, "driver: unknown observation")
Is(s, o) == o.k \in {"struct", "disp", "reac", "names"} \/ (o.id \in DOMAIN s.shells /\ (o.k = "ratio" => o.of \in DOMAIN s.shells))

Report(ev, label, k) == PrintT("BAD " \o ToJson([t |-> ev.t, e |-> ev.e, label |-> label, obs |-> k]))
Nil == InitSh([mn |-> 0, md |-> 1, Lc |-> 1])
Fix(o) == IF o.k = "names" /\ ~o.raised THEN [o EXCEPT !.v = {o.v[k] : k \in DOMAIN o.v}] ELSE o
Init == i = 1 /\ st = Nil /\ nbad = 0
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ \E ev \in {Trace[i]} :
     IF ev.op = "reset" THEN st' = InitSh([mn |-> ev.a.mn, md |-> ev.a.md, Lc |-> ev.a.Lc]) /\ nbad' = nbad
     ELSE \E r \in {ApplySh(st, ev.op, ev.a)} :
          \E badret \in {IF ev.ret.ok # r.ok THEN {0} ELSE {}} :
          \E badobs \in {UNION {{<<k, x>> : x \in Bad(r.s, Fix(ev.obs[k]))} : k \in {m \in DOMAIN ev.obs : Is(r.s, ev.obs[m])}}} :
             /\ st' = r.s
             /\ nbad' = nbad + Cardinality(badret) + Cardinality(badobs)
             /\ \A k \in badret : Report(ev, "ret", 0)
             /\ \A x \in badobs : Report(ev, x[2], x[1])
  /\ (i = Len(Trace)) => PrintT("END " \o ToJson([events |-> Len(Trace), bad |-> nbad']))
Spec == Init /\ [][Next]_<<i, st, nbad>>
=============================================================================
