------------------------------- MODULE SecTrace -------------------------------
(* Trace validation of materials and sections; see ApiTrace for the scheme. *)
EXTENDS HSSection, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, mats, secs, nbad

Abs(x) == IF x < 0 THEN -x ELSE x
\* v (thousandths, rounded) is x up to rounding and one part in t.
Is(v, x, t) == Abs(v - x) <= 3 + Abs(x) \div t
T5 == 100000
IsP(v, x, t) == Abs(v - x) <= 40 + Abs(x) \div t        \* x is a product of a rounded value by a digit
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

MatOk(o, m) == /\ o.name = m.n /\ Is(o.rho, 1000 * m.rho, T5) /\ Is(o.E, 1000 * m.E, T5) /\ Is(o.mu, Milli(m.mn, m.md), T5)
               /\ Is(o.G, GOf(m), T5)
MatBad(o, m) == {x \in {"mat"} : ~MatOk(o, m)} \cup {x \in {"lame"} : ~Is(o.lame, LameOf(m), T5)} \cup {x \in {"alpha"} : ~Is(o.a, 1000 * m.a, T5)}
Matrix(o, v) == Len(o) = 3 /\ \A r \in 1..3 : Len(o[r]) = 3 /\ \A c \in 1..3 : Is(o[r][c], Full(v)[r][c], T5)
StressBad(o, m) == {x \in {"strain"} : ~Matrix(o.C, TensorOf(o.eps))} \cup {x \in {"stress"} : ~Matrix(o.D, StressOf(m, o.eps))}
\* Everything a section reports that is not what its dimensions and material give.
SecBad(o, s) ==
  LET p == Props(s.k, s.d)
      m == s.mat
      ok == [A |-> Is(o.A, p.A, T5), As2 |-> Is(o.As2, p.As2, T5), As3 |-> Is(o.As3, p.As3, T5),
             I22 |-> Is(o.I22, p.I22, T5), I33 |-> Is(o.I33, p.I33, T5), W22 |-> Is(o.W22, p.W22, T5), W33 |-> Is(o.W33, p.W33, T5),
             J |-> Is(o.J, p.J, p.tj), i22 |-> Is(o.i2, p.i2, T5), i33 |-> Is(o.i3, p.i3, T5),
             massperlength |-> IsP(o.lam, m.rho * p.A, T5), material |-> MatOk([o EXCEPT !.name = o.mname], m),
             names |-> o.name = s.n /\ o.shape = Shape(s.k) /\ (s.k = "general" \/ o.sizes = s.d)]
  IN {x \in DOMAIN ok : ~ok[x]}
ShellBad(o, s) == {x \in {"shell"} : ~(MatOk([o EXCEPT !.name = o.mname], s.mat) /\ o.name = s.n /\ o.t = s.d[1] /\ o.type = s.k)}
\* Stiffness of a member of the section: EA, EI33, EI22, GJ (thousandths).
StiffBad(o, s) ==
  LET p == Props(s.k, s.d)
      ok == [EA |-> IsP(o.EA, s.mat.E * p.A, T5), EI33 |-> IsP(o.EI33, s.mat.E * p.I33, T5), EI22 |-> IsP(o.EI22, s.mat.E * p.I22, T5),
             GJ |-> IsP(o.GJ, MulDiv(p.J, s.mat.E * s.mat.md, 2 * (s.mat.md + s.mat.mn)), p.tj)]
  IN {x \in DOMAIN ok : ~ok[x]}
Bad(o) ==
  IF o.raised THEN {"raised"}
  ELSE CASE o.k = "stress" -> StressBad(o, mats'[o.id]) [] o.k = "mat" -> MatBad(o, mats'[o.id]) [] o.k = "sec" -> SecBad(o, secs'[o.id])
         [] o.k = "stiff" -> StiffBad(o, secs'[o.id]) [] o.k = "shell" -> ShellBad(o, secs'[o.id])

Report(ev, label, k) == PrintT("BAD " \o ToJson([t |-> ev.t, e |-> ev.e, label |-> label, obs |-> k]))
None == [x \in {} |-> 0]
Init == i = 1 /\ mats = None /\ secs = None /\ nbad = 0
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ \E ev \in {Trace[i]} :
     /\ CASE ev.op = "reset" -> mats' = None /\ secs' = None
          [] ev.op = "mat"   -> mats' = Put(mats, ev.a.n, ev.a) /\ secs' = secs
          [] ev.op = "sec"   -> mats' = mats /\ secs' = (IF ev.a.m \in DOMAIN mats
                                                         THEN Put(secs, ev.a.n, [n |-> ev.a.n, k |-> ev.a.k, d |-> ev.a.d, mat |-> mats[ev.a.m]]) ELSE secs)
     /\ \E badret \in {IF ev.op # "reset" /\ ev.ret.ok # (ev.op = "mat" \/ ev.a.m \in DOMAIN mats) THEN {0} ELSE {}} :
        \E badobs \in {{k \in DOMAIN ev.obs : Bad(ev.obs[k]) # {}}} :
           /\ nbad' = nbad + Cardinality(badret) + Cardinality(badobs)
           /\ \A k \in badret : Report(ev, "ret", 0)
           /\ \A k \in badobs : Report(ev, CHOOSE x \in Bad(ev.obs[k]) : TRUE, k)
  /\ (i = Len(Trace)) => PrintT("END " \o ToJson([events |-> Len(Trace), bad |-> nbad']))
Spec == Init /\ [][Next]_<<i, mats, secs, nbad>>
=============================================================================
