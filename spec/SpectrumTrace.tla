---------------------------- MODULE SpectrumTrace ----------------------------
(***************************************************************************)
(* Trace validation of design spectra and load curves; see ApiTrace for    *)
(* the scheme.  State: the objects made so far, which nothing changes.     *)
(***************************************************************************)
EXTENDS HSSpectrum, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, objs, nbad

Abs(x) == IF x < 0 THEN -x ELSE x
Is(v, x) == Abs(v - x) <= 12 + Abs(x) \div 50000
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* A curve: its abscissae and ordinates (millionths of the units of the plan).
Curve(a) == IF a.k = "list" THEN [xs |-> [n \in 1..Len(a.xs) |-> 1000 * a.xs[n]], ys |-> [n \in 1..Len(a.ys) |-> 1000 * a.ys[n]]]
            ELSE [xs |-> [n \in 1..a.n |-> 1000 * (n - 1)],
                  ys |-> [n \in 1..a.n |-> a.A * (IF a.k = "sin" THEN Sine(a.ph + a.w * (n - 1)) ELSE Cosine(a.ph + a.w * (n - 1)))]]
Same(v, x) == Len(v) = Len(x) /\ \A n \in 1..Len(x) : Is(v[n], x[n])
CurveBad(o, a) ==
  LET c == Curve(a)
  IN {x \in {"points"} : o.n # Len(c.xs) \/ ~Same(o.xs, c.xs)} \cup {x \in {"ordinates"} : ~Same(o.ys, c.ys)}
     \cup {x \in {"array"} : ~(o.rows = 2 /\ Same(o.ax, c.xs) /\ Same(o.ay, c.ys))} \cup {x \in {"name"} : o.name # a.n0}
\* A spectrum tabulated every dt ms up to 6 s (the last period may be 6 s itself or the one before it).
Branch(a, t) == CASE t < 100 -> "rise" [] t >= 100 /\ t < a.tg -> "plateau" [] t >= 100 /\ t >= a.tg /\ t < 5 * a.tg -> "curved" [] OTHER -> "slope"
SpecBad(o, a) == {x \in {"periods"} : ~o.grid} \cup {Branch(a, t) : t \in {o.ts[n] : n \in {m \in DOMAIN o.ts : ~Is(o.vs[m], Alpha(a.x, a.tg, o.ts[m]))}}}

Bad(o) == IF o.raised THEN {"raised"}
          ELSE LET a == objs'[o.id] IN IF a.k \in {"list", "sin", "cos"} THEN CurveBad(o, a) ELSE SpecBad(o, a)

Report(ev, label, k) == PrintT("BAD " \o ToJson([t |-> ev.t, e |-> ev.e, label |-> label, obs |-> k]))
None == [x \in {} |-> 0]
Init == i = 1 /\ objs = None /\ nbad = 0
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ \E ev \in {Trace[i]} :
     /\ CASE ev.op = "reset" -> objs' = None
          [] ev.op = "make"  -> objs' = Put(objs, ev.a.id, ev.a)
          [] ev.op = "touch" -> objs' = objs           \* the caller changes what it passed in or was given
     /\ \E badret \in {IF ~ev.ret.ok THEN {0} ELSE {}} :
        \E badobs \in {{k \in DOMAIN ev.obs : Bad(ev.obs[k]) # {}}} :
           /\ nbad' = nbad + Cardinality(badret) + Cardinality(badobs)
           /\ \A k \in badret : Report(ev, "ret", 0)
           /\ \A k \in badobs : Report(ev, CHOOSE x \in Bad(ev.obs[k]) : TRUE, k)
  /\ (i = Len(Trace)) => PrintT("END " \o ToJson([events |-> Len(Trace), bad |-> nbad']))
Spec == Init /\ [][Next]_<<i, objs, nbad>>
=============================================================================
