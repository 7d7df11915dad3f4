------------------------------- MODULE CsysTrace -------------------------------
(* Trace validation of coordinate systems; see ApiTrace for the scheme. *)
EXTENDS HSCsys, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cs, nbad

\* o.v: the transformation matrix times o.sc, o.ax: the three axis properties times o.sc.
Same(v, f, sc) == Len(v) = 3 /\ \A m \in 1..3 : Len(v[m]) = 3 /\ \A k \in 1..3 : Abs(v[m][k]) <= sc /\ v[m][k] * f.D = f.R[m][k] * sc
Holds(c, o) ==
  /\ ~o.raised
  /\ LET f == c[o.i] IN
     CASE o.k = "matrix" -> Same(o.v, f, o.sc)
       [] o.k = "axes"   -> Same(o.v, f, o.sc)
       [] o.k = "origin" -> o.v = f.O
       [] o.k = "member" -> o.v = Roll4(f.R, f.q)
       [] o.k = "mlen"   -> o.v = 1
       [] o.k = "name"   -> o.v = f.n
       [] OTHER -> Assert(FALSE, "driver: unknown observation")

Report(ev, label, k) == PrintT("BAD " \o ToJson([t |-> ev.t, e |-> ev.e, label |-> label, obs |-> k]))

Init == i = 1 /\ cs = InitCs /\ nbad = 0
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ \E ev \in {Trace[i]} :
     IF ev.op = "reset" THEN cs' = InitCs /\ nbad' = nbad
     ELSE \E r \in {ApplyCs(cs, ev.op, ev.a)} :
          \E badret \in {IF ev.ret.ok # r.ok THEN {0} ELSE {}} :
          \E badobs \in {{k \in DOMAIN ev.obs : Has(r.cs, ev.obs[k].i) /\ ~Holds(r.cs, ev.obs[k])}} :
             /\ cs' = r.cs
             /\ nbad' = nbad + Cardinality(badret) + Cardinality(badobs)
             /\ \A k \in badret : Report(ev, "ret", 0)
             /\ \A k \in badobs : Report(ev, ev.obs[k].k, k)
  /\ (i = Len(Trace)) => PrintT("END " \o ToJson([events |-> Len(Trace), bad |-> nbad']))
Spec == Init /\ [][Next]_<<i, cs, nbad>>
=============================================================================
