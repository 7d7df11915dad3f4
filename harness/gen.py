"""Plan generators: one profile per property.  A plan is a sequence of abstract
calls with the readings to take after each."""
import copy
import random
import unicodedata
from fractions import Fraction as Fr
from math import gcd, lcm

import runner

from exact import (F12, F6, NOROT, Z12, Z6, Z8, Mirror, Reject, axes, beam_len, ck, deform_s, fef_fr, fef_s,
                   fs_scale, idx, kmat, sq, vec, RD, CU)

# unit vectors times 5 for the admissible directions, with the length quantum
AX = [(5, 0, 0), (-5, 0, 0), (0, 5, 0), (0, -5, 0), (0, 0, 5), (0, 0, -5)]
HOR = [(5, 0, 0), (-5, 0, 0), (0, 5, 0), (0, -5, 0)]
P345 = [(s * a, t * b, 0) for a, b in ((3, 4), (4, 3)) for s in (1, -1) for t in (1, -1)]
P345V = [(s * a, 0, t * b) for a, b in ((3, 4), (4, 3)) for s in (1, -1) for t in (1, -1)] + \
        [(0, s * a, t * b) for a, b in ((3, 4), (4, 3)) for s in (1, -1) for t in (1, -1)]
# (12,16,15)/25 and the like: length 5 only
P25 = [(s * a, t * b, u * 15) for a, b in ((12, 16), (16, 12)) for s in (1, -1) for t in (1, -1) for u in (1, -1)] + \
      [(s * a, t * b, u * 20) for a, b in ((9, 12), (12, 9)) for s in (1, -1) for t in (1, -1) for u in (1, -1)]
ROTS = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, -3, 5), (-3, 4, 5), (-4, -3, 5)]
SCALES = [dict(), dict(length=1000.0, force=1e3, load=2.5), dict(length=0.3048, force=4448.0, load=0.01),
          dict(length=2.5, force=1e9, load=1e4), dict(length=0.1, force=10.0, load=7.0), dict(length=12.0, force=1.0, load=1000.0),
          dict(load=1e-8), dict(length=10.0, force=1e-3, load=1e-7),
          dict(length=5.0, force=100.0, offset=4096.0), dict(length=2.0, force=1e6, load=3.0, kappa=1e-6), dict(length=20.0, load=5.0, kappa=1e4)]
ODD = ["", "结点", "a b", "N-1", "x.y", "0", "10", "2", "É", "beam#", "K", "name_", "'q'", "%s", "1e3"]


def twin(r, x):
    """Another name that careless handling could take for x."""
    x = x if len(x) < 60 else x[:20]
    return r.choice([x.swapcase(), x + " ", x + ".1", x + "_1", x * 2, x[:-1], x + "_" * 33 + str(r.randint(0, 3)), unicodedata.normalize("NFD", x), x + "\u200b"])


class Plan:
    def __init__(self, rng, backend="api", scale=None, rename=True):
        self.r = rng
        self.backend = backend
        self.m = Mirror()
        self.events = []
        self.scale = dict(scale if scale is not None else rng.choice(SCALES))
        # members carry 1e-12 of rotational mass: the unit of rotational mass (mass x length^2) stays well above it
        self.scale.setdefault("mass", 10.0 ** rng.randint(0, 5) / min(1.0, self.scale.get("length", 1.0) ** 2))
        self.scale.setdefault("rho", rng.choice([1.0, 7850.0, 2.5e-9]))
        self.names = {}
        self.rename = rename
        self.qx = {}

    def name(self, kind, k):
        """abstract name; its real one is arbitrary"""
        n = "%s%d" % (kind, k)
        if self.rename and n not in self.names:
            same = {v for k, v in self.names.items() if runner.kind_of(k) == runner.kind_of(n)}
            while True:
                u = self.r.random()
                if u < 0.3 and self.names:      # the name of a thing of another kind
                    x = self.r.choice(sorted(self.names.values()))
                elif u < 0.5 and same:          # all but the name of another of its kind
                    x = twin(self.r, self.r.choice(sorted(same)))
                else:
                    x = self.r.choice(ODD) + self.r.choice(["", "", str(self.r.randint(0, 30)), kind])
                if kind in ("c", "f") and (x[:1] not in "cC" or "%" in x or "/" in x):
                    x = "c" + x.replace("%", "p").strip()
                if x.strip() and x not in same:
                    break
            self.names[n] = x
        return n

    def ev(self, op, obs=(), silent=False, **a):
        ok, v = self.m.apply(op, a)
        self.events.append(dict(op=op, a=a, obs=list(obs), silent=silent))
        return ok

    def solve(self, c, obs=()):
        w = self.m.witness(c)
        return self.ev("solve", obs, c=c, w=w)

    def ob(self, **o):
        self.events[-1]["obs"].append(o)

    def q(self, c):
        r = self.m.res.get(c)
        return r[1]["q"] if r else 4

    def mag(self, c, kind, k=1.0):
        """size of the numbers a reading is computed from (its rounding noise)"""
        r = self.m.res.get(c)
        x = 1.0 if r is None or "_mag" not in r[1] else k * r[1]["_mag"][kind]
        if x > 4e8 and self.cur(c):
            raise Reject("resolution")
        return x

    def cur(self, c):
        r = self.m.res.get(c)
        return self.m.asb is not None and r is not None and r[0] == self.m.nasb

    # result readings (only where the specification says what they are)
    def ob_disp(self, c, n):
        self.ob(k="disp", c=c, n=n, q=self.q(c), m=self.mag(c, "u"))

    def ob_react(self, c, n):
        if self.cur(c) and self.m.asb is not None:
            w = self.m.res[c][1]
            f4 = None
            if w["kind"] == "sol" and idx(self.m.asb["nodes"], n) >= 0:
                f4 = Mirror.case_nodal4(self.m.asb, self.m.asb["cases"][c], n)
                t = w["_tot"].get(n, [0] * 6)
                for x, y in zip(t, f4):
                    ck(x - ck(25 * (w["q"] // 4) * y))
        self.ob(k="react", c=c, n=n, q=self.q(c), m=self.mag(c, "f", 25.0))

    def ob_endf(self, c, b, k="endf"):
        self.ob(k=k, c=c, b=b, q=self.q(c), m=self.mag(c, "f"))

    def ob_deform(self, c, b, xn, xd):
        l = 1
        if self.m.asb is not None:
            k = idx(self.m.asb["beams"], b)
            if k >= 0:
                bb = self.m.asb["beams"][k]
                l = beam_len(bb["la"], bb["lb"])
                if self.cur(c) and self.m.res[c][1]["kind"] == "sol":
                    self.m.check_deform(self.m.res[c][1], b, l, xn, xd)
        self.ob(k="deform", c=c, b=b, xn=xn, xd=xd, l=l, q=self.q(c), m=self.mag(c, "u", float(l * xd ** 3)))

    def done(self):
        # one solver object for every case of an assembly, or one per solve
        if self.names:
            # a name nobody has
            u = twin(self.r, self.r.choice(sorted(self.names.values())))
            if u.strip() and u not in self.names.values() and "zz" not in self.names:
                self.names["zz"] = u
        return dict(backend=self.backend, scale=self.scale, names=self.names, events=self.events, reuse=self.r.random() < 0.5)


def attempts(rng, f, n=60):
    """f(rng) -> plan, retried on plans that cannot be represented"""
    for _ in range(n):
        try:
            return f(random.Random(rng.getrandbits(64)))
        except Reject:
            continue
    raise Reject("no plan")


# ------------------------------------------------------------------ frames --
def grow(r, nn, dirs, lens, extra=0, planar=None):
    """Random connected graph of nn nodes with admissible members."""
    for _ in range(200):
        pts = [(5 * r.randint(-3, 3), 5 * r.randint(-3, 3), 5 * r.randint(-3, 3))]
        if planar:
            pts = [(0, 0, 0)]
        edges = []
        tries = 0
        while len(pts) < nn and tries < 400:
            tries += 1
            i = r.randrange(len(pts)) if r.random() < 0.6 else len(pts) - 1
            d = r.choice(dirs)
            k = 1 if max(abs(x) for x in d) > 5 or sum(x * x for x in d) > 25 else r.choice(lens)
            p = tuple(pts[i][j] + k * d[j] for j in range(3))
            if p in pts:
                continue
            pts.append(p)
            e = (i, len(pts) - 1)
            edges.append(e if r.random() < 0.5 else e[::-1])
        if len(pts) < nn:
            continue
        cand = []
        for i in range(nn):
            for j in range(i):
                if (i, j) in edges or (j, i) in edges:
                    continue
                v = vec(pts[i], pts[j])
                L = sq(sum(x * x for x in v))
                if L <= 0 or L % 5 or L > 35:
                    continue
                try:
                    axes(pts[i], pts[j], NOROT)
                except Reject:
                    continue
                cand.append((i, j))
        r.shuffle(cand)
        edges += [e if r.random() < 0.5 else e[::-1] for e in cand[:extra]]
        return pts, edges
    raise Reject("graph")


def props(r, l, E, mn, md, k=3):
    """Integers A, I2, I3, J with exact stiffness coefficients for length l."""
    g = E * md // (2 * (md + mn))
    A = r.randint(1, k) * (l // gcd(E, l))
    q = l ** 3 // gcd(2 * E, l ** 3)
    I2, I3 = r.randint(1, k) * q, r.randint(1, k) * q
    J = r.randint(1, k) * (l // gcd(g, l))
    return A, I2, I3, J


MATS = [(2, 0, 1), (6, 1, 2), (8, 1, 3), (5, 1, 4), (10, 1, 4), (12, 1, 2), (26, 3, 10), (4, 0, 1), (12, 1, 5)]


def mat_ok(E, mn, md):
    return (E * md) % (2 * (md + mn)) == 0


MATS = [m for m in MATS if mat_ok(*m)]


def den(pts, edges, rots):
    d = 1
    for (i, j), t in zip(edges, rots):
        d = lcm(d, axes(pts[i], pts[j], t)[0])
    return d


class Frame:
    """A frame being defined in a plan."""

    def __init__(self, P, pts, edges, rots=None, kinds=None, node0=0, beam0=0):
        self.P = P
        self.pts, self.edges = pts, edges
        self.rots = rots or [NOROT] * len(edges)
        self.nodes = [P.name("n", node0 + k) for k in range(len(pts))]
        self.beams = [P.name("b", beam0 + k) for k in range(len(edges))]
        self.D = den(pts, edges, self.rots)
        self.kinds = kinds

    def calls(self):
        """definition calls, each with the names it defines and needs"""
        P, r = self.P, self.P.r
        out = []
        for n, p in zip(self.nodes, self.pts):
            out.append(("add_node", dict(n=n, x=p[0], y=p[1], z=p[2], dup=False), {n}, set()))
        nm = 0
        for k, ((i, j), b) in enumerate(zip(self.edges, self.beams)):
            la, lb = self.pts[i], self.pts[j]
            l = beam_len(la, lb)
            E, mn, md = r.choice(MATS)
            A, I2, I3, J = props(r, l, E, mn, md)
            need = {self.nodes[i], self.nodes[j]}
            if r.random() < 0.5:
                m, s = P.name("m", k), P.name("s", k)
                out.append(("add_mat", dict(n=m, rho=r.randint(0, 9), E=E, mn=mn, md=md), {m}, set()))
                out.append(("add_sec", dict(n=s, mat=m, A=A, I2=I2, I3=I3, J=J), {s}, {m}))
                out.append(("add_beam", dict(n=b, s=self.nodes[i], e=self.nodes[j], sec=s, dup=False), {b}, need | {s}))
            else:
                out.append(("add_sbeam", dict(n=b, s=self.nodes[i], e=self.nodes[j], E=E, mn=mn, md=md, A=A, I2=I2, I3=I3,
                                              J=J, rho=r.randint(0, 9), dup=False), {b}, need))
            if self.rots[k] != NOROT:
                out.append(("set_rot", dict(n=b, rot=list(self.rots[k])), set(), {b}))
        return out

    def define(self, shuffle=False):
        emit(self.P, self.calls(), shuffle)


def emit(P, calls, shuffle=False):
    """Issue definition calls in an order that respects what they need."""
    calls = list(calls)
    if not shuffle:
        for op, a, d, n in calls:
            P.ev(op, **a)
        return
    have = set()
    defined = set().union(*[c[2] for c in calls]) if calls else set()
    while calls:
        ready = [c for c in calls if not ((c[3] & defined) - have)]
        c = P.r.choice(ready)
        calls.remove(c)
        P.ev(c[0], **c[1])
        have |= c[2]


def rest6(r, kind=None):
    kind = kind or r.choice(["fix", "fix", "pin", "rand", "roll"])
    if kind == "fix":
        return [True] * 6
    if kind == "pin":
        return [True] * 3 + [False] * 3
    if kind == "roll":
        v = [False] * 6
        v[r.randrange(3)] = True
        return v
    return [r.random() < 0.5 for _ in range(6)]


def small_fef(r, l, comps=None, mag=2, D=1):
    """A member load whose fixed-end values are integers: (q8 or None, conc or None)."""
    out = {}
    if r.random() < 0.7:
        q = [0] * 8
        for k in r.sample(range(8), r.randint(1, 4)):
            q[k] = r.randint(-mag, mag)
        if r.random() < 0.3:
            q = [q[k - k % 2] for k in range(8)]        # uniform
        out["q"] = scale_fef(q, Z6, 1, 2, l, D, True)
    if r.random() < 0.6 or not out:
        F = [0] * 6
        for k in r.sample(range(6), r.randint(1, 3)):
            F[k] = r.randint(-mag, mag)
        rn, rd = r.choice([(1, 2), (1, 2), (1, 4), (3, 4), (0, 1), (1, 1), (1, 3), (2, 3), (1, 5), (4, 5)])
        out["c"] = (scale_fef(Z8, F, rn, rd, l, D, False), rn, rd)
    return out


def scale_fef(q, F, rn, rd, l, D, dist):
    fr = fef_fr(q, F, rn, rd, l)
    m = D
    for x in fr:
        m = lcm(m, D * (x / D).denominator if D > 1 else x.denominator)
    if D > 1:
        m = 1
        for x in fr:
            m = lcm(m, (x / D).denominator)
    return [x * m for x in (q if dist else F)]


def manufacture(P, c, npat=2, pats=None, names=None, loads=True, Uscale=1, factors=None, emit_now=True, mag=3, uni=False):
    """Loads for case c (already added, restraints already set) under which the
    structure currently defined takes a simple displaced shape.  Returns calls."""
    r = P.r
    m = P.m.mem
    case = m["cases"][c]
    rest = case["rest"] if case["rest"] else m["grest"]
    pats = pats or [P.name("p", len(m["pcur"]) + k) for k in range(npat)]
    npat = len(pats)
    fac = factors or [r.choice([4, 4, -4, 2, 1, 6, 8, -1, 12]) for _ in range(npat)]
    fac[-1] = r.choice([1, -1, 2, 4]) if factors is None else fac[-1]
    beams = m["beams"]
    D = 1
    info = {}
    for b in beams:
        t = axes(b["la"], b["lb"], b["rot"])
        info[b["n"]] = (t, beam_len(b["la"], b["lb"]))
        D = lcm(D, t[0])
    nl = [dict() for _ in range(npat)]
    bd = [dict() for _ in range(npat)]
    bc = [dict() for _ in range(npat)]
    tot = {b["n"]: [Fr(0)] * 12 for b in beams}
    if loads:
        for k in range(npat):
            for b in r.sample(beams, min(len(beams), r.randint(0, 3))):
                t, l = info[b["n"]]
                ld = small_fef(r, l, mag=2)
                if "q" in ld:
                    bd[k][b["n"]] = ld["q"]
                if "c" in ld:
                    bc[k][b["n"]] = ld["c"]
                cc = ld.get("c", (Z6, 1, 2))
                f = fef_fr(ld.get("q", Z8), cc[0], cc[1], cc[2], l)
                tot[b["n"]] = [x + Fr(fac[k], 4) * y for x, y in zip(tot[b["n"]], f)]
            for n in r.sample(m["nodes"], min(len(m["nodes"]), r.randint(0, 2))):
                nl[k][n["n"]] = [r.randint(-3, 3) for _ in range(6)]
    U = {}
    for n in m["nodes"]:
        rr = rest.get(n["n"], F6)
        U[n["n"]] = [0 if rr[k] else Uscale * r.randint(-mag, mag) for k in range(6)]
    # internal displacement of released ends, then end forces
    need = {n["n"]: [Fr(0)] * 6 for n in m["nodes"]}
    DLd = []
    for b in beams:
        (Dn, R), l = info[b["n"]]
        K = kmat(b["p"], l)
        u = U[b["s"]] + U[b["e"]]
        d = [sum(Fr(R[k % 3][j], Dn) * u[(k // 3) * 3 + j] for j in range(3)) for k in range(12)]
        rel = [k for k in range(12) if b["rel"][k]]
        if rel:
            un = [k for k in range(12) if k not in rel]
            A = [[K[i][j] for j in rel] + [tot[b["n"]][i] - sum(K[i][j] * d[j] for j in un)] for i in rel]
            s = solve_fr(A)
            for k, v in zip(rel, s):
                d[k] = v
        elif b["p"]["J"] < 0 and d[3] != d[9]:
            raise Reject("torsion")
        DLd += d
        e = [sum(K[i][j] * d[j] for j in range(12)) - tot[b["n"]][i] for i in range(12)]
        for k in range(12):
            o = (k // 3) * 3
            nd = need[b["s"]] if k < 6 else need[b["e"]]
            for j in range(3):
                nd[(o + j) % 6] += Fr(R[k % 3][j], Dn) * e[k]
    last = {}
    for n in m["nodes"]:
        rr = rest.get(n["n"], F6)
        v = [Fr(r.randint(-3, 3)) if rr[k] and r.random() < 0.4 else
             (Fr(0) if rr[k] else (need[n["n"]][k] - sum(Fr(fac[p], 4) * nl[p].get(n["n"], Z6)[k] for p in range(npat - 1))) * Fr(4, fac[-1]))
             for k in range(6)]
        last[n["n"]] = v
    mult = 1
    for v in last.values():
        for x in v:
            mult = lcm(mult, x.denominator)
    if mult > 4000:
        raise Reject("loads")
    nl[-1] = {n: [int(x * mult) for x in v] for n, v in last.items() if any(v)}
    for p in range(npat - 1):
        nl[p] = {n: [x * mult for x in v] for n, v in nl[p].items()}
    calls = []
    for p in range(npat):
        pn = pats[p]
        calls.append(("add_pat", dict(p=pn), {pn}, set()))
        for n, v in nl[p].items():
            calls.append(("set_nload", dict(p=pn, n=n, f=v), set(), {pn}))
        for b, q in bd[p].items():
            calls.append(("set_bdist", dict(p=pn, n=b, q=[x * mult for x in q]), set(), {pn}))
        for b, (F, rn, rd) in bc[p].items():
            calls.append(("set_bconc", dict(p=pn, n=b, f=[x * mult for x in F], rn=rn, rd=rd), set(), {pn}))
        calls.append(("add_cp", dict(c=c, p=pn, f=fac[p]), set(), {pn, c}))
    if emit_now:
        emit(P, calls)
    return calls


def solve_fr(A):
    n = len(A)
    for i in range(n):
        p = next((k for k in range(i, n) if A[k][i]), None)
        if p is None:
            raise Reject("internal mechanism")
        A[i], A[p] = A[p], A[i]
        iv = 1 / A[i][i]
        A[i] = [x * iv for x in A[i]]
        for k in range(n):
            if k != i and A[k][i]:
                f = A[k][i]
                A[k] = [x - f * y for x, y in zip(A[k], A[i])]
    return [A[i][n] for i in range(n)]


def stable_releases(r, K, n):
    """A random set of at most n released components with which the member stays stable."""
    for _ in range(50):
        k = r.randint(1, n)
        rel = sorted(r.sample(range(12), k))
        try:
            solve_fr([[K[i][j] for j in rel] + [Fr(0)] for i in rel])
        except Reject:
            continue
        v = [False] * 12
        for x in rel:
            v[x] = True
        return v
    raise Reject("releases")


def random_frame(P, nmin, nmax, style=None, rots=False, extra=None, node0=0, beam0=0):
    r = P.r
    style = style or r.choice(["ax", "ax", "345", "345v", "mix", "25"])
    dirs = dict(ax=AX, hor=HOR, **{"345": AX + P345, "345v": AX + P345V, "mix": AX + P345 + P345V, "25": P25 + AX})[style]
    lens = r.choice([[1], [1, 2], [2], [1, 2, 3], [5], [1, 5]]) if style != "25" else [5]
    if style in ("mix",):
        lens = r.choice([[1], [1, 2], [5]])
    nn = r.randint(nmin, nmax)
    pts, edges = grow(r, nn, dirs, lens, extra=r.randint(0, 3) if extra is None else extra)
    rt = None
    if rots:
        rt = [r.choice(ROTS) if r.random() < 0.7 else NOROT for _ in edges]
        for (i, j), t in zip(edges, rt):
            axes(pts[i], pts[j], t)
    return Frame(P, pts, edges, rt, node0=node0, beam0=beam0)


def supports(P, F, case=None, kinds=None, n=None):
    """Restraints that (mostly) make the frame stable."""
    r = P.r
    n = n or r.randint(1, max(1, min(4, len(F.nodes) - 1)))
    ns = r.sample(F.nodes, n)
    out = []
    for k, x in enumerate(ns):
        rr = [True] * 6 if (k == 0 and r.random() < 0.75) else rest6(r)
        if kinds:
            rr = rest6(r, r.choice(kinds))
        if case is None:
            out.append(("set_grest", dict(n=x, r=rr), set(), {x}))
        else:
            out.append(("set_crest", dict(c=case, n=x, r=rr), set(), {case}))
    return out


def maybe_turn(P, F, rests):
    """Turn the whole structure about the vertical where nothing but the restraints could notice."""
    vert = any(F.pts[i][:2] == F.pts[j][:2] for i, j in F.edges)
    sym = all(a["r"][0] == a["r"][1] and a["r"][3] == a["r"][4] for _, a, _, _ in rests)
    if not vert and sym and P.r.random() < 0.6:
        P.scale["theta"] = P.r.choice([0.3, 1.1, 2.0, -0.7, 3.0, -2.2])


def readout(P, c, F, what, nodes=None, beams=None, locs=3):
    r = P.r
    nodes = nodes if nodes is not None else F.nodes
    beams = beams if beams is not None else F.beams
    if "disp" in what:
        for n in nodes:
            P.ob_disp(c, n)
    if "react" in what:
        for n in nodes:
            P.ob_react(c, n)
    if "endf" in what:
        for b in beams:
            P.ob_endf(c, b)
    if "rel0" in what:
        for b in beams:
            P.ob_endf(c, b, "rel0")
    if "deform" in what:
        for b in beams:
            for _ in range(locs):
                xn, xd = r.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 3), (2, 3), (1, 5), (2, 5), (3, 5), (4, 5), (1, 10), (7, 10), (9, 10)])
                P.ob_deform(c, b, xn, xd)


def prefer_stable(P, p=0.9):
    """Most plans with a mechanism are dropped, some are kept."""
    if any(e["op"] == "solve" and e["a"]["w"]["kind"] == "mech" for e in P.events) and P.r.random() < p:
        raise Reject("mechanism")


def solved_plan(rng, what, nmin=2, nmax=6, backend=None, rots=False, style=None, ncase=1, releases=0, turn=True, loads=True, big=False,
                beamk=False, own=None, npat=None, simple=False):
    """A frame, its supports, loads manufactured per case; assemble, solve, read."""
    def f(r):
        be = backend or r.choice(["api", "api", "direct"])
        if rots:
            be = "direct"
        P = Plan(r, be)
        F = random_frame(P, nmin, nmax, style, rots=rots, extra=None if not big else 4)
        F.define(shuffle=r.random() < 0.4)
        if beamk and be == "direct":
            for b in F.beams:
                P.ob(k="beamk", b=b)
        if releases:
            for b in r.sample(F.beams, min(len(F.beams), r.randint(1, 3))):
                bb = P.m.mem["beams"][idx(P.m.mem["beams"], b)]
                K = kmat(bb["p"], beam_len(bb["la"], bb["lb"]))
                P.ev("set_rel", n=b, r=stable_releases(r, K, releases))
        cases = [P.name("c", k) for k in range(ncase)]
        rests = []
        use_own = own if own is not None else r.random() < 0.4
        glob = supports(P, F)
        if not use_own or r.random() < 0.6:
            rests += glob
        emit(P, glob if (not use_own or rests) else [])
        for c in cases:
            P.ev("add_case", c=c, kind="static")
            if use_own and (not rests or r.random() < 0.7):
                s = supports(P, F, case=c)
                rests += s
                emit(P, s)
        if not P.m.mem["grest"] and any(not P.m.mem["cases"][c]["rest"] for c in cases):
            s = supports(P, F)
            rests += s
            emit(P, s)
        if turn:
            maybe_turn(P, F, rests)
        for c in cases:
            manufacture(P, c, npat=npat or r.randint(1, 3), loads=loads, Uscale=F.D)
        P.ev("assemble")
        order = list(cases)
        r.shuffle(order)
        for c in order:
            P.solve(c)
            if len(cases) == 1:
                readout(P, c, F, what)
        prefer_stable(P)
        if len(cases) > 1:
            r.shuffle(order)
            for c in order:
                P.ev("nop")
                readout(P, c, F, what)
        return P.done()
    return attempts(rng, f)
