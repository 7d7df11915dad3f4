"""What is executed for each property of the core interface (C01-C12)."""
import copy
import random
from fractions import Fraction as Fr

from exact import (F12, F6, NOROT, Z12, Z6, Z8, Reject, axes, beam_len, ck, fef_s, fs_scale, idx, kmat, sq, vec)
from gen import (AX, HOR, MATS, P25, P345, P345V, SCALES, Frame, Plan, attempts, emit, grow, manufacture, maybe_turn, prefer_stable, props, random_frame,
                 readout, rest6, scale_fef, small_fef, solved_plan, stable_releases, supports)

UNKNOWN = ["zz", "?9", "nobody"]


def pick(r, pool, bad=0.08):
    return r.choice(UNKNOWN) if r.random() < bad else r.choice(pool)


def vals(r, n, m=9, zero=0.3):
    return [0 if r.random() < zero else r.randint(-m, m) for _ in range(n)]


# --------------------------------------------------------------- registries --
POS = [(0, 0, 0), (5, 0, 0), (0, 5, 0), (0, 0, 5), (5, 5, 0), (3, 4, 0), (10, 0, 0), (-5, 0, 5), (7, -2, 11), (0, 0, -5), (15, 20, 0),
       (1, 2, 3), (-9, 12, 20), (5, 0, 5), (0, 5, 5), (2, 0, 0), (-4, 1, -6)]


class History:
    """Random definition calls over small pools of names."""

    def __init__(self, P, bad=0.08, dup=0.2):
        self.P, self.r = P, P.r
        self.bad = bad
        self.dup = dup if P.backend == "direct" else 0.0
        n = P.r.choice([2, 3, 4, 6])
        self.N = [P.name("n", k) for k in range(n + 1)]
        self.B = [P.name("b", k) for k in range(max(2, n - 1))]
        self.H = [P.name("h", k) for k in range(2)]
        self.M = [P.name("m", k) for k in range(2)]
        self.S = [P.name("s", k) for k in range(3)]
        self.SS = [P.name("t", k) for k in range(2)]
        self.PT = [P.name("p", k) for k in range(3)]
        self.C = [P.name("c", k) for k in range(3)]
        self.ty = P.r.choice(["", "", "plane", "shell"])

    def node(self):
        return pick(self.r, self.N, self.bad)

    def step(self, w):
        """One random call; w: {op: weight}"""
        r, P = self.r, self.P
        op = r.choices(list(w), list(w.values()))[0]
        a = getattr(self, "a_" + op)()
        if a is None:
            return False
        return P.ev(op, **a) or True

    def a_add_node(self):
        x = self.r.choice(POS)
        return dict(n=self.r.choice(self.N), x=x[0], y=x[1], z=x[2], dup=self.r.random() < self.dup)

    def a_set_mass(self):
        return dict(n=self.node(), m=[abs(x) for x in vals(self.r, 6)])

    def a_set_grest(self):
        return dict(n=self.node(), r=[self.r.random() < 0.5 for _ in range(6)])

    def a_add_mat(self):
        E, mn, md = self.r.choice(MATS)
        return dict(n=self.r.choice(self.M), rho=self.r.randint(0, 9), E=E, mn=mn, md=md)

    def a_add_sec(self):
        return dict(n=self.r.choice(self.S), mat=pick(self.r, self.M, self.bad), A=60 * self.r.randint(1, 3),
                    I2=3000 * self.r.randint(1, 3), I3=3000 * self.r.randint(1, 3), J=60 * self.r.randint(1, 3))

    def a_add_rect(self):
        return dict(n=self.r.choice(self.S), mat=pick(self.r, self.M, self.bad), h=12 * self.r.randint(1, 2), b=6 * self.r.randint(1, 2))

    def a_add_ssec(self):
        return dict(n=self.r.choice(self.SS), mat=pick(self.r, self.M, self.bad), t=self.r.randint(1, 3),
                    ty=self.r.choice(["shell", "plane", "plate", "membrane"][:1]))

    def a_add_beam(self):
        return dict(n=self.r.choice(self.B), s=self.node(), e=self.node(), sec=pick(self.r, self.S, self.bad), dup=self.r.random() < self.dup)

    def a_add_sbeam(self):
        E, mn, md = self.r.choice(MATS)
        return dict(n=self.r.choice(self.B), s=self.node(), e=self.node(), E=E, mn=mn, md=md, A=60, I2=3000, I3=6000, J=60 * self.r.randint(1, 3),
                    rho=self.r.randint(0, 9), dup=self.r.random() < self.dup)

    def a_set_rel(self):
        return dict(n=pick(self.r, self.B, self.bad), r=[self.r.random() < 0.2 for _ in range(12)])

    def a_add_shell(self):
        r = self.r
        if len(self.N) < 4:
            return None
        ns = r.sample(self.N, 4)
        if r.random() < self.bad:
            ns[r.randrange(4)] = r.choice(UNKNOWN)
        return dict(n=r.choice(self.H), ns=ns, sec=pick(r, self.SS, self.bad))

    def a_add_pat(self):
        return dict(p=self.r.choice(self.PT))

    def pat(self):
        return pick(self.r, self.PT, self.bad)

    def case(self):
        return pick(self.r, self.C, self.bad)

    def a_set_nload(self):
        return dict(p=self.pat(), n=self.node(), f=vals(self.r, 6))

    def a_set_ndisp(self):
        return dict(p=self.pat(), n=self.node(), f=vals(self.r, 6))

    def a_set_bdist(self):
        # multiples of 60 keep the fixed-end values of lengths 1, 2, 3, 5 whole
        return dict(p=self.pat(), n=pick(self.r, self.B, self.bad), q=[60 * x for x in vals(self.r, 8, 3)])

    def a_set_bconc(self):
        rn, rd = self.r.choice([(1, 2), (1, 4), (3, 4), (0, 1), (1, 1), (1, 5), (3, 5)])
        return dict(p=self.pat(), n=pick(self.r, self.B, self.bad), f=[3000 * x for x in vals(self.r, 6, 2)], rn=rn, rd=rd)

    def a_add_case(self):
        return dict(c=self.r.choice(self.C), kind="static" if self.r.random() < 0.85 else "modal")

    def a_add_cp(self):
        return dict(c=self.case(), p=self.pat(), f=self.r.choice([4, 4, -4, 2, 1, 0, 12, -6]))

    def a_set_crest(self):
        return dict(c=self.case(), n=self.node(), r=[self.r.random() < 0.5 for _ in range(6)])

    # ---- readings ----
    def observe(self, full=False):
        P, r = self.P, self.r
        m = P.m.mem
        p = 1.0 if full else 0.35
        if P.backend == "direct":
            for k in ("nodes", "beams", "shells", "grest"):
                if r.random() < p:
                    P.ob(k=k)
            if full or r.random() < 0.15:
                for b in m["beams"]:
                    if stiffness_exact(b):
                        P.ob(k="beamk", b=b["n"])
        else:
            for k in ("locs", "conn", "sconn", "grest"):
                if r.random() < p:
                    P.ob(k=k)
            if full or r.random() < 0.3:
                n = self.node()
                P.ob(k="loc1", n=n)
                b = pick(r, self.B, 0.2)
                P.ob(k="conn1", n=b)
                P.ob(k="bloc1", n=b)
                h = pick(r, self.H, 0.2)
                P.ob(k="sconn1", n=h)
                P.ob(k="sloc1", n=h)

    def observe_loads(self, full=False):
        P, r = self.P, self.r
        m = P.m.mem
        for p in self.PT + (UNKNOWN[:1] if P.backend == "api" else []):
            if P.backend == "direct" and p not in m["pcur"]:
                continue
            if full or r.random() < 0.3:
                P.ob(k="nl", p=p)
                P.ob(k="nl1", p=p, n=self.node())
        for c in self.C + (UNKNOWN[:1] if P.backend == "api" else []):
            if P.backend == "direct" and c not in m["cases"]:
                continue
            if full or r.random() < 0.3:
                P.ob(k="crest", c=c)


def stiffness_exact(b):
    if b["p"]["J"] < 0:
        return False
    try:
        l = beam_len(b["la"], b["lb"])
        if l <= 0:
            return False
        K = kmat(b["p"], l)
    except Reject:
        return False
    return all(x.denominator == 1 and abs(x) < 2 ** 29 for row in K for x in row)


REG = dict(add_node=7, set_mass=2, set_grest=2, add_mat=2, add_sec=2, add_rect=1, add_ssec=1, add_beam=4, add_sbeam=3, set_rel=1, add_shell=2)
LOADW = dict(add_pat=1, set_nload=2, set_bdist=1, set_bconc=1, add_case=1, add_cp=2, set_crest=1)


def c01_plan(r):
    be = r.choice(["api", "direct"])
    # nodes close together beside their coordinates, or beside one unit of length
    P = Plan(r, be, scale=r.choice([None, None, None, dict(length=5.0, offset=2.0 ** 20), dict(length=1e-6), dict(length=2.5e-7, offset=-0.125)]))
    H = History(P, bad=0.06)
    w = dict(REG)
    if r.random() < 0.4:
        w.update(LOADW)
    surface = len(H.N) > 3 and r.random() < 0.6
    for x in H.N[:3] if not surface else H.N:
        a = H.a_add_node()
        P.ev("add_node", **dict(a, n=x))
    if surface:
        w["add_shell"] = 6
        P.ev("add_mat", n=H.M[0], **{k: v for k, v in H.a_add_mat().items() if k != "n"})
        for x in H.SS:
            P.ev("add_ssec", n=x, mat=H.M[0], t=r.randint(1, 3), ty="shell")
    if r.random() < 0.8:
        P.ev("add_mat", **H.a_add_mat())
        P.ev("add_sec", **H.a_add_sec())
        P.ev("add_ssec", **H.a_add_ssec())
    for _ in range(r.randint(8, 40)):
        if H.step(w):
            H.observe()
    P.ev("nop")
    H.observe(full=True)
    return P.done()


# ------------------------------------------------ status, failures, results --
def small_tree(P, nmin=2, nmax=4, extra=0, k=1):
    """A frame whose solutions have small denominators for any small loads."""
    r = P.r
    pts, edges = grow(r, r.randint(nmin, nmax), AX, r.choice([[1], [1, 2], [2], [1, 3]]), extra=extra)
    return Frame(P, pts, edges)


class Life:
    """Random interleavings of definition, analysis, files and queries."""

    def __init__(self, P, F, cases):
        self.P, self.r, self.F, self.C = P, P.r, F, cases
        self.files = [P.name("f", k) for k in range(2)]
        self.H = History(P, bad=0.0, dup=0.0)

    def attempt(self, f):
        """f() or nothing: undone when it cannot be represented"""
        P = self.P
        keep = (len(P.events), copy.deepcopy(P.m))
        ob = [len(e["obs"]) for e in P.events]
        try:
            f()
            return True
        except Reject:
            del P.events[keep[0]:]
            for e, n in zip(P.events, ob):
                del e["obs"][n:]
            P.m = keep[1]
            return False

    def query(self, cases=None, what=("disp", "react", "endf"), full=False):
        """Results of solved cases; absent ones are asked for too."""
        P, r = self.P, self.r
        m = P.m
        for c in cases or self.C:
            stale = c in m.res and m.asb is not None and m.res[c][0] != m.nasb
            if stale:
                continue
            src = m.asb if m.asb is not None else m.mem
            ns = [n["n"] for n in src["nodes"]] or self.F.nodes
            bs = [b["n"] for b in src["beams"]] or self.F.beams
            if not full:
                ns = r.sample(ns, min(len(ns), 2))
                bs = r.sample(bs, min(len(bs), 1))
            if r.random() < 0.15:
                ns = ns + [r.choice(UNKNOWN)]
                bs = bs + [r.choice(UNKNOWN)]
            for n in ns:
                if "disp" in what:
                    P.ob_disp(c, n)
                if "react" in what:
                    P.ob_react(c, n)
            for b in bs:
                if "endf" in what:
                    P.ob_endf(c, b)
        if P.backend == "api" and m.asb is not None and r.random() < 0.4:
            cur = [c for c in self.C if P.cur(c)]
            if cur:
                c = r.choice(cur)
                qs = [[c, "disp", n["n"]] for n in m.asb["nodes"]] + [[c, "react", n["n"]] for n in m.asb["nodes"]] + \
                     [[c, "endf", b["n"]] for b in m.asb["beams"]]
                r.shuffle(qs)
                P.ob(k="same", qs=qs)

    def readall(self):
        P = self.P
        self.H.N = self.F.nodes + ["x0"]
        self.H.B, self.H.C, self.H.PT = self.F.beams, self.C, list(P.m.mem["pcur"])
        self.H.observe(full=True)
        self.H.observe_loads(full=True)

    # ---- steps ----
    def solve(self):
        self.P.solve(self.r.choice(self.C))

    def solve_all(self):
        cs = list(self.C)
        self.r.shuffle(cs)
        for c in cs:
            self.P.solve(c)

    def assemble(self):
        self.P.ev("assemble")

    def cycle(self):
        self.P.ev("assemble")
        self.solve_all()

    def modify(self):
        P, r, F = self.P, self.r, self.F
        m = P.m.mem
        pats = list(m["pcur"])
        k = r.choice(["nload", "nload", "factor", "rest", "node", "beam", "rel", "newpat", "mass", "crest", "sec", "case", "bload"])
        nodes = [n["n"] for n in m["nodes"]]
        beams = [b["n"] for b in m["beams"]]
        if k == "nload" and pats and nodes:
            P.ev("set_nload", p=r.choice(pats), n=r.choice(nodes), f=vals(r, 6, 4, 0.5))
        elif k == "bload" and pats and beams:
            b = r.choice(m["beams"])
            l = beam_len(b["la"], b["lb"])
            ld = small_fef(r, l)
            if "q" in ld:
                P.ev("set_bdist", p=r.choice(pats), n=b["n"], q=ld["q"])
            if "c" in ld:
                P.ev("set_bconc", p=r.choice(pats), n=b["n"], f=ld["c"][0], rn=ld["c"][1], rd=ld["c"][2])
        elif k == "factor" and m["cases"]:
            c = r.choice(list(m["cases"]))
            if pats and m["cases"][c]["kind"] == "static":
                P.ev("add_cp", c=c, p=r.choice(pats), f=r.choice([4, 8, -4, 2, 1, 0]))
        elif k == "rest" and nodes:
            P.ev("set_grest", n=r.choice(nodes), r=rest6(r))
        elif k == "crest" and m["cases"] and nodes:
            P.ev("set_crest", c=r.choice(list(m["cases"])), n=r.choice(nodes), r=rest6(r, r.choice(["fix", "fix", "rand"])))
        elif k == "node" and nodes:
            # a further node at the end of a new member, or a moved one (members keep their positions)
            if r.random() < 0.6:
                src = r.choice(m["nodes"])
                d = r.choice(AX)
                n = P.name("x", r.randrange(2))
                p = [src["loc"][j] + d[j] for j in range(3)]
                P.ev("add_node", n=n, x=p[0], y=p[1], z=p[2], dup=False)
                if r.random() < 0.8 and any(d):
                    E, mn, md = r.choice(MATS)
                    A, I2, I3, J = props(r, 1, E, mn, md, 1)
                    P.ev("add_sbeam", n=P.name("y", r.randrange(2)), s=src["n"], e=n, E=E, mn=mn, md=md, A=A, I2=I2, I3=I3, J=J, rho=0, dup=False)
            else:
                p = r.choice(POS[:5])
                P.ev("add_node", n=r.choice(nodes), x=p[0], y=p[1], z=p[2], dup=False)
        elif k == "beam" and m["beams"]:
            b = r.choice(m["beams"])
            la, lb = P.m.loc(b["s"]), P.m.loc(b["e"])
            v = vec(la, lb)
            L = sq(sum(x * x for x in v))
            if L <= 0 or L % 5 or L > 25:
                raise Reject("length")
            axes(la, lb, NOROT)
            E, mn, md = r.choice(MATS)
            A, I2, I3, J = props(r, L // 5, E, mn, md, 2)
            P.ev("add_sbeam", n=b["n"], s=b["s"], e=b["e"], E=E, mn=mn, md=md, A=A, I2=I2, I3=I3, J=J, rho=0, dup=False)
        elif k == "rel" and m["beams"]:
            b = r.choice(m["beams"])
            rel = F12
            if r.random() < 0.6:
                rel = stable_releases(r, kmat(b["p"], beam_len(b["la"], b["lb"])), 2)
            P.ev("set_rel", n=b["n"], r=rel)
        elif k == "newpat":
            P.ev("add_pat", p=r.choice(pats) if pats and r.random() < 0.6 else P.name("p", 9))
        elif k == "mass" and nodes:
            P.ev("set_mass", n=r.choice(nodes), m=[r.randint(0, 5) for _ in range(6)])
        elif k == "sec" and m["mats"]:
            P.ev("add_sec", n=P.name("s", r.randrange(3)), mat=r.choice(list(m["mats"])), A=7, I2=7, I3=7, J=7)
        elif k == "case":
            c = r.choice(self.C)
            P.ev("add_case", c=c, kind="static")
            if r.random() < 0.7 and pats:
                P.ev("add_cp", c=c, p=r.choice(pats), f=r.choice([4, -4, 8]))

    def invalid(self):
        """A call that cannot succeed; everything is read back afterwards."""
        P, r, F = self.P, self.r, self.F
        m = P.m.mem
        u = r.choice(UNKNOWN)
        nodes = [n["n"] for n in m["nodes"]]
        beams = [b["n"] for b in m["beams"]]
        pats, cases, secs, mats = list(m["pcur"]), list(m["cases"]), list(m["secs"]), list(m["mats"])
        opts = ["mass", "grest", "sec", "beam_s", "beam_e", "beam_sec", "sbeam_s", "sbeam_e", "rel", "shell", "nload", "bdist", "bconc",
                "cp_c", "cp_p", "crest", "solve", "load", "ssec", "rect", "beam_zero", "sbeam_zero", "loadfile"]
        k = r.choice(opts)
        x = r.choice(nodes) if nodes else u
        y = r.choice(nodes) if nodes else u
        b = r.choice(beams) if beams and r.random() < 0.6 else P.name("b", 30)
        sec = r.choice(secs) if secs else u
        sb = dict(E=2, mn=0, md=1, A=1, I2=1, I3=1, J=1, rho=1, dup=False)
        if k == "mass":
            P.ev("set_mass", n=u, m=[1] * 6)
        elif k == "grest":
            P.ev("set_grest", n=u, r=[True] * 6)
        elif k == "sec":
            P.ev("add_sec", n=sec if secs else P.name("s", 0), mat=u, A=1, I2=1, I3=1, J=1)
        elif k == "rect":
            P.ev("add_rect", n=sec if secs else P.name("s", 0), mat=u, h=12, b=6)
        elif k == "ssec":
            P.ev("add_ssec", n=P.name("t", 0), mat=u, t=1, ty="shell")
        elif k == "beam_s":
            P.ev("add_beam", n=b, s=u, e=y, sec=sec, dup=False)
        elif k == "beam_e":
            P.ev("add_beam", n=b, s=x, e=u, sec=sec, dup=False)
        elif k == "beam_sec":
            P.ev("add_beam", n=b, s=x, e=y, sec=u, dup=False)
        elif k == "sbeam_s":
            P.ev("add_sbeam", n=b, s=u, e=y, **sb)
        elif k == "sbeam_e":
            P.ev("add_sbeam", n=b, s=x, e=u, **sb)
        elif k == "beam_zero":
            P.ev("add_beam", n=b, s=x, e=x, sec=sec, dup=False)
        elif k == "sbeam_zero":
            P.ev("add_sbeam", n=b, s=x, e=x, **sb)
        elif k == "rel":
            P.ev("set_rel", n=u, r=[True] * 12)
        elif k == "shell":
            ns = (nodes * 4)[:4] if nodes else [u] * 4
            ns[r.randrange(4)] = u
            P.ev("add_shell", n=P.name("h", 0), ns=ns, sec=P.name("t", 0))
        elif k == "nload":
            P.ev("set_nload", p=u, n=x, f=[5] * 6)
        elif k == "bdist":
            P.ev("set_bdist", p=u, n=b, q=[5] * 8)
        elif k == "bconc":
            P.ev("set_bconc", p=u, n=b, f=[5] * 6, rn=1, rd=2)
        elif k == "cp_c":
            P.ev("add_cp", c=u, p=r.choice(pats) if pats else u, f=8)
        elif k == "cp_p":
            P.ev("add_cp", c=r.choice(cases) if cases else u, p=u, f=8)
        elif k == "crest":
            P.ev("set_crest", c=u, n=x, r=[True] * 6)
        elif k == "solve":
            P.solve(u)
        elif k == "load":
            P.ev("load", f="never")
        elif k == "loadfile":
            P.ev("load", f=self.r.choice(self.files))


def life_base(r, backend="api", extra=0, ncase=2):
    P = Plan(r, backend)
    F = small_tree(P, extra=extra)
    F.define(shuffle=r.random() < 0.3)
    P.ev("set_grest", n=F.nodes[0], r=[True] * 6)
    cases = [P.name("c", k) for k in range(ncase)]
    for k, c in enumerate(cases):
        P.ev("add_case", c=c, kind="static")
        p = P.name("p", k)
        P.ev("add_pat", p=p)
        P.ev("set_nload", p=p, n=r.choice(F.nodes), f=vals(r, 6, 3, 0.5))
        P.ev("add_cp", c=c, p=p, f=r.choice([4, 8, -4, 2]))
        if r.random() < 0.3:
            P.ev("set_crest", c=c, n=r.choice(F.nodes), r=[True] * 6)
    return P, F, cases


def c02_plan(r):
    P, F, cases = life_base(r)
    L = Life(P, F, cases)
    if r.random() < 0.25:
        # before anything was assembled
        for _ in range(r.randint(1, 3)):
            if L.attempt(L.solve):
                L.query()
    if r.random() < 0.8:
        L.attempt(L.cycle)
        L.query()
    for _ in range(r.randint(6, 18)):
        x = r.random()
        if x < 0.5:
            if L.attempt(L.invalid):
                L.readall()
                L.query()
        elif x < 0.75:
            if L.attempt(L.modify) and r.random() < 0.3:
                L.readall()
        elif x < 0.85:
            if L.attempt(L.solve):
                L.query()
        elif x < 0.92:
            L.attempt(L.cycle)
            L.query()
        else:
            P.ev(r.choice(["save", "load"]), f=r.choice(L.files))
            L.readall()
    P.ev("nop")
    L.readall()
    L.query(full=True)
    return P.done()


def c02_registry(r):
    """Definition calls with many invalid ones, through the interface."""
    P = Plan(r, "api")
    H = History(P, bad=0.3)
    w = dict(REG)
    w.update(LOADW)
    for _ in range(r.randint(10, 35)):
        if H.step(w) and r.random() < 0.5:
            H.observe(full=True)
            H.observe_loads(full=True)
    P.ev("nop")
    H.observe(full=True)
    H.observe_loads(full=True)
    return P.done()


def c10_plan(r):
    P, F, cases = life_base(r, backend="api" if r.random() < 0.85 else "direct", extra=r.choice([0, 0, 1]), ncase=r.choice([1, 2, 2, 3]))
    api = P.backend == "api"
    L = Life(P, F, cases)
    for _ in range(r.randint(6, 22)):
        x = r.random()
        if x < 0.36:
            L.attempt(L.modify)
        elif x < 0.5:
            if not L.attempt(L.cycle):
                L.attempt(L.assemble)
        elif x < 0.56:
            L.attempt(L.assemble)
        elif x < 0.8:
            L.attempt(L.solve)
        elif x < 0.84 and api:
            P.ev("save", f=r.choice(L.files))
        elif x < 0.88 and api:
            P.ev("load", f=r.choice(L.files))
        elif x < 0.9 and api:
            P.ev("fresh")
        elif x < 0.92 and api:
            P.ev("clear")
        else:
            P.ev("nop")
        if r.random() < 0.6 and P.m.nasb:
            L.attempt(lambda: L.query(full=r.random() < 0.3))
    P.ev("nop")
    L.attempt(lambda: L.query(full=True))
    return P.done()


def c11_plan(r):
    P, F, cases = life_base(r, extra=r.choice([0, 0, 1]))
    L = Life(P, F, cases)
    L.files = [P.name("f", k) for k in range(3)]
    for _ in range(r.randint(6, 18)):
        x = r.random()
        if x < 0.3:
            L.attempt(L.modify)
        elif x < 0.5:
            P.ev("save", f=r.choice(L.files))
        elif x < 0.72:
            P.ev("load", f=r.choice(L.files))
            L.readall()
        elif x < 0.8:
            P.ev("clear")
            P.ob(k="gone")
            L.readall()
            L.attempt(L.query)
        elif x < 0.84:
            P.ev("fresh")
            L.readall()
        elif x < 0.95:
            L.attempt(L.cycle)
            L.attempt(lambda: L.query(full=True))
        else:
            L.attempt(L.solve)
            L.attempt(L.query)
    P.ev("load", f=r.choice(L.files))
    L.readall()
    L.attempt(L.cycle)
    L.attempt(lambda: L.query(full=True))
    return P.done()


# ------------------------------------------------------------------- loads --
def c03_direct(r):
    P = Plan(r, "direct")
    H = History(P, bad=0.0, dup=0.0)
    n = r.randint(3, 5)
    F = Frame(P, *grow(r, n, AX, r.choice([[1], [1, 2], [1, 5]]), extra=r.randint(0, 1)))
    F.define()
    H.N, H.B = F.nodes, F.beams
    npat = r.randint(1, 4)
    H.PT = [P.name("p", k) for k in range(npat)]
    H.C = [P.name("c", k) for k in range(r.randint(1, 3))]
    for p in H.PT:
        P.ev("add_pat", p=p)
    kinds = {}
    for c in H.C:
        kinds[c] = "th" if r.random() < 0.35 else "static"
        P.ev("add_case", c=c, kind=kinds[c])
    joined = {c: [] for c in H.C}
    steps = r.randint(8, 30)
    curve = lambda: [r.choice([0, 1, 1, 2, -1, 3, -2]) for _ in range(r.randint(2, 6))]
    for k in range(steps):
        x = r.random()
        if x < 0.3:
            P.ev("set_nload", p=r.choice(H.PT), n=r.choice(H.N), f=vals(r, 6, 9, 0.4))
        elif x < 0.38:
            P.ev("set_ndisp", p=r.choice(H.PT), n=r.choice(H.N), f=vals(r, 6, 9, 0.4))
        elif x < 0.5:
            P.ev("set_bdist", **dict(H.a_set_bdist(), n=r.choice(H.B)))
        elif x < 0.62:
            P.ev("set_bconc", **dict(H.a_set_bconc(), n=r.choice(H.B)))
        elif x < 0.88:
            c, p = r.choice(H.C), r.choice(H.PT)
            if kinds[c] == "th":
                P.ev("add_cpt", c=c, p=p, f=r.choice([4, -4, 2, 1, 8, 0, -6]), cv=curve())
            else:
                P.ev("add_cp", c=c, p=p, f=r.choice([4, -4, 2, 1, 8, 0, -6]))
            if p not in joined[c]:
                joined[c].append(p)
        elif x < 0.95:
            c = r.choice(H.C)
            if joined[c]:
                P.ev("set_pf", c=c, p=r.choice(joined[c]), f=r.choice([4, -4, 2, 12, 0, 1]))
        elif x < 0.97 and npat > 1:
            P.ev("add_pat", p=r.choice(H.PT))
        else:
            c = r.choice(H.C)
            P.ev("add_case", c=c, kind=kinds[c])
            joined[c] = []
        if r.random() < 0.5 or k == steps - 1:
            if k == steps - 1:
                P.ev("nop")
            look_loads(P, H, kinds, k == steps - 1)
    if r.random() < 0.7:
        st = [c for c in H.C if kinds[c] == "static"]
        if st:
            P.ev("assemble")
            for c in st:
                try:
                    asm_check(P, c)
                except Reject:
                    continue
                P.ob(k="asmf", c=c, nn=len(P.m.asb["nodes"]))
    return P.done()


def asm_check(P, c):
    """The assembled vector fits and divides exactly."""
    m = P.m.mem
    for b in m["beams"]:
        P.m.case_beam4(m, m["cases"][c], b["n"], beam_len(b["la"], b["lb"]))


def look_loads(P, H, kinds, full):
    r = P.r
    m = P.m.mem
    lens = {b["n"]: beam_len(b["la"], b["lb"]) for b in m["beams"]}
    for p in H.PT:
        if full or r.random() < 0.4:
            P.ob(k="nl", p=p)
            P.ob(k="nd", p=p)
            P.ob(k="nl1", p=p, n=r.choice(H.N))
    for c in H.C:
        if not full and r.random() < 0.5:
            continue
        case = m["cases"][c]
        if kinds[c] == "th":
            if not case["plist"] or any("cv" not in e for e in case["plist"]):
                continue
            ml = min(len(e["cv"]) for e in case["plist"])
            xl = max(len(e["cv"]) for e in case["plist"])
            P.ob(k="steps", c=c)
            for n in r.sample(H.N, min(2, len(H.N))):
                P.ob(k="thf", c=c, n=n, step=r.randrange(ml))
                P.ob(k="thhist", c=c, n=n)
            P.ob(k="thdict", c=c)
            for b in r.sample(H.B, min(2, len(H.B))):
                try:
                    f4 = P.m.case_beam4(m, case, b, lens[b])
                except Reject:
                    continue
                P.ob(k="thb", c=c, b=b, l=lens[b], step=r.randrange(ml))
            continue
        for n in H.N if full else r.sample(H.N, 2):
            P.ob(k="casef", c=c, n=n)
        P.ob(k="cased", c=c)
        P.ob(k="casend", c=c)
        ok = []
        for b in H.B:
            try:
                P.m.case_beam4(m, case, b, lens[b])
                ok.append(b)
            except Reject:
                pass
        for b in ok:
            P.ob(k="beamf", c=c, b=b, l=lens[b])
        if len(ok) == len(H.B):
            P.ob(k="beamfd", c=c, ls=[dict(n=b, l=lens[b]) for b in H.B])


def c03_api(r):
    P = Plan(r, "api")
    H = History(P, bad=0.05)
    for n in H.N:
        P.ev("add_node", **dict(H.a_add_node(), n=n))
    w = dict(LOADW)
    w["set_nload"] = 6
    w["add_pat"] = 1
    for p in H.PT:
        P.ev("add_pat", p=p)
    for _ in range(r.randint(8, 30)):
        if H.step(w):
            H.observe_loads()
    P.ev("nop")
    H.observe_loads(full=True)
    return P.done()


# ------------------------------------------------------------ fixed-end loads --
RELS = [(1, 2), (1, 4), (3, 4), (0, 1), (1, 1), (1, 3), (2, 3), (1, 5), (2, 5), (4, 5), (1, 8), (7, 8), (1, 10), (9, 10), (3, 10), (5, 6),
        (1, 16), (15, 16), (19, 20), (1, 20)]


def c04_pattern(r):
    P = Plan(r, "direct")
    b0 = [P.name("b", k) for k in range(3)]
    p0 = [P.name("p", k) for k in range(2)]
    for p in p0:
        P.ev("add_pat", p=p)
    for _ in range(r.randint(6, 16)):
        p, b = r.choice(p0), r.choice(b0)
        x = r.random()
        if x < 0.5:
            q = [0] * 8
            style = r.random()
            if style < 0.3:
                q[r.randrange(8)] = r.choice([1, -1, 3, 7])
            elif style < 0.5:
                k = 2 * r.randrange(4)
                q[k] = q[k + 1] = r.choice([1, -2, 5])
            else:
                q = vals(r, 8, 9, 0.4)
            P.ev("set_bdist", p=p, n=b, q=q)
        else:
            F = [0] * 6
            if r.random() < 0.5:
                F[r.randrange(6)] = r.choice([1, -1, 2, 5])
            else:
                F = vals(r, 6, 9, 0.4)
            rn, rd = r.choice(RELS)
            P.ev("set_bconc", p=p, n=b, f=F, rn=rn, rd=rd)
        for p in p0:
            for b in b0:
                pat = P.m.mem["pats"][P.m.mem["pcur"][p]]
                if b not in pat["bd"] and b not in pat["bc"] and r.random() < 0.8:
                    continue
                l = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20])
                cc = pat["bc"].get(b, dict(F=Z6, rn=1, rd=2))
                try:
                    fef_s(pat["bd"].get(b, Z8), cc["F"], cc["rn"], cc["rd"], l)
                except Reject:
                    continue
                P.ob(k="pbeamf", p=p, b=b, l=l, rd=cc["rd"])
    return P.done()


def c04_fixed(r):
    """Members between fully fixed nodes: the end forces are the fixed-end ones."""
    P = Plan(r, "api" if r.random() < 0.6 else "direct")
    rots = P.backend == "direct" and r.random() < 0.5
    F = random_frame(P, 2, 5, rots=rots)
    F.define()
    for n in F.nodes:
        P.ev("set_grest", n=n, r=[True] * 6)
    c = P.name("c", 0)
    P.ev("add_case", c=c, kind="static")
    for k in range(r.randint(1, 2)):
        p = P.name("p", k)
        P.ev("add_pat", p=p)
        for b in F.beams:
            bb = P.m.mem["beams"][idx(P.m.mem["beams"], b)]
            t = axes(bb["la"], bb["lb"], bb["rot"])
            ld = small_fef(r, beam_len(bb["la"], bb["lb"]), mag=3, D=1)
            if "q" in ld:
                P.ev("set_bdist", p=p, n=b, q=ld["q"])
            if "c" in ld:
                P.ev("set_bconc", p=p, n=b, f=ld["c"][0], rn=ld["c"][1], rd=ld["c"][2])
        P.ev("add_cp", c=c, p=p, f=r.choice([4, -4, 8]))
    P.ev("assemble")
    P.solve(c)
    readout(P, c, F, {"endf", "react"})
    return P.done()


# -------------------------------------------------------------- supports etc --
def c05_plan(r):
    """Several cases under own and model restraints, set repeatedly."""
    def build(P):
        F = random_frame(P, 2, 6, r.choice(["ax", "ax", "345"]))
        F.define(shuffle=r.random() < 0.3)
        ng = r.randint(0, 3)
        emit(P, supports(P, F))
        for _ in range(ng):
            P.ev("set_grest", n=r.choice(F.nodes), r=rest6(r))
        cases = [P.name("c", k) for k in range(r.randint(2, 4))]
        for c in cases:
            P.ev("add_case", c=c, kind="static")
            if r.random() < 0.65:
                emit(P, supports(P, F, case=c))
                for _ in range(r.randint(0, 2)):
                    P.ev("set_crest", c=c, n=r.choice(F.nodes), r=rest6(r) if r.random() < 0.8 else F6)
        for c in cases:
            try:
                manufacture(P, c, npat=r.randint(1, 2), loads=r.random() < 0.6, Uscale=F.D)
            except Reject:
                pass
            if r.random() < 0.2:
                P.ev("set_crest", c=c, n=r.choice(F.nodes), r=[True] * 6)
        P.ev("assemble")
        L = Life(P, F, cases)
        order = cases + ([r.choice(cases)] if r.random() < 0.3 else [])
        r.shuffle(order)
        for c in order:
            if L.attempt(lambda: P.solve(c)):
                if P.cur(c):
                    L.attempt(lambda: readout(P, c, F, {"disp", "react"}))
        P.ev("nop")
        for c in cases:
            if P.cur(c):
                L.attempt(lambda: readout(P, c, F, {"disp"}))
            elif c not in P.m.res:
                P.ob_disp(c, r.choice(F.nodes))
            P.ob(k="crest", c=c)
        P.ob(k="grest")
        return P.done()
    return build(Plan(r, r.choice(["api", "api", "direct"])))


def c05_hinges(r):
    """Few free components, members turned and hinged: held or not depends on how a member lies."""
    def build(r):
        P = Plan(r, r.choice(["api", "direct", "direct"]))
        F = random_frame(P, 2, 3, r.choice(["ax", "ax", "345"]))
        F.define()
        for b in F.beams:
            if P.backend == "direct":
                P.ev("set_rot", n=b, rot=r.choice([[0, 1, 1], [0, -1, 1], [-1, 0, 1], [3, 4, 5]]))
            P.ev("set_rel", n=b, r=[r.random() < 0.25 for _ in range(12)])
        loose = r.choice(F.nodes)
        for n in F.nodes:
            P.ev("set_grest", n=n, r=[True] * 6 if n != loose else [r.random() < 0.6 for _ in range(6)])
        c = P.name("c", 0)
        P.ev("add_case", c=c, kind="static")
        P.ev("add_pat", p=P.name("p", 0))
        P.ev("set_nload", p="p0", n=r.choice(F.nodes), f=[r.randint(-3, 3) for _ in range(6)])
        P.ev("add_cp", c=c, p="p0", f=4)
        P.ev("assemble")
        P.solve(c)
        readout(P, c, F, {"react"})
        return P.done()
    return attempts(r, build)


def c05_soft(r):
    """Stiff and soft, stocky and slender members together: stable as long as exact arithmetic says so."""
    def build(r):
        P = Plan(r, r.choice(["api", "direct"]))
        P.m.loose = True
        F = random_frame(P, 2, 9, r.choice(["ax", "345"]))
        calls = []
        for op, a, d, n in F.calls():
            a = dict(a)
            if "E" in a:
                a["E"] *= 10 ** r.choice([0, 0, 0, 1, 2, 3, 4])
            if "A" in a:
                if r.random() < 0.5:
                    a["A"] *= 10 ** r.randint(1, 7)
                if r.random() < 0.3:
                    a[r.choice(["I2", "I3", "J"])] *= 10 ** r.randint(1, 6)
            calls.append((op, a, d, n))
        emit(P, calls)
        emit(P, supports(P, F, n=r.choice([1, 1, 1, 2])))
        c = P.name("c", 0)
        P.ev("add_case", c=c, kind="static")
        P.ev("add_pat", p=P.name("p", 0))
        P.ev("set_nload", p="p0", n=r.choice(F.nodes), f=[r.randint(-3, 3) for _ in range(6)])
        P.ev("add_cp", c=c, p="p0", f=4)
        P.ev("assemble")
        P.solve(c)
        return P.done()
    return attempts(r, build)


def c06_plan(r, big=False):
    return solved_plan(r, {"disp"}, 2, 7 if not big else 14, rots=r.random() < 0.35, beamk=True, ncase=1, big=big, loads=r.random() < 0.8)


def c06_big(r):
    return solved_plan(r, {"disp"}, 10, 16, style=r.choice(["ax", "345"]), ncase=1, loads=r.random() < 0.5, npat=1)


def c06_huge(r):
    """Several hundred unknowns."""
    return solved_plan(r, {"disp"}, 52, 60, style="ax", ncase=1, npat=1, backend="api")


def c07_plan(r):
    return solved_plan(r, {"react", "endf"}, 2, 6, rots=r.random() < 0.25, ncase=r.choice([1, 1, 2]), releases=r.choice([0, 0, 0, 3]))


def c12_plan(r):
    return solved_plan(r, {"deform"}, 2, 5, rots=r.random() < 0.4, ncase=r.choice([1, 1, 2]), releases=r.choice([0, 0, 3]))


def c08_plan(r):
    def build(r):
        P = Plan(r, r.choice(["api", "api", "direct"]))
        F = random_frame(P, 2, 5, r.choice(["ax", "ax", "345", "345v"]), rots=P.backend == "direct" and r.random() < 0.4)
        F.define(shuffle=r.random() < 0.3)
        emit(P, supports(P, F, kinds=["fix", "fix", "fix", "rand"], n=r.randint(1, max(1, len(F.nodes) - 1))))
        c = P.name("c", 0)
        rounds = r.choice([1, 1, 2, 3])
        for k in range(rounds):
            # set, replace or clear
            for b in r.sample(F.beams, min(len(F.beams), r.randint(1, 3))):
                bb = P.m.mem["beams"][idx(P.m.mem["beams"], b)]
                K = kmat(bb["p"], beam_len(bb["la"], bb["lb"]))
                if k and r.random() < 0.35:
                    P.ev("set_rel", n=b, r=F12)
                else:
                    P.ev("set_rel", n=b, r=stable_releases(r, K, r.choice([1, 2, 3, 6])))
            P.ev("add_case", c=c, kind="static")
            manufacture(P, c, npat=r.randint(1, 2), Uscale=F.D)
            P.ev("assemble")
            P.solve(c)
            prefer_stable(P, 0.8)
            readout(P, c, F, {"disp", "endf", "rel0", "react"})
        return P.done()
    return attempts(r, build)


def c09_plan(r):
    """The same structure and loads stated in another way: names, order, patterns."""
    def build(r):
        P = Plan(r, r.choice(["api", "api", "direct"]))
        F = random_frame(P, 3, 7, rots=P.backend == "direct" and r.random() < 0.3)
        calls = F.calls()
        sup = supports(P, F)
        cases = [P.name("c", k) for k in range(r.randint(1, 3))]
        # noise: patterns and cases nobody asks about
        noise = []
        if r.random() < 0.6:
            pn, cn = P.name("p", 90), P.name("c", 90)
            noise = [("add_pat", dict(p=pn), {pn}, set()), ("add_case", dict(c=cn, kind="static"), {cn}, set()),
                     ("set_nload", dict(p=pn, n=r.choice(F.nodes), f=vals(r, 6)), set(), {pn}),
                     ("add_cp", dict(c=cn, p=pn, f=4), set(), {pn, cn}),
                     ("set_crest", dict(c=cn, n=r.choice(F.nodes), r=rest6(r)), set(), {cn})]
        # dry run to manufacture loads on a copy, then shuffle everything
        Q = copy.copy(P)
        Q.m = copy.deepcopy(P.m)
        Q.events = []
        emit(Q, calls)
        emit(Q, sup)
        for c in cases:
            Q.ev("add_case", c=c, kind="static")
        lc = []
        for k, c in enumerate(cases):
            lc += manufacture(Q, c, npat=r.randint(1, 3), Uscale=F.D)
        shared = []
        if len(cases) > 1 and r.random() < 0.6:
            # another case that combines the patterns of the first two
            cx = P.name("c", 50)
            cases = cases + [cx]
            pf = [(a["p"], a["f"]) for op, a, _, _ in lc if op == "add_cp"]
            fx = {}
            for a in [a for op, a, _, _ in lc if op == "add_cp"]:
                fx.setdefault(a["c"], []).append((a["p"], a["f"]))
            al, be = r.choice([1, 2, -1]), r.choice([1, -2, 3])
            for c, k in ((cases[0], al), (cases[1], be)):
                for p, f in fx.get(c, []):
                    shared.append(("add_cp", dict(c=cx, p=p, f=k * f), set(), {p, cx}))
        allc = calls + sup + noise + lc + shared + [("add_case", dict(c=c, kind="static"), {c}, set()) for c in cases]
        emit(P, allc, shuffle=True)
        P.ev("assemble")
        order = list(cases)
        r.shuffle(order)
        for c in order:
            P.solve(c)
        prefer_stable(P, 0.8)
        r.shuffle(order)
        for c in order:
            P.ev("nop")
            readout(P, c, F, {"disp", "react", "endf"})
        return P.done()
    return attempts(r, build)


# ---------------------------------------------------------------------- mass --
def square(b):
    return sq(sum(x * x for x in vec(b["la"], b["lb"]))) > 0


def small_mass(m):
    """the lumped masses of a model stay within the resolution"""
    tot = {}
    for b in m["beams"]:
        h = b["p"]["rho"] * b["p"]["A"] * sq(sum(x * x for x in vec(b["la"], b["lb"])))
        for n in (b["s"], b["e"]):
            tot[n] = tot.get(n, 0) + h
    return all(x < 400000 for x in tot.values())


def c13_plan(r):
    P = Plan(r, "direct")
    L = P.scale.get("length", 1.0)
    rho = r.choice([1.0, 7850.0, 2.5e-9, 1e3])
    while rho * L ** 3 < 1e-2:
        rho = r.choice([1.0, 7850.0, 2.5e-9, 1e3, 1e6])
    P.scale["rho"], P.scale["mass"] = rho, rho * L ** 3
    F = random_frame(P, 2, 6, rots=r.random() < 0.5)
    F.define(shuffle=r.random() < 0.4)
    if r.random() < 0.4:
        P.scale["theta"] = r.choice([0.3, 1.1, 2.0, -0.7, 3.0, -2.2])
    H = History(P, bad=0.0, dup=0.3)
    H.N, H.B = F.nodes + [P.name("x", 0)], F.beams + [P.name("y", 0)]

    def look():
        m = P.m.mem
        for n in m["nodes"]:
            if r.random() < 0.4:
                P.ob(k="nodem", n=n["n"])
        for b in m["beams"]:
            if square(b) and r.random() < 0.4:
                rel = any(b["rel"])
                P.ob(k="beamm", b=b["n"], cond=not rel and r.random() < 0.4, local=r.random() < 0.5)

    def whole(live=False):
        a = P.m.asb
        if a is not None and all(square(b) for b in a["beams"]) and small_mass(a):
            P.ob(k="massm", nn=len(a["nodes"]), live=live)

    def change():
        m = P.m.mem
        k = r.choice(["mass", "mass", "mass", "node", "beam", "sbeam", "rel", "rest", "sec", "mat", "rot", "new"])
        names = [n["n"] for n in m["nodes"]]
        if k == "mass":
            P.ev("set_mass", n=r.choice(names), m=[r.choice([0, 1, 2, 5, 30, 1000]) for _ in range(6)])
        elif k == "node":
            x = r.choice(POS)
            P.ev("add_node", n=r.choice(names), x=x[0], y=x[1], z=x[2], dup=r.random() < 0.3)
        elif k == "new":
            x = r.choice(m["nodes"])["loc"]
            d = r.choice(AX + P345 + P345V)
            P.ev("add_node", n=P.name("x", r.randrange(2)), x=x[0] + d[0], y=x[1] + d[1], z=x[2] + d[2], dup=r.random() < 0.3)
        elif k in ("beam", "sbeam"):
            a = H.a_add_beam() if k == "beam" else H.a_add_sbeam()
            a["dup"] = r.random() < 0.3
            if k == "beam":
                if not m["secs"]:
                    return
                a["sec"] = r.choice(list(m["secs"]))
            if a["s"] in names and a["e"] in names and P.m.loc(a["s"]) == P.m.loc(a["e"]):
                return
            P.ev("add_" + k, **a)
        elif k == "rel" and m["beams"]:
            P.ev("set_rel", n=r.choice(m["beams"])["n"], r=[r.random() < 0.3 for _ in range(12)])
        elif k == "rest":
            P.ev("set_grest", n=r.choice(names), r=rest6(r))
        elif k == "sec" and m["mats"]:
            P.ev("add_sec", n=r.choice(list(m["secs"]) or [P.name("s", 0)]), mat=r.choice(list(m["mats"])), A=r.randint(1, 5), I2=r.randint(1, 5),
                 I3=r.randint(1, 5), J=r.randint(1, 5))
        elif k == "mat" and m["mats"]:
            E, mn, md = r.choice(MATS)
            P.ev("add_mat", n=r.choice(list(m["mats"])), rho=r.randint(0, 9), E=E, mn=mn, md=md)

    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(1, 4)):
            change()
            look()
        if P.m.asb is not None and r.random() < 0.6:
            P.ev("nop")
            whole()
        P.ev("assemble")
        whole(r.random() < 0.5)
        look()
        P.ev("nop")
        for _ in range(r.randint(0, 3)):
            d = r.choice(AX + P345 + P345V + P25)
            n = 1 if sum(x * x for x in d) > 25 else r.randint(1, 4)
            x = r.choice(POS)
            P.ob(k="consm", p=dict(rho=r.randint(1, 9), E=2, A=r.randint(1, 9), I2=r.randint(1, 9), I3=r.randint(1, 9), J=r.randint(0, 9)),
                 la=list(x), lb=[x[j] + n * d[j] for j in range(3)], simple=r.random() < 0.5,
                 rel=[k for k in range(12) if r.random() < 0.2] if r.random() < 0.3 else [])
    return P.done()


# ------------------------------------------------------------------ registry --
PROFILES = {
    "C01": [(c01_plan, 500, 8000)],
    "C02": [(c02_plan, 200, 2500), (c02_registry, 200, 2500)],
    "C03": [(c03_direct, 220, 4000), (c03_api, 100, 2000)],
    "C04": [(c04_pattern, 400, 4000), (c04_fixed, 240, 2500)],
    "C05": [(c05_plan, 260, 3500), (c05_hinges, 400, 6000), (c05_soft, 300, 4000)],
    "C06": [(c06_plan, 460, 4500), (c06_big, 30, 120), (c06_huge, 6, 40)],
    "C07": [(c07_plan, 480, 4500)],
    "C08": [(c08_plan, 400, 3500)],
    "C09": [(c09_plan, 320, 3000)],
    "C10": [(c10_plan, 220, 3500)],
    "C11": [(c11_plan, 220, 3500)],
    "C12": [(c12_plan, 480, 4500)],
    "C13": [(c13_plan, 550, 5000)],
}
