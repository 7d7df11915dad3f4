"""Shells of four and three corners: plans and executor for ShellTrace."""
import math
import os
import shutil
import subprocess
import sys
import tempfile

import runner
from gen import Reject
from runner import SENT, vec_of

MUS = [(0, 1), (1, 4), (1, 3), (1, 5), (2, 5), (3, 10)]
CAP = 400000000


# ------------------------------------------------------- the compiled elements --
def prepare(scratch):
    """The element matrices are compiled code: built from the tree as it is now, and found before any other copy."""
    import hsenv
    import numpy
    import sysconfig
    if getattr(prepare, "done", None):
        return
    meta = os.path.join(hsenv.REPO, "hyperstatic", "core", "fe_model", "meta")
    out = os.path.join(scratch, "ext")
    os.makedirs(out, exist_ok=True)
    bindir = os.path.dirname(sys.executable)
    inc = ["-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"]]
    jobs = []
    for where, name in (("membranes/GQ12", "metaGQ12"), ("plates/metaDKQ", "metaDKQ"), ("membranes/T9", "metaT9"), ("plates/metaDKT", "metaDKT")):
        d = os.path.join(scratch, "src_" + name)
        shutil.copytree(os.path.join(meta, where), d)
        jobs.append((d, name, subprocess.Popen([sys.executable, "-m", "cython", name + ".pyx"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    cc = []
    for d, name, p in jobs:
        if p.wait():
            raise RuntimeError("cython: " + p.stderr.read().decode()[-2000:])
        for f in (name, "wrapped_code_0"):
            cc.append((d, name, subprocess.Popen(["gcc", "-O1", "-w", "-std=c99", "-fPIC", "-fno-strict-overflow", *inc, "-c", f + ".c", "-o", f + ".o"], cwd=d, stderr=subprocess.PIPE)))
    for d, name, p in cc:
        if p.wait():
            raise RuntimeError("gcc: " + p.stderr.read().decode()[-2000:])
    for d, name, _ in jobs:
        subprocess.run(["gcc", "-shared", name + ".o", "wrapped_code_0.o", "-o", os.path.join(out, name + ".so")], cwd=d, check=True)
    sys.path.insert(0, out)
    prepare.done = out


# --------------------------------------------------------- mirror of HSShell --
def x2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def corners(P):
    return [x2(sub(P[k], P[k - 1]), sub(P[(k + 1) % len(P)], P[k])) for k in range(len(P))]


def convex(P):
    c = corners(P)
    return all(x > 0 for x in c) or all(x < 0 for x in c)


def rectangle(P):
    d = [sub(P[(k + 1) % 4], P[k]) for k in range(4)]
    return all(dot(d[k], d[(k + 1) % 4]) == 0 for k in range(4))


def lcm_of(Ps):
    n = 1
    for P in Ps:
        for k in range(len(P)):
            d = sub(P[(k + 1) % len(P)], P[k])
            m = d[0] ** 2 + d[1] ** 2
            n = n * m // math.gcd(n, m)
            if n > 40000:
                raise Reject("sides")
    return n


def out(d):
    return (d[1], -d[0])


def sym(M, a):
    return (M[0] * a[0] + M[2] * a[1], M[2] * a[0] + M[1] * a[1])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def corner_forces(P, e, th, ty, mn, md, L, f):
    s = 1 if corners(P)[1] > 0 else -1
    S = (2 * md * (md * f[2] + mn * f[5]), 2 * md * (md * f[5] + mn * f[2]), md * (md - mn) * (f[3] + f[4]))
    M = (md * (md * f[9] + mn * f[10]), md * (md * f[10] + mn * f[9]), md * (md - mn) * f[11])
    R = [[0] * 6 for _ in P]
    for k in range(len(P)):
        if ty != "plate":
            a = sym(S, out(sub(P[(k + 1) % len(P)], P[k - 1])))
            for j in (0, 1):
                R[k][j] += s * e * th * a[j]
        if ty != "membrane":
            n = (k + 1) % len(P)
            d = sub(P[n], P[k])
            q = L // dot(d, d)
            tw = s * e * th ** 3 * 2 * q * dot(d, sym(M, out(d)))
            g = q * dot(out(d), sym(M, out(d))) * s * e * th ** 3
            R[n][2] += tw
            R[k][2] -= tw
            for c in (n, k):
                R[c][3] += g * out(d)[1]
                R[c][4] -= g * out(d)[0]
    if max(abs(x) for r in R for x in r) > CAP // 8:
        raise Reject("large")
    return R


def field_at(f, p):
    x, y = p
    return [f[0] + f[2] * x + f[3] * y, f[1] + f[4] * x + f[5] * y,
            f[6] + f[7] * x + f[8] * y + (f[9] * x * x + f[10] * y * y) / 2 + f[11] * x * y,
            f[8] + f[10] * y + f[11] * x, -(f[7] + f[9] * x + f[11] * y), 0.0]


# ------------------------------------------------------------------- plans --
def quad(rng):
    while True:
        kind = rng.random()
        if kind < .2:
            a, b = rng.randint(1, 6), rng.randint(1, 6)
            P = [(0, 0), (a, 0), (a, b), (0, b)]
        elif kind < .45:
            d, g = (rng.randint(1, 5), rng.randint(-2, 2)), (rng.randint(-3, 3), rng.randint(1, 5))
            P = [(0, 0), d, (d[0] + g[0], d[1] + g[1]), g]
        else:
            P = [(rng.randint(0, 6), rng.randint(0, 6)) for _ in range(4)]
        if rng.random() < .5:
            o = (rng.randint(-9, 9), rng.randint(-9, 9))
            P = [(p[0] + o[0], p[1] + o[1]) for p in P]
        if not convex(P):
            continue
        k = rng.randint(0, 3)
        P = P[k:] + P[:k]
        if rng.random() < .3:
            P = P[::-1]
        try:
            lcm_of([P])
        except Reject:
            continue
        return P


def grid(rng):
    """corners of a mesh of convex quadrilaterals: [(column,row) -> point], cells"""
    nx, ny = rng.randint(1, 3), rng.randint(1, 3)
    xs, ys = [0], [0]
    for _ in range(nx):
        xs.append(xs[-1] + rng.randint(1, 3))
    for _ in range(ny):
        ys.append(ys[-1] + rng.randint(1, 3))
    k, h = rng.choice([0, 0, 1, -1]), rng.random() < .4
    pts = {}
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            pts[i, j] = (x + k * y, y)
    if h:                                   # move an inner or far corner
        c = (rng.randint(1, nx), rng.randint(1, ny))
        pts[c] = (pts[c][0] + rng.choice([-1, 0, 1]), pts[c][1] + rng.choice([-1, 0, 1]))
    cells = []
    for i in range(nx):
        for j in range(ny):
            c = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            if not convex([pts[q] for q in c]):
                raise Reject("not convex")
            s = rng.randint(0, 3)
            c = c[s:] + c[:s]
            if rng.random() < .25:
                c = c[::-1]
            cells.append(c)
    rng.shuffle(cells)
    return pts, cells


def field(rng, membrane=True, plate=True):
    """a field; parts left out at random"""
    f = [0] * 12
    r = rng.random
    part = rng.choice(["all", "all", "one", "rigid", "strain", "bend"])
    if part == "one":
        k = rng.randrange(12)
        f[k] = 2 * rng.choice([-1, 1])
    else:
        if membrane and part != "bend":
            f[0:2] = [rng.randint(-9, 9) for _ in range(2)]
            if part == "rigid":
                g = rng.randint(-3, 3)
                f[3], f[4] = -g, g
            else:
                f[2:6] = [rng.randint(-3, 3) for _ in range(4)]
        if plate and part != "strain":
            f[6:9] = [rng.randint(-9, 9) for _ in range(3)]
            if part != "rigid":
                f[9:11] = [2 * rng.randint(-2, 2) for _ in range(2)]
                f[11] = rng.randint(-3, 3)
    return f


def quaternion(rng):
    while True:
        q = [rng.randint(-3, 3) for _ in range(4)]
        if rng.random() < .3:
            q[rng.randrange(4)] = q[rng.randrange(4)] = 0
        if any(q):
            return q


def frame(rng):
    return dict(q=quaternion(rng), O=[rng.choice([0, rng.randint(-50, 50)]) for _ in range(3)])


def units(rng):
    return dict(u=rng.choice([1.0, 0.001, 1000.0, 10 ** rng.uniform(-3, 3)]), e=rng.choice([1.0, 2e11, 10 ** rng.uniform(-3, 11)]),
                t=rng.choice([1.0, 0.1, 10 ** rng.uniform(-1.7, 0)]))


class Plan:
    def __init__(self, rng):
        self.r, self.ev = rng, []
        self.nodes, self.secs, self.shells = {}, {}, {}
        self.mn, self.md = rng.choice(MUS)
        self.names = {}
        self.only = None

    def add(self, op, obs=(), **a):
        self.ev.append(dict(op=op, a=a, obs=list(obs)))

    def node(self, n, fr, p, obs=()):
        self.nodes[n] = (fr, tuple(p))
        self.add("node", obs, n=n, fr=fr, p=list(p))

    def sec(self, n, ty=None):
        ty = ty or self.only or self.r.choice(["shell", "shell", "shell", "membrane", "plate"])
        s = dict(e=self.r.randint(1, 3), th=self.r.choice([1, 1, 2, 3]), ty=ty)
        self.secs[n] = s
        self.add("sec", (), n=n, **s)

    def shell(self, n, ns, sec, obs=()):
        if all(x in self.nodes for x in ns) and sec in self.secs:
            P = [self.nodes[x][1] for x in ns]
            if corners(P)[1] != 0:
                if not convex(P) or len({self.nodes[x][0] for x in ns}) > 1:
                    raise Reject("not a plane convex quadrilateral")
                self.shells[n] = dict(self.secs[sec], ns=list(ns), P=P, fr=self.nodes[ns[0]][0])
        self.add("shell", obs, n=n, ns=list(ns), sec=sec)

    def force(self, n, f):
        h = self.shells[n]
        corner_forces(h["P"], h["e"], h["th"], h["ty"], self.mn, self.md, self.L(), f)
        return dict(k="force", id=n, f=f)

    def L(self):
        return lcm_of([h["P"] for h in self.shells.values()])

    def total(self, f, fr):
        tot = {n: [0] * 6 for n in self.nodes}
        L = self.L()
        for h in self.shells.values():
            if h["fr"] == fr:
                for n, r in zip(h["ns"], corner_forces(h["P"], h["e"], h["th"], h["ty"], self.mn, self.md, L, f)):
                    tot[n] = [a + b for a, b in zip(tot[n], r)]
        return tot

    def done(self, **kw):
        return dict(kw, mn=self.mn, md=self.md, Lc=self.L(), events=self.ev)


def triangle(rng):
    while True:
        P = [(rng.randint(0, 6), rng.randint(0, 6)) for _ in range(3)]
        if rng.random() < .3:
            P[1] = (P[1][0], P[0][1])
        if not convex(P):
            continue
        if rng.random() < .5:
            o = (rng.randint(-9, 9), rng.randint(-9, 9))
            P = [(p[0] + o[0], p[1] + o[1]) for p in P]
        try:
            lcm_of([P])
        except Reject:
            continue
        return P


def single(rng):
    return one_by_one(rng, quad)


def single3(rng):
    return one_by_one(rng, triangle)


def one_by_one(rng, shape):
    """one shell, copies of it elsewhere, refusals; read one by one"""
    P = Plan(rng)
    P.only = "shell" if shape is triangle else None
    nf = rng.randint(1, 3)
    frames = [frame(rng) for _ in range(nf)]
    cnt = [0]

    def put(pts, fr):
        ns = []
        for p in pts:
            cnt[0] += 1
            n = "%s%d" % (rng.choice("nzNa"), cnt[0])
            P.node(n, fr, p)
            ns.append(n)
        return ns
    base = shape(rng)
    c = len(base)
    P.sec("s0")
    P.shell("h0", put(base, 0), "s0")
    info = [("h0", base, 1)]
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < .25:
            P.sec("s%d" % rng.randint(0, 2))
        elif x < .4:                                         # refused, or an unknown section
            y = rng.random()
            ns = put([(0, 0), (1, 2), (2, 4), (rng.randint(-3, 3), rng.randint(3, 6))][:c], 0)
            if y < .35:
                ns = P.shells[rng.choice(sorted(P.shells))]["ns"][:]
                ns[rng.randrange(c)] = "nope"
            P.shell(rng.choice(["h0", "h9"]), ns, "s0" if y < .7 else "s9")
            if y >= .7 and "h9" in P.shells:
                raise Reject("defined")
        else:
            n, q, k = rng.choice(info)
            m = rng.choice([1, 1, 2, 3])
            if k * m > 6:
                m = 1
            s = rng.randrange(c)
            o = (rng.randint(-5, 5), rng.randint(-5, 5))
            Q = [(m * p[0] + o[0], m * p[1] + o[1]) for p in q]
            Q = Q[s:] + Q[:s]
            name = "h%d" % len(info)
            P.shell(name, put(Q, rng.randrange(nf)), rng.choice(sorted(P.secs)))
            info.append((name, Q, k * m))
            P.ev[-1]["obs"].append(dict(k="ratio", id=name, of=n, size=m))
    obs = []
    for h in sorted(P.shells):
        obs += [dict(k="kind", id=h), dict(k="area", id=h), dict(k="axes", id=h)]
        obs += [P.force(h, field(rng)) for _ in range(3)]
    obs.append(dict(k="names"))
    P.add("look", obs, x=0)
    return P.done(mode=rng.choice(["element", "model", "model"]), frames=frames, **units(rng))


def halves(rng, cells, share):
    """cut some of the quadrilaterals in two"""
    out = []
    for c in cells:
        if rng.random() < share:
            k = rng.randint(0, 1)
            c = c[k:] + c[:k]
            for t in ([c[0], c[1], c[2]], [c[2], c[3], c[0]]):
                k = rng.randint(0, 2)
                t = t[k:] + t[:k]
                out.append(t[::-1] if rng.random() < .25 else t)
        else:
            out.append(c)
    return out


def mesh(rng):
    return meshes(rng, 0)


def mesh3(rng):
    return meshes(rng, rng.choice([.5, 1]))


def meshes(rng, share):
    """shells sharing nodes, beams among them: the stiffness of the structure"""
    P = Plan(rng)
    P.only = "shell" if share else None
    nf = rng.randint(1, 2)
    frames = [frame(rng) for _ in range(nf)]
    for k in range(rng.randint(1, 2)):
        P.sec("s%d" % k)
    for fr in range(nf):
        pts, cells = grid(rng)
        cells = halves(rng, cells, share)
        keys = list(pts)
        rng.shuffle(keys)
        name = {k: "n%d_%d%d" % (fr, *k) for k in keys}
        later = cells[:]
        for k in keys:
            P.node(name[k], fr, pts[k])
            for c in later[:]:
                if all(name[q] in P.nodes for q in c) and rng.random() < .7:
                    later.remove(c)
                    P.shell("h%d" % len(P.shells), [name[q] for q in c], rng.choice(sorted(P.secs)))
            if rng.random() < .15:
                P.add("beam", n="b%d" % len(P.ev))
        for c in later:
            P.shell("h%d" % len(P.shells), [name[q] for q in c], rng.choice(sorted(P.secs)))
    if rng.random() < .3:
        P.shell(rng.choice(sorted(P.shells)), ["nope"] * 4, "s0")
    ns = sorted(P.nodes)
    for _ in range(3):
        f, fr = field(rng), rng.randrange(nf)
        P.total(f, fr)
        P.ev[-1]["obs"].append(dict(k="struct", f=f, fr=fr, ns=ns))
    P.ev[-1]["obs"].append(dict(k="names"))
    return P.done(mode="model", frames=frames, **units(rng))


# turns of the axes onto the axes
TURNS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[1, 0, 0], [0, 0, 1], [0, -1, 0]],
         [[-1, 0, 0], [0, 0, 1], [0, 1, 0]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, -1], [0, 1, 0], [1, 0, 0]], [[0, 1, 0], [1, 0, 0], [0, 0, -1]],
         [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]], [[0, 0, 1], [0, -1, 0], [1, 0, 0]]]


def patch(rng):
    return patches(rng, rng.choice(["shell", "shell", "membrane", "plate"]), 0)


def patch3(rng):
    return patches(rng, "plate", 1)


def patches(rng, ty, share):
    """a mesh in a plane of the axes, loaded so that it strains and bends uniformly: solved"""
    P = Plan(rng)
    P.sec("s0", "shell" if share else ty)
    pts, cells = grid(rng)
    cells = halves(rng, cells, share)
    keys = list(pts)
    rng.shuffle(keys)
    name = {k: "n%d%d" % k for k in keys}
    for k in keys:
        P.node(name[k], 0, pts[k])
    if rng.random() < .3:
        P.add("beam", n="b0")
    for c in cells:
        P.shell("h%d" % len(P.shells), [name[q] for q in c], "s0")
    if ty != "membrane" and not share and (not P.mn or all(rectangle(h["P"]) for h in P.shells.values())):
        raise Reject("not determined")            # see HSShell!NullityP
    ns = sorted(P.nodes)
    o, a = name[0, 0], name[max(k[0] for k in keys if k[1] == 0), 0]
    if P.nodes[a][1][1] != 0 or P.nodes[o][1] != (0, 0):
        raise Reject("moved")
    f = [0] * 12
    if ty != "plate":
        f[2], f[3], f[5] = [rng.randint(-4, 4) for _ in range(3)]
    if ty != "membrane":
        f[9], f[10], f[11] = 2 * rng.randint(-2, 2), 2 * rng.randint(-2, 2), rng.randint(-3, 3)
    rest = {}
    for n in ns:
        r = [False] * 6
        r[5] = True
        if ty == "membrane":
            r[2] = r[3] = r[4] = True
        if ty == "plate":
            r[0] = r[1] = True
        if n == o:
            r = [True] * 6
        if n == a and ty != "plate":
            r[1] = True
        rest[n] = r
    order = ns[:]
    rng.shuffle(order)
    for n in order:
        P.add("rest", n=n, r=rest[n])
    tot = P.total(f, 0)
    rng.shuffle(order)
    for n in order:
        v = [0 if rest[n][k] else tot[n][k] for k in range(6)]
        if n == o and rng.random() < .5:
            v = [rng.randint(-500, 500) if k < 5 else 0 for k in range(6)]
        if any(v) or rng.random() < .3:
            P.add("load", n=n, v=v)
    P.add("solve", [dict(k="disp", f=f, fr=0, ns=ns), dict(k="reac", f=f, fr=0, ns=ns)], x=0)
    return P.done(mode="direct" if share else "api", frames=[dict(R=rng.choice(TURNS), O=[rng.randint(-20, 20) for _ in range(3)])], **units(rng))


# ---------------------------------------------------------------- executor --
def matrix(fr):
    import numpy as np
    if "R" in fr:
        return np.array(fr["R"], float)
    w, x, y, z = fr["q"]
    n = w * w + x * x + y * y + z * z
    # rows: the axes of the frame
    return np.array([[w*w + x*x - y*y - z*z, 2*(x*y + w*z), 2*(x*z - w*y)],
                     [2*(x*y - w*z), w*w - x*x + y*y - z*z, 2*(y*z + w*x)],
                     [2*(x*z + w*y), 2*(y*z - w*x), w*w - x*x - y*y + z*z]], float) / n


def whole(x):
    y = float(x)
    if not abs(y) < SENT - 1:
        return SENT
    return int(round(y))


class Direct:
    """The calls of the interface that a plan solved here needs, on a model (the interface has no triangles)."""

    def __init__(self, model, root):
        from hyperstatic.core.fe_model.load.loadcase import StaticCase
        from hyperstatic.core.fe_model.load.pattern import LoadPattern
        self.model, self.root = model, root
        self.p, self.c = LoadPattern("p"), StaticCase("c")
        self.c.add_pattern(self.p, 1.0)

    def __getattr__(self, name):
        return getattr(self.model, name)

    def set_nodal_restraint(self, n, *r):
        self.model.set_nodal_restraint(n, *r)
        return True

    def set_nodal_load(self, p, n, *v):
        self.p.set_nodal_load(n, *v)
        return True

    def assemble(self):
        from hyperstatic.core.fe_model.assembly import Assembly
        Assembly(self.model, [self.c]).save(self.root, "t.asb")
        return True

    def solve_static(self, c):
        from hyperstatic.core.fe_solver.static import StaticSolver
        StaticSolver(self.root, "t.asb").solve_linear(c)
        return True

    def result_get_nodal_displacement(self, n, c):
        from hyperstatic.core.fe_post.node import NodeResultResolver
        return NodeResultResolver(self.root, "t.asb").resolve_nodal_displacement(n, c, step=1)

    def result_get_nodal_reaction(self, n, c):
        from hyperstatic.core.fe_post.node import NodeResultResolver
        return NodeResultResolver(self.root, "t.asb").resolve_nodal_reaction(n, c, step=1)


class Bench:
    """A structure under test."""

    def __init__(self, P, root):
        import numpy as np
        self.np = np
        self.P = P
        self.R = [matrix(f) for f in P["frames"]]
        self.u, self.E, self.t = P["u"], P["e"], P["t"] * P["u"]
        mn, md, L = P["mn"], P["md"], P["Lc"]
        self.d = self.u * 1e-3                       # unit of displacement
        self.mu = mn / md
        k = md * md - mn * mn
        fi = self.E * self.t * self.d / (4 * k)
        fo = self.E * self.t ** 3 * self.d / (24 * L * k * self.u ** 2)
        self.funit = [fi, fi, fo, fo * self.u, fo * self.u, fi * self.u]
        self.dunit = [self.d] * 3 + [self.d / self.u] * 3
        self.frame_of, self.at, self.shells = {}, {}, {}
        self.nb = 0
        if P["mode"] == "element":
            from hyperstatic.core.fe_model.element.quad.DKGQ import DKGQ
            from hyperstatic.core.fe_model.element.tria.DKT import DKT
            from hyperstatic.core.fe_model.node import Node
            self.kinds, self.Node = {3: DKT, 4: DKGQ}, Node
            self.nodes, self.secs, self.els = {}, {}, {}
        elif P["mode"] in ("model", "direct"):
            from hyperstatic.core.fe_model.model import Model
            self.M = Model()
            if P["mode"] == "direct":
                self.M = Direct(self.M, root)
        else:
            from hyperstatic.core import Api
            self.M = Api(root)
            self.M.add_loadpattern("p")
            self.M.add_static_case("c")
            self.M.add_case_pattern("c", "p", 1.0)

    def xyz(self, fr, p):
        return [float(x) for x in self.u * (self.np.array(self.P["frames"][fr]["O"]) + self.R[fr][0] * p[0] + self.R[fr][1] * p[1])]

    # ---- calls
    def call(self, op, a):
        mode = self.P["mode"]
        if op == "node":
            self.frame_of[a["n"]] = a["fr"]
            self.at[a["n"]] = a["p"]
            X = self.xyz(a["fr"], a["p"])
            if mode == "element":
                self.nodes[a["n"]] = self.Node(a["n"], *X)
                return True
            r = self.M.add_node(a["n"], *X)
            return r is True or mode in ("model", "direct")
        if op == "sec":
            E, t = self.E * a["e"], self.t * a["th"]
            if mode == "element":
                from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
                from hyperstatic.core.fe_model.section.shell_section import ShellSection
                self.secs[a["n"]] = ShellSection(a["n"], IsotropicMaterial("m", 1.0, E, self.mu, 0.0), t, a["ty"])
                return True
            r = [self.M.add_isotropic_material("m" + a["n"], 1.0, E, self.mu, 0.0), self.M.add_shell_section(a["n"], "m" + a["n"], t, a["ty"])]
            return r == [True, True] or mode in ("model", "direct")
        if op == "shell":
            if mode == "element":
                self.els[a["n"]] = self.kinds[len(a["ns"])](a["n"], self.secs[a["sec"]], *[self.nodes[x] for x in a["ns"]])
            elif mode in ("model", "direct"):
                self.M.add_shell(a["n"], a["sec"], *a["ns"])
            else:
                if self.M.add_shell(a["n"], *a["ns"], a["sec"]) is not True:
                    return False
            self.shells[a["n"]] = a["ns"]
            return True
        if op == "beam":
            self.nb += 1
            n = "zz%d" % self.nb
            X = [900 * self.u, self.nb * self.u, 0]
            self.M.add_node(n + "a", *X)
            self.M.add_node(n + "b", X[0] + 3 * self.u, X[1], X[2])
            r = self.M.add_simple_beam(n, n + "a", n + "b", self.E, 0.25, self.u * self.t, self.t ** 3 * self.u, self.t ** 3 * self.u, self.t ** 3 * self.u, 1.0)
            if mode in ("api", "direct"):
                return (r is True or mode == "direct") and self.M.set_nodal_restraint(n + "a", True, True, True, True, True, True) is True
            return True
        if op == "look":
            return True
        if op == "rest":
            r = self.turn(a["r"], lambda x: abs(x))
            return self.M.set_nodal_restraint(a["n"], *[bool(x) for x in r]) is True
        if op == "load":
            v = self.turn([x * k for x, k in zip(a["v"], self.funit)])
            return self.M.set_nodal_load("p", a["n"], *[float(x) for x in v]) is True
        if op == "solve":
            return self.M.assemble() is True and self.M.solve_static("c") is True
        raise RuntimeError(op)

    def turn(self, v, g=lambda x: x):
        """components along the axes of the frame -> global"""
        np = self.np
        T = g(self.R[0]).T
        v = np.array(v, float)
        return list(T @ v[:3]) + list(T @ v[3:])

    # ---- readings
    def stiff(self, n):
        """in the axes of the frame of the shell"""
        np = self.np
        c = len(self.shells[n])
        if self.P["mode"] == "element":
            K, T = self.els[n].integrate_K(), self.els[n].transform_matrix
        else:
            K, T = self.M.get_shell_K(n), self.M.get_shell_transform_matrix(n)
        K = np.asarray(K.todense() if hasattr(K, "todense") else K, float)
        T = np.asarray(T.todense() if hasattr(T, "todense") else T, float)
        if K.shape != (6 * c, 6 * c) or T.shape != (6 * c, 6 * c):
            raise RuntimeError("shape")
        F = np.kron(np.eye(2 * c), self.R[self.frame_of[self.shells[n][0]]])
        return F @ T.T @ K @ T @ F.T

    def element(self, n):
        if self.P["mode"] == "element":
            return self.els[n]
        d = getattr(getattr(self.M, "_Api__model", self.M), "_Model__shells", None)      # no public way to an element of a model
        return d[n] if isinstance(d, dict) and n in d else None

    def rows(self, v, units):
        np = self.np
        return [[whole(x / k) for x, k in zip(r, units)] for r in np.asarray(v, float).reshape(-1, 6)]

    def read(self, o):
        np = self.np
        k = o["k"]
        if k == "names":
            return dict(v=sorted(self.els if self.P["mode"] == "element" else self.M.get_shell_names()))
        if k == "force":
            U = np.array([[x * q for x, q in zip(field_at(o["f"], self.at[n]), self.dunit)] for n in self.shells[o["id"]]]).reshape(-1)
            return dict(v=self.rows(self.stiff(o["id"]) @ U, self.funit))
        if k == "kind":
            K = self.stiff(o["id"])
            c = len(self.shells[o["id"]])
            D = np.array(self.dunit * c)
            K = K * np.outer(D, D)
            m = [6 * i + j for i in range(c) for j in (0, 1, 5)]
            p = [6 * i + j for i in range(c) for j in (2, 3, 4)]
            out = dict(sym=bool(abs(K - K.T).max() <= 1e-9 * abs(K).max()), apart=bool(max(abs(K[np.ix_(m, p)]).max(), abs(K[np.ix_(p, m)]).max()) <= 1e-10 * abs(K).max()))
            neg = 0
            for key, ix in (("nm", m), ("np", p)):
                B = K[np.ix_(ix, ix)]
                if abs(B).max() <= 1e-12 * abs(K).max():
                    out[key] = 12
                    continue
                ev = np.linalg.eigvalsh((B + B.T) / 2)
                s = abs(ev).max()
                out[key] = int((abs(ev) <= 1e-11 * s).sum())
                neg += int((ev < -1e-11 * s).sum())
            return dict(out, neg=neg)
        if k in ("area", "axes"):
            e = self.element(o["id"])
            if e is None:
                return None
            if k == "area":
                y = float(e.area) / self.u ** 2 * 2
                return dict(v=int(round(y)) if abs(y - round(y)) < 1e-6 * max(1, y) else SENT)
            F = self.R[self.frame_of[self.shells[o["id"]][0]]]
            C = np.asarray(e.local_csys.transform_matrix, float)
            z = F @ C[2]
            return dict(z=[int(round(x)) if abs(x - round(x)) < 1e-7 else SENT for x in z], orth=bool(abs(C @ C.T - np.eye(3)).max() < 1e-7 and np.linalg.det(C) > 0))
        if k == "ratio":
            P = self.P
            A, B = self.stiff(o["of"]), self.stiff(o["id"])
            s = o["size"]
            a, b = self.info[o["of"]], self.info[o["id"]]
            # bring the corners and the unit of length of b to those of a
            pa, pb = [[self.at[n] for n in self.shells[x]] for x in (o["of"], o["id"])]
            c = len(pa)
            sh = next(q for q in range(c) if all(sub(pb[i], pb[0]) == tuple(s * x for x in sub(pa[(i + q) % c], pa[q])) for i in range(c)))
            D = np.array(([1, 1, 1] + [1 / s] * 3) * c)
            B = B * np.outer(D, D)
            ix = [6 * ((i + sh) % c) + j for i in range(c) for j in range(6)]
            C = np.zeros((6 * c, 6 * c))
            C[np.ix_(ix, ix)] = B
            D = np.array(self.dunit * c)
            A, C = A * np.outer(D, D), C * np.outer(D, D)
            out = {}
            for key, js, norm in (("m", (0, 1, 5), a["e"] * a["th"]), ("p", (2, 3, 4), a["e"] * a["th"] ** 3 * s * s)):
                i = [6 * q + j for q in range(c) for j in js]
                X, Y = A[np.ix_(i, i)], C[np.ix_(i, i)]
                den = (X * X).sum()
                if den == 0:
                    out[key] = SENT
                    continue
                r = (X * Y).sum() / den
                ok = abs(Y - r * X).max() <= 1e-6 * abs(r) * abs(X).max()
                y = r * norm
                out[key] = int(round(y)) if ok and abs(y - round(y)) < 1e-6 * max(1, abs(y)) else SENT
            return out
        if k == "struct":
            from hyperstatic.core.fe_model.assembly import Assembly
            K = Assembly(self.M, []).assemble_K()
            h = {n: self.M.get_node_hid(n) for n in o["ns"]}
            K = np.asarray(K.todense() if hasattr(K, "todense") else K, float)
            if K.shape[0] != 6 * (len(o["ns"]) + 2 * self.nb):
                raise RuntimeError("size")
            U = np.zeros(K.shape[0])
            F = np.kron(np.eye(2), self.R[o["fr"]])
            for n in o["ns"]:
                if self.frame_of[n] == o["fr"]:
                    U[6 * h[n]:6 * h[n] + 6] = F.T @ np.array([x * q for x, q in zip(field_at(o["f"], self.at[n]), self.dunit)])
            V = K @ U
            v = [np.kron(np.eye(2), self.R[self.frame_of[n]]) @ V[6 * h[n]:6 * h[n] + 6] for n in o["ns"]]
            return dict(v=self.rows(v, self.funit))
        if k in ("disp", "reac"):
            F = np.kron(np.eye(2), self.R[0])
            v = []
            for n in o["ns"]:
                x = vec_of((self.M.result_get_nodal_displacement if k == "disp" else self.M.result_get_nodal_reaction)(n, "c"), 6)
                if x is None:
                    raise RuntimeError("no result")
                v.append(F @ np.array(x))
            return dict(v=self.rows(v, self.dunit if k == "disp" else self.funit))
        raise RuntimeError(k)


def run_shells(plan, tno):
    import hsenv
    P = plan
    root = tempfile.mkdtemp(prefix="hs", dir=runner._ROOTS[0])
    excs = []
    recs = [dict(t=tno, e=0, op="reset", a=dict(mn=P["mn"], md=P["md"], Lc=P["Lc"]), ret=dict(ok=True), obs=[])]
    try:
        B = Bench(P, root)
        B.info = {}
        secs = {}
        for n, ev in enumerate(P["events"], 1):
            a = ev["a"]
            try:
                ok = B.call(ev["op"], a)
            except Exception as x:
                ok = False
                excs.append(repr(x))
            if ev["op"] == "sec":
                secs[a["n"]] = a
            if ev["op"] == "shell" and ok and a["sec"] in secs:
                B.info[a["n"]] = dict(secs[a["sec"]])
            obs = []
            for o in ev["obs"]:
                r = dict(o, raised=False)
                try:
                    x = B.read(o)
                    if x is None:
                        continue
                    r.update(x)
                except Exception as x:
                    excs.append(repr(x))
                    r["raised"] = True
                obs.append(r)
            recs.append(dict(t=tno, e=n, op=ev["op"], a=a, ret=dict(ok=bool(ok)), obs=obs))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return recs, excs


run_shells.prepare = prepare
