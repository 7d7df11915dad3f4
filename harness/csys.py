"""Coordinate systems: plans, executor and mirror of HSCsys (the mirror only
supplies scale factors and proposals, which the specification checks)."""
import json
import math
import random

import runner
import tlc
from runner import ints, vec_of
from math import gcd

ID = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def reduce_(D, R):
    g = D
    for r in R:
        for x in r:
            g = gcd(g, abs(x))
    return D // g, [[x // g for x in r] for r in R]


def qmat(w, v):
    x, y, z = v
    return [[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
            [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
            [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]]


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def turn_vec(D, R, w, v):
    M = qmat(w, v)
    return reduce_(D * (w*w + dot(v, v)), [[dot(M[i], r) for i in range(3)] for r in R])


def turn_own(D, R, k, w, x):
    # about row k: a turn about that vector
    return turn_vec(D, R, w * D, [x * c for c in R[k - 1]])


def rand_q(rng, big):
    while True:
        q = [rng.randint(-big, big) for _ in range(4)]
        if any(q):
            return q[0], q[1:]


def frame(rng, big=3):
    w, v = rand_q(rng, big)
    D, R = turn_vec(1, ID, w, v)
    # columns are as good as rows; both conventions occur
    return D, R


def sub(a, b):
    return [p - q for p, q in zip(a, b)]


class CPlan:
    def __init__(self, rng, unit=None):
        self.rng = rng
        self.unit = unit if unit is not None else rng.choice([1.0, 1.0, 0.001, 1000.0, 10 ** rng.uniform(-6, 5), 10 ** rng.uniform(-3, 3)])
        self.ev = []
        self.cs = {}

    def put(self, op, **a):
        rng = self.rng
        i = a["i"]
        if op in ("new3", "newn", "set3"):
            if not a.pop("line", False):
                self.cs[i] = (a["D"], a["R"])
        elif op == "align":
            self.cs[i] = (1, ID)
        elif op == "own":
            self.cs[i] = turn_own(*self.cs[i], a["k"], a["w"], a["x"])
        elif op == "glob":
            self.cs[i] = turn_vec(*self.cs[i], a["w"], [a["x"] if j + 1 == a["k"] else 0 for j in range(3)])
        elif op == "vec":
            self.cs[i] = turn_vec(*self.cs[i], a["w"], [a["x"] * c for c in a["v"]])
        obs = []
        for j, (D, R) in sorted(self.cs.items()):
            for k in ("matrix", "axes", "origin", "name"):
                obs.append(dict(k=k, i=j, sc=D))
        self.ev.append(dict(op=op, a=a, obs=obs))

    def room(self, i, n):
        return self.cs[i][0] * n <= 20000

    def origin(self, far=50):
        return [self.rng.randint(-far, far) for _ in range(3)]

    def three(self, line):
        """O, A, B and the axes they define; or in a line"""
        rng = self.rng
        D, R = frame(rng)
        O = self.origin()
        if line:
            d = [rng.randint(-9, 9) for _ in range(3)]
            a, b = rng.randint(-7, 7), rng.randint(-7, 7)
            return O, [o + a * x for o, x in zip(O, d)], [o + b * x for o, x in zip(O, d)], 1, ID
        a = rng.randint(1, 6)
        b = rng.choice([0, rng.randint(-5, 5), rng.randint(-200, 200), rng.randint(-3000, 3000)])
        c = rng.choice([1, rng.randint(1, 5), rng.randint(1, 100)])
        A = [o + a * x for o, x in zip(O, R[0])]
        B = [o + b * x + c * y for o, x, y in zip(O, R[0], R[1])]
        return O, A, B, D, R

    def step(self):
        rng = self.rng
        ids = sorted(self.cs)
        i = rng.choice(ids) if ids and rng.random() < .8 else "c%d" % rng.randint(0, 2)
        fresh = i not in self.cs
        r = rng.random()
        nm = rng.choice(["", "Global", "local 1", "坐标系", "x"])
        if fresh or r < .12:
            line = rng.random() < (.15 if not fresh else .05)
            if rng.random() < .5:
                O, A, B, D, R = self.three(line)
                return self.put("new3", i=i, O=O, A=A, B=B, D=D, R=R, n=nm, line=line)
            D, R = frame(rng)
            O = self.origin()
            s, t, u = rng.randint(1, 5), rng.randint(1, 5), rng.randint(-5, 5)
            N = [s * x for x in R[2]]
            G = [t * y + u * z for y, z in zip(R[1], R[2])]
            dflt = False
            if line:
                f = rng.choice([-2, 3])
                G = [f * x for x in N]
                if rng.random() < .2:
                    N = [0, 0, 0]
            elif rng.random() < .3:     # the default guide: global Z
                dflt = True
                p = rng.choice([(3, 4, 5), (4, 3, 5), (1, 0, 1), (0, 1, 1), (-3, 4, 5), (5, 12, 13), (-8, 15, 17), (0, -1, 1), (-1, 0, 1)])
                q = rng.choice([(3, 4, 5), (4, 3, 5), (0, 1, 1), (-3, 4, 5), (12, 5, 13), (-7, 24, 25)])     # cos to z, sin to z
                zz = [q[1] * p[0], q[1] * p[1], q[0] * p[2]]
                D = p[2] * q[2]
                xx = [-p[1] * q[2], p[0] * q[2], 0]
                yy = [-q[0] * p[0], -q[0] * p[1], q[1] * p[2]]
                D, R = reduce_(D, [xx, yy, zz])
                N, G = [s * x for x in R[2]], [0, 0, 1]
            return self.put("newn", i=i, O=O, N=N, G=G, D=D, R=R, n=nm, line=line, dflt=dflt)
        if r < .2:
            line = rng.random() < .25
            O, A, B, D, R = self.three(line)
            return self.put("set3", i=i, O=O, A=A, B=B, D=D, R=R, n="", line=line)
        if r < .27:
            return self.put("origin", i=i, O=self.origin())
        if r < .32:
            return self.put("align", i=i)
        kind = rng.choice(["own", "glob", "vec"])
        for _ in range(20):
            turns = rng.choice([0, 0, 0, 1, -1, 3])
            if kind == "vec":
                w, v = rand_q(rng, 2)
                if not any(v):
                    continue
                x = rng.choice([1, 1, -1, 2])
                n = w * w + x * x * dot(v, v)
                if self.room(i, n):
                    return self.put("vec", i=i, w=w, x=x, v=v, turns=turns, len=rng.choice([1.0, 1.0, 0.01, 37.5, 10 ** rng.uniform(-3, 3)]))
            else:
                w, x = rng.choice([(1, 1), (1, -1), (0, 1), (2, 1), (1, 2), (2, -1), (-1, 2), (3, 1), (1, 0), (3, -2), (-1, 1), (1, 3), (4, 1)])
                if self.room(i, w * w + x * x):
                    return self.put(kind, i=i, k=rng.randint(1, 3), w=w, x=x, turns=turns)
        return self.put("align", i=i)

    def done(self):
        return dict(unit=self.unit, events=self.ev)


def turned(rng):
    P = CPlan(rng)
    for _ in range(rng.randint(3, 16)):
        P.step()
    return P.done()


PLANS = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, -3, 5), (-4, 3, 5), (-3, -4, 5), (5, 12, 13), (12, -5, 13), (-8, 15, 17),
         (7, 24, 25), (-24, 7, 25), (-20, -21, 29)]


def members(rng):
    """Members of any slope, from exactly vertical over all but vertical, all but horizontal to horizontal."""
    ev, live = [], []
    unit = rng.choice([1.0, 1.0, 1.0, 1e-3, 1e3, 10 ** rng.uniform(-3, 4)])
    for m in range(rng.randint(3, 10)):
        r = rng.random()
        L = unit * rng.choice([1, 3, rng.uniform(.2, 20)])
        s = rng.choice([1, -1])
        P = list(rng.choice(PLANS))
        if r < .15:
            P, h, d = [0, 0, 0], 0.0, L
        elif r < .25:
            s, h, d = 0, L, 0.0
        elif r < .6:
            h, d = L * 10 ** rng.uniform(-6, -1), L
        elif r < .75:
            h, d = L, L * 10 ** rng.uniform(-6, -1)
        else:
            h, d = L * rng.uniform(.1, 1), L * rng.uniform(.1, 1)
        if h and h < 1e-7:
            h = 1e-7 * rng.uniform(1, 9)
        small = min(x for x in (h, d, L) if x)
        O = [0.0] * 3 if rng.random() < .3 else [rng.uniform(-1, 1) * min(small * 1e4, 10 * L) for _ in range(3)]
        i = "m%d" % m
        ev.append(dict(op="member", a=dict(i=i, P=P, s=s, h=h, d=d, O=O, simple=rng.random() < .4, dup=any(O) and rng.random() < .1, eps=rng.choice([0, 0, 1]))))
        live.append(i)
        if rng.random() < .35:
            ev.append(dict(op="mroll", a=dict(i=rng.choice(live), q=rng.randint(-4, 5), via=[rng.uniform(-7, 7) for _ in range(rng.choice([0, 0, 1, 3]))])))
        ev[-1]["obs"] = [dict(k=k, i=j) for j in (live if rng.random() < .2 else [ev[-1]["a"]["i"]]) for k in ("member", "mlen")]
        if len(ev) > 1 and "obs" not in ev[-2]:
            ev[-2]["obs"] = []
    return dict(unit=unit, events=ev)


def run_members(plan, tno):
    import hsenv
    import numpy as np
    from hyperstatic.core.fe_model.model import Model
    M = Model()
    M.add_isotropic_material("m", 7.85, 2e8, .25, 0.0)
    M.add_beam_section_rectangle("s", "m", .02, .01)
    at, excs = {}, []

    def reading(o):
        a, q = at[o["i"]], at[o["i"]]["q"] % 4
        h, d, n = a["h"], a["d"], a["n"]
        L = math.hypot(h, d)
        if o["k"] == "mlen":
            return ints([M.get_beam_length(n) / L])[0]
        T = M.get_beam_transform_matrix(n)
        T = np.asarray(T.todense() if hasattr(T, "todense") else T, float)
        if T.shape != (12, 12):
            return [[runner.SENT] * 3] * 3
        B = T[:3, :3]
        full = np.zeros((12, 12))
        for k in range(4):
            full[3 * k:3 * k + 3, 3 * k:3 * k + 3] = B
        if np.max(np.abs(T - full)) > 1e-12:
            return [[runner.SENT] * 3] * 3
        ph = a["P"][2] or 1
        along = [ph * L / h if h else 1.0] * 2 + [L / d if d else 1.0]
        across = [ph * L / d if d and h else 1.0] * 2 + [L / h if h else 1.0]
        flat = [float(ph)] * 2 + [1.0]
        rows = [along, across, flat] if q % 2 == 0 else [along, flat, across]
        v = ints([B[r][c] * rows[r][c] for r in range(3) for c in range(3)])
        return [v[0:3], v[3:6], v[6:9]]

    recs = [dict(t=tno, e=0, op="reset", a={"x": 0}, ret=dict(ok=True), obs=[])]
    for e, ev in enumerate(plan["events"], 1):
        a, op, ok = dict(ev["a"]), ev["op"], True
        try:
            if op == "member":
                O, P, n = a["O"], a["P"], a["i"]
                end = [O[k] + a["h"] * P[k] / (P[2] or 1) for k in (0, 1)] + [O[2] + a["s"] * a["d"]]
                if P[2] == 0 and a["eps"]:      # the last digits differ
                    end[0] += 2e-16 * max(abs(O[0]), .01)
                    end[1] -= 4e-16 * max(abs(O[1]), .01)
                M.add_node(n + "i", *O)
                M.add_node(n + "j", *end)
                if a["simple"]:
                    M.add_simple_beam(n, n + "i", n + "j", 2e8, .25, .01, 1e-5, 2e-5, 3e-5, 7.85, check_dup=a["dup"])
                else:
                    M.add_beam(n, n + "i", n + "j", "s", check_dup=a["dup"])
                at[n] = dict(a, n=n, q=0)
            else:
                for th in a["via"]:
                    M.set_beam_rotation(a["i"], th)
                M.set_beam_rotation(a["i"], a["q"] * math.pi / 2)
                at[a["i"]]["q"] = a["q"]
        except Exception as x:
            ok = False
            excs.append(repr(x))
        a = {k: a[k] for k in ("i", "P", "s", "q") if k in a}
        obs = []
        for o in ev["obs"]:
            r = dict(k=o["k"], i=o["i"], raised=False)
            try:
                r["v"] = reading(o)
            except Exception as x:
                excs.append(repr(x))
                r["raised"] = True
                r["v"] = [[runner.SENT] * 3] * 3 if o["k"] == "member" else runner.SENT
            obs.append(r)
        recs.append(dict(t=tno, e=e, op=op, a=a, ret=dict(ok=ok), obs=obs))
    return recs, excs


def run_csys(plan, tno):
    import hsenv
    import numpy as np
    from hyperstatic.common.csys import Cartesian
    u = plan["unit"]
    objs = {}
    excs = []

    def pt(p):
        t = tuple(x * u for x in p)
        return t
    recs = [dict(t=tno, e=0, op="reset", a={"x": 0}, ret=dict(ok=True), obs=[])]
    for e, ev in enumerate(plan["events"], 1):
        a = dict(ev["a"])
        op = ev["op"]
        ok = True
        th = None
        if "w" in a:
            n = math.sqrt(dot(a["v"], a["v"])) if op == "vec" else 1.0
            th = 2 * math.atan2(a["x"] * n, a["w"]) + 2 * math.pi * a["turns"]
        try:
            if op == "new3":
                kw = dict(name=a["n"]) if a["n"] else {}
                objs[a["i"]] = Cartesian(pt(a["O"]), pt(a["A"]), pt(a["B"]), **kw)
            elif op == "newn":
                kw = dict(name=a["n"]) if a["n"] else {}
                if not a["dflt"]:
                    kw["guide"] = tuple(float(x) for x in a["G"])
                objs[a["i"]] = Cartesian.create_by_normal(pt(a["O"]), tuple(float(x) for x in a["N"]), **kw)
            elif op == "set3":
                objs[a["i"]].set_by_3pts(pt(a["O"]), pt(a["A"]), pt(a["B"]))
            elif op == "origin":
                objs[a["i"]].origin = pt(a["O"])
            elif op == "align":
                objs[a["i"]].align_with_global()
            elif op == "own":
                getattr(objs[a["i"]], "rotate_about_" + "xyz"[a["k"] - 1])(th)
            elif op == "glob":
                getattr(objs[a["i"]], "rotate_about_external_" + "xyz"[a["k"] - 1])(th)
            else:
                objs[a["i"]].rotate_about_vec(*[a["len"] * x for x in a["v"]], th)
        except Exception as x:
            ok = False
            excs.append(repr(x))
        for k in ("turns", "len", "dflt"):
            a.pop(k, None)
        obs = []
        for o in ev["obs"]:
            r = dict(k=o["k"], i=o["i"], sc=o["sc"], raised=False)
            try:
                c = objs[o["i"]]
                if o["k"] in ("matrix", "axes"):
                    m = c.transform_matrix if o["k"] == "matrix" else [c.x, c.y, c.z]
                    v = vec_of(m, 9) or [float("nan")] * 9
                    v = ints([x * o["sc"] for x in v])
                    r["v"] = [v[0:3], v[3:6], v[6:9]]
                elif o["k"] == "origin":
                    r["v"] = ints([x / u for x in (vec_of(c.origin, 3) or [float("nan")] * 3)])
                else:
                    given = [x["a"]["n"] for x in plan["events"][:e] if x["op"] in ("new3", "newn") and x["a"]["i"] == o["i"]]
                    # an unnamed system gets a name of its own
                    r["v"] = c.name if c.name in given or "" not in given else ""
            except Exception as x:
                excs.append(repr(x))
                r["raised"] = True
                r["v"] = [[runner.SENT] * 3] * 3 if o["k"] in ("matrix", "axes") else [runner.SENT] * 3 if o["k"] == "origin" else "?"
            obs.append(r)
        recs.append(dict(t=tno, e=e, op=op, a=a, ret=dict(ok=ok), obs=obs))
    return recs, excs


def orientations(quick, dmax=("50", "250")):
    """A part: all orientations of the model, its steps replayed on the code."""
    def part(R, rng):
        t = R.tier != "quick"
        out = R.model("MCCsys", "MCCsys.cfg", env=dict(DMAX=dmax[t], DEPTH="20", EXPORT="1"), workers=1, heap="4g")
        ops, hs = None, []
        for line in out.splitlines():
            s = line.strip()
            if s.startswith('"A '):
                ops = json.loads(tlc.unquote(s)[2:])
            elif s.startswith('"H '):
                hs.append(json.loads(tlc.unquote(s)[2:]))
        rng.shuffle(hs)
        if not t:
            hs = hs[:quick]
        done = 0
        for k in range(0, len(hs), 6000):
            if k and R.left() < 60:
                break
            plans = []
            for h in hs[k:k + 6000]:
                P = CPlan(random.Random(rng.getrandbits(64)), 1.0)
                O = P.origin()
                P.put("new3", i="c0", O=O, A=[O[0] + 1] + O[1:], B=[O[0], O[1] + 1, O[2]], D=1, R=ID, n="")
                for j in h:
                    o = ops[j - 1]
                    kw = dict(v=o["v"], len=1.0) if o["op"] == "vec" else dict(k=o["k"])
                    P.put(o["op"], i="c0", w=o["w"], x=o["x"], turns=0, **kw)
                plans.append(P.done())
            R.traces_of("CsysTrace", run_csys, plans, "model histories: orientations")
            done += len(plans)
            if R.violations:
                break
        R.models[-1].update(steps=len(hs), replayed=done)
    return part
