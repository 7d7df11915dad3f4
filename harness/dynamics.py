"""Plans for vibration modes and time histories."""
import math
from fractions import Fraction as Fr
from math import gcd, lcm

from exact import Mirror, Reject, Z12, axes, beam_len, ck, kmat, mul, rsqrt, idx, RD
from gen import AX, Frame, Plan, attempts, emit, random_frame, rest6, stable_releases

TS = [Fr(s * a, b) for a, b in ((1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 3), (3, 2), (4, 1), (1, 4), (5, 1), (1, 5)) for s in (1, -1)]


def integer_ratio(v):
    q = 1
    for x in v:
        q = lcm(q, x.denominator)
    g = 0
    for x in v:
        g = gcd(g, int(x * q))
    return [int(x * q) // g for x in v]


def choose_masses(r, K):
    """positive integers with which the block has a rational spectrum"""
    n = len(K)
    if n == 1:
        return [r.choice([1, 1, 2, 3, 5, 8, 30])]
    c = r.choice([1, 1, 1, 2, 5])
    if n == 2:
        for t in r.sample(TS, len(TS)):
            m = [K[0][0] + K[0][1] * t, (K[1][0] + K[1][1] * t) / t]
            if min(m) > 0:
                m = integer_ratio(m)
                if max(m) <= 400:
                    return [c * x for x in m]
        raise Reject("masses")
    if n == 3:
        for t in r.sample(TS, 12):
            for s in r.sample(TS, 12):
                z = [Fr(1), t, s]
                m = [sum(K[i][j] * z[j] for j in range(3)) / z[i] for i in range(3)]
                if min(m) <= 0:
                    continue
                k = integer_ratio(m)
                if max(k) > 400:
                    continue
                tr = sum(K[i][i] / m[i] for i in range(3)) - 1
                dt = det3(K) / (m[0] * m[1] * m[2])
                if rsqrt(tr * tr - 4 * dt) is not None:
                    return [c * x for x in k]
    raise Reject("masses")


def det3(K):
    return K[0][0] * (K[1][1] * K[2][2] - K[1][2] * K[2][1]) - K[0][1] * (K[1][0] * K[2][2] - K[1][2] * K[2][0]) + K[0][2] * (K[1][0] * K[2][1] - K[1][1] * K[2][0])


def restrain(r, p):
    return [r.random() < p for _ in range(6)]


def masses(P, F, c, light, even=True):
    """nodal masses that give the case rational modes (with the members' own masses)"""
    r, m = P.r, P.m.mem
    names, at, n, nd, parts, K, free = P.m.stiffness(m, c)
    own = Mirror.mass10(dict(m, nodes=[dict(x, mass=[0] * 6) for x in m["nodes"]]))
    comp = {at[nm] + k: (nm, k) for nm in names for k in range(6)}
    hs = []
    for i in free:
        if i < nd:
            nm, k = comp[i]
            if own[nm][k] or not (light(k)):
                hs.append(i)
    if not hs:
        raise Reject("no mass")
    names, at, n, nd, parts, hs, A, order, free = P.m.condensed(m, c, set(hs))
    want = {nm: [0] * 6 for nm in names}
    for blk in Mirror.blocks(hs, A):
        ms = choose_masses(r, [[A[i].get(j, Fr(0)) for j in blk] for i in blk])
        k = 1
        for i, x in zip(blk, ms):
            nm, q = comp[i]
            o = own[nm][q]
            if o % 10:
                raise Reject("own mass")
            while k * x * 10 < o:
                k += 1
        for i, x in zip(blk, ms):
            nm, q = comp[i]
            want[nm][q] = k * x - own[nm][q] // 10
            if want[nm][q] > 3000:
                raise Reject("masses")
    for nm in names:          # restrained components may have mass as well
        for q in range(6):
            i = at[nm] + q
            if i not in hs and i not in free and r.random() < 0.2:
                want[nm][q] = r.randint(1, 9)
    return want


def own_mass(P, F, p):
    """calls of the frame's definition, members with even density or none"""
    out = []
    for op, a, d, n in F.calls():
        if "rho" in a:
            a["rho"] = P.r.choice([2, 10, 20]) if P.r.random() < p else 0
        out.append((op, a, d, n))
    return out


def ob_modes(P, c, k):
    """readings after a modal solution"""
    r = P.r
    w = P.m.res[c][1]
    ms, G, kk = w["ms"], w["_G"], w["_k"]
    R = []
    for x in range(kk):
        R.append(1)
        while ms[x]["ln"] * R[x] < 10 ** 7:
            R[x] *= 10
        ck(ms[x]["ln"] * R[x])
    P.ob(k="freq", c=c, R=R, ld=[ms[x]["ld"] for x in range(kk)])
    nodes = [n["n"] for n in P.m.asb["nodes"]]
    x = 0
    while x < kk:
        y = x
        while y + 1 < len(ms) and (ms[y + 1]["ln"], ms[y + 1]["ld"]) == (ms[x]["ln"], ms[x]["ld"]):
            y += 1
        if y >= kk:
            break
        S = 1
        for z in range(x, y + 1):
            S = ck(lcm(S, G[z]))
        big = 0
        for z in range(x, y + 1):
            u = max(abs(v) for _, row in ms[z]["U"] for v in row)
            big += ck(S // G[z] * u * u)
        ck(2 * big)
        ns = r.sample(nodes, min(len(nodes), 3))
        moving = [n for n in nodes if any(any(v) for a, v in [t for z in range(x, y + 1) for t in ms[z]["U"]] if a == n)]
        if moving and not set(ns) & set(moving):
            ns[0] = r.choice([n for n in moving])
        P.ob(k="proj", c=c, x=x + 1, y=y + 1, S=S, ns=ns, api=(x == y == 0 and P.backend == "api" and r.random() < 0.7))
        x = y + 1


def solvem(P, c, num, own=False):
    w = P.m.modes_witness(c, num)
    P.ev("solvem", c=c, num=num, own=own, w=w)
    if w["kind"] == "modes":
        ob_modes(P, c, num)


def unit_scale(P):
    P.scale.pop("theta", None)
    P.scale["mass"] = 10.0 ** P.r.randint(0, 4) / min(1.0, P.scale.get("length", 1.0) ** 2)      # see Plan.__init__
    P.scale["rho"] = P.scale["mass"] / P.scale.get("length", 1.0) ** 3


def c14_plan(r):
    def build(r):
        P = Plan(r, r.choice(["api", "direct"]))
        unit_scale(P)
        F = random_frame(P, 2, 4, r.choice(["ax", "ax", "ax", "345", "345v"]), rots=P.backend == "direct" and r.random() < 0.3)
        dens = r.choice([0, 0, 0.4, 1])
        emit(P, own_mass(P, F, dens), r.random() < 0.3)
        if r.random() < 0.3:
            b = r.choice(F.beams)
            bb = P.m.mem["beams"][idx(P.m.mem["beams"], b)]
            P.ev("set_rel", n=b, r=stable_releases(r, kmat(bb["p"], beam_len(bb["la"], bb["lb"])), 3))
        cases = [P.name("c", k) for k in range(r.choice([1, 1, 2]))]
        rounds = r.choice([1, 1, 2, 3])
        done = 0
        nm = {}
        for t in range(rounds):
            if t == 0 or r.random() < 0.5:
                p = r.choice([0.3, 0.5, 0.7, 0.85])
                for n in F.nodes:
                    P.ev("set_grest", n=n, r=[True] * 6 if r.random() < 0.3 else restrain(r, p))
                for c in cases:
                    if c not in P.m.mem["cases"] or r.random() < 0.5:
                        nm[c] = r.choice([1, 2, 3, 4, 6])
                        P.ev("add_case", c=c, kind="modal", n=nm[c])
                        if r.random() < 0.4:
                            for n in F.nodes:
                                if r.random() < 0.8:
                                    P.ev("set_crest", c=c, n=n, r=[True] * 6 if r.random() < 0.4 else restrain(r, p))
            if t and r.random() < 0.4:      # another stiffness
                for op, a, d, n in own_mass(P, F, dens):
                    if op == "add_sbeam" and r.random() < 0.6:
                        P.ev(op, **a)
            lt = r.choice([lambda k: False, lambda k: k >= 3, lambda k: False])
            want = masses(P, F, cases[0], lt)
            for n in F.nodes:
                if any(want[n]) or t:
                    P.ev("set_mass", n=n, m=want[n])
            P.ev("assemble")
            for c in cases:
                try:
                    num = r.choice([1, 1, 2, 2, 3, 4, 6, 9, 30])
                    own = P.backend == "direct" and r.random() < 0.3
                    if own:
                        num = nm[c]
                    solvem(P, c, num, own)
                    done += 1
                except Reject:
                    if c == cases[0]:
                        k = 1
                        solvem(P, c, k)
                        done += 1
            if r.random() < 0.3 and len(cases) == 2:
                for c in cases:
                    if P.cur(c):
                        P.ev("nop")
                        ob_modes(P, c, 0)
        if max([len(e["a"]["w"]["ms"]) for e in P.events if e["op"] == "solvem"] + [0]) < 2 and r.random() < 0.85:
            raise Reject("plain")
        if r.random() < 0.2:
            P.ev("solvem", c=P.name("c", 70), num=2, own=False, w=dict(kind="none", q=4, U=[], DL=[], ms=[]))
        return P.done()
    return attempts(r, build, 400)


# ------------------------------------------------------------ time histories --
INTS = [(1, 1, 0), (1, 2, 0), (1, 4, 0), (4, 1, 0), (1, 10, 0), (10, 3, 0), (1, 100, 0),
        (1, 1, 1), (4, 4, 1), (10, 10, 1), (100, 100, 1), (25, 100, 1), (1, 9, 2), (10, 40, 3), (100, 400, 7), (5, 2, 1), (100, 10000, 1), (25, 20000, 1), (100, 100000, 1)]


def history_loads(P, c, n, steps_extra=True):
    """patterns and curves under which the case moves through integer states"""
    r, M = P.r, P.m
    m = M.mem
    names, comp, parts, K, free, mass = M.dynamics(m, c)
    if not free or len(free) > 14:
        raise Reject("size")
    I = m["cases"][c]["int"]
    e, al, be = I["e"], I["al"], I["be"]
    # what moves: a random integer history
    mag = r.choice([1, 2, 5])
    moving = r.sample(free, min(len(free), r.randint(1, 6)))
    H = [[0] * len(comp)]
    for t in range(n):
        H.append([r.randint(-mag, mag) if i in moving else 0 for i in range(len(comp))])
    D = 1
    for b in m["beams"]:
        D = lcm(D, axes(b["la"], b["lb"], b["rot"])[0])

    def need(H):
        out = []
        for t in range(n):
            u1, u0, u_ = H[t + 1], H[t], H[t - 1] if t else H[0]
            row = {}
            for i in free:
                kd = sum((v * (u1[j] - u_[j]) for j, v in K[i].items()), Fr(0))
                ku = sum((v * u0[j] for j, v in K[i].items()), Fr(0))
                row[i] = (al * mass[i] * (u1[i] - 2 * u0[i] + u_[i]) + be * (mass[i] * (u1[i] - u_[i]) + kd)) / e + ku
            out.append(row)
        return out
    k = D
    for row in need([[D * x for x in h] for h in H]):
        for v in row.values():
            k = lcm(k, D * v.denominator)
    H = [[k * x for x in h] for h in H]
    N = need(H)
    # patterns of any kind first, what is missing is made up component by component
    pid = [len(m["pcur"])]

    def pat():
        p = P.name("p", pid[0])
        pid[0] += 1
        P.ev("add_pat", p=p)
        return p

    def curve(vals):
        cv = [int(v) for v in vals]
        return cv + [r.randint(-9, 9) for _ in range(r.choice([0, 0, 1, 3]))] if long else cv
    long = True
    for _ in range(r.choice([0, 0, 1, 2])):
        p = pat()
        nm = r.choice(names)
        if r.random() < 0.5 or D > 1 or not m["beams"]:
            P.ev("set_nload", p=p, n=nm, f=[r.randint(-4, 4) * k for _ in range(6)])
        else:
            b = r.choice(m["beams"])
            q = [r.randint(-1, 1) * 60 for _ in range(8)]
            P.ev("set_bdist", p=p, n=b["n"], q=q)
        P.ev("add_cpt", c=c, p=p, f=r.choice([4, 4, 8, -4]), cv=curve([r.randint(-3, 3) for _ in range(n)]))
    rest = [dict(x) for x in N]
    for t in range(n):
        have = M.load_at(m, c, t) if m["cases"][c]["plist"] else {}
        for i in free:
            rest[t][i] -= have.get(comp[i], Fr(0))
    todo = [i for i in free if any(rest[t][i] for t in range(n))]
    short = None
    r.shuffle(todo)
    while todo:
        i = todo.pop()
        vals = [rest[t][i] for t in range(n)]
        if any(v.denominator != 1 for v in vals):
            raise Reject("fractions")
        g = 0
        for v in vals:
            g = gcd(g, int(v))
        f = r.choice([4, 4, 8, -4, 2, 12])
        a = r.choice([x for x in (1, 2, -3, 5, 10, g, -g) if (g * 4) % (x * f) == 0] or [0])
        if a == 0:
            a, f = 1, 4
        F = {comp[i][0]: [0] * 6}
        F[comp[i][0]][comp[i][1]] = a
        cv = [v * 4 / (a * f) for v in vals]
        # components that move in proportion share a pattern
        for j in list(todo):
            w = [rest[t][j] for t in range(n)]
            if all(w[t] * vals[0] == vals[t] * w[0] for t in range(n)) and vals[0] and w[0] * a % vals[0] == 0:
                F.setdefault(comp[j][0], [0] * 6)[comp[j][1]] = int(w[0] * a / vals[0])
                todo.remove(j)
        p = pat()
        for nm, v in F.items():
            P.ev("set_nload", p=p, n=nm, f=v)
        P.ev("add_cpt", c=c, p=p, f=f, cv=curve(cv))
    pl = m["cases"][c]["plist"]
    if not pl:
        raise Reject("no loads")
    if min(len(x["cv"]) for x in pl) != n:
        p = pat()
        P.ev("add_cpt", c=c, p=p, f=4, cv=[1] * n)


def ob_history(P, c, full=True):
    r = P.r
    a = P.m.asb
    h = P.m.res[c][1]["h"]
    for n in a["nodes"]:
        P.ob(k="tdisp", c=c, n=n["n"])
    from exact import deform_s
    for _ in range(2):
        b = r.choice(a["beams"])
        x = r.randint(1, len(h))
        l = beam_len(b["la"], b["lb"])
        if r.random() < 0.6:
            xn, xd = r.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 3)])
            deform_s(dict(map(tuple, h[x - 1]["DL"]))[b["n"]], l, xn, xd)
            P.ob(k="tdeform", c=c, b=b["n"], step=x, xn=xn, xd=xd, l=l)
        else:
            P.ob(k="tendf", c=c, b=b["n"], step=x)


def solvet(P, c):
    w = P.m.history_witness(c)
    P.ev("solvet", c=c, w=w)
    if w["kind"] == "hist":
        ob_history(P, c)


def c15_plan(r):
    def build(r):
        P = Plan(r, "direct")
        unit_scale(P)
        e, al, be = r.choice(INTS)
        if be:      # the damping has the form of the specification in these units
            P.scale["force"] = 2 * math.pi ** 2 * P.scale["mass"] * P.scale.get("length", 1.0)
        F = random_frame(P, 2, 4, r.choice(["ax", "ax", "ax", "345"]), rots=r.random() < 0.2)
        emit(P, own_mass(P, F, r.choice([0, 0, 0.5, 1])), r.random() < 0.3)
        p = r.choice([0.4, 0.6, 0.8])
        for k, n in enumerate(F.nodes):
            P.ev("set_grest", n=n, r=[True] * 6 if k == 0 or r.random() < 0.2 else restrain(r, p))
            P.ev("set_mass", n=n, m=[r.choice([1, 1, 2, 3, 5, 20, 50]) for _ in range(6)])
        for t in range(r.choice([1, 1, 2])):
            cases = [P.name("c", k) for k in range(r.choice([1, 1, 2]))]
            for c in cases:
                P.ev("add_case", c=c, kind="th")
                if r.random() < 0.3:
                    for n in F.nodes:
                        P.ev("set_crest", c=c, n=n, r=[True] * 6 if r.random() < 0.3 else restrain(r, p))
                i = (e, al, be) if c == cases[0] or be == 0 else r.choice([x for x in INTS if x[2]])
                P.ev("use_int", c=c, e=i[0], al=i[1], be=i[2])
                history_loads(P, c, r.choice([1, 2, 3, 4, 5, 6, 8]))
            P.ev("assemble")
            for c in cases:
                solvet(P, c)
            if r.random() < 0.4:
                # other factors: the history is multiplied
                k = r.choice([2, 3, -1])
                c = r.choice(cases)
                for x in list(P.m.mem["cases"][c]["plist"]):
                    P.ev("set_pf", c=c, p=x["n"], f=k * x["f"])
                P.ev("assemble")
                solvet(P, c)
            if t == 0 and r.random() < 0.5:
                for n in F.nodes:
                    if r.random() < 0.5:
                        P.ev("set_mass", n=n, m=[r.choice([1, 2, 4, 9]) for _ in range(6)])
        return P.done()
    return attempts(r, build, 400)


def c15_long(r):
    """Many steps, little damping."""
    def build(r):
        P = Plan(r, "direct")
        unit_scale(P)
        e, al, be = r.choice([(1, 10000, 0), (1, 100000, 0), (1, 1000, 0), (1, 10000, 1), (1, 1000, 1), (1, 100000, 10), (10, 10000, 1), (1, 100000, 1), (1, 1000000, 1), (100, 10000, 1), (100, 100000, 1),
                                (10, 100000, 1)])
        if be:
            P.scale["force"] = 2 * math.pi ** 2 * P.scale["mass"] * P.scale.get("length", 1.0)
        F = random_frame(P, 2, 2, "ax")
        emit(P, own_mass(P, F, 0), False)
        for k, n in enumerate(F.nodes):
            P.ev("set_grest", n=n, r=[True] * 6 if k == 0 else restrain(r, 0.7))
            P.ev("set_mass", n=n, m=[r.choice([1, 1, 2, 3, 5]) for _ in range(6)])
        c = P.name("c", 0)
        P.ev("add_case", c=c, kind="th")
        P.ev("use_int", c=c, e=e, al=al, be=be)
        history_loads(P, c, r.choice([33, 50, 70, 110, 160]))
        P.ev("assemble")
        solvet(P, c)
        return P.done()
    return attempts(r, build, 400)


def c14_many(r):
    """Many oscillators that do not touch each other: more unknowns than modes."""
    def build(r):
        P = Plan(r, r.choice(["api", "direct"]))
        unit_scale(P)
        pts, edges = [], []
        for i in range(r.randint(8, 18)):
            d, l = r.choice(AX), r.choice([1, 2])
            pts += [(60 * i, 0, 0), (60 * i + d[0] * l, d[1] * l, d[2] * l)]
            edges.append((2 * i, 2 * i + 1) if r.random() < 0.5 else (2 * i + 1, 2 * i))
        F = Frame(P, pts, edges)
        emit(P, own_mass(P, F, 0), r.random() < 0.3)
        for k, n in enumerate(F.nodes):
            P.ev("set_grest", n=n, r=[True] * 6 if k % 2 == 0 else restrain(r, 0.4))
        c, num = P.name("c", 0), r.choice([1, 2, 3, 4, 6, 8, 12])
        P.ev("add_case", c=c, kind="modal", n=num)
        for n, v in masses(P, F, c, lambda k: False).items():
            if any(v):
                P.ev("set_mass", n=n, m=v)
        P.ev("assemble")
        solvem(P, c, num)
        return P.done()
    return attempts(r, build, 400)
