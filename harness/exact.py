"""The planner's own exact arithmetic: proposes solutions for the specification
to check (spec/HSSolution.tla), and rejects plans TLC's 32-bit integers or exact
divisions cannot represent.  Nothing here looks at the code under test, and no
verdict is taken here: a mistake here shows as a driver error in TLC, never as
a violation."""
from fractions import Fraction as Fr
from math import gcd, lcm, isqrt
import copy
import numpy as np

LIM = 2 ** 30 - 2


class Reject(Exception):
    """The plan cannot be represented; the generator tries another."""


def ck(x):
    if not -LIM <= x <= LIM:
        raise Reject("overflow")
    return x


def mul(*a):
    r = 1
    for x in a:
        r = ck(r * x)
    return r


def div(a, b):
    if b == 0 or a % b:
        raise Reject("inexact")
    return a // b


CU, RD = 5, 25
NOROT = (1, 0, 1)


def vec(a, b):
    return [b[k] - a[k] for k in range(3)]


def sq(n):
    r = isqrt(n)
    return r if r * r == n else -1


def beam_len(la, lb):
    v = vec(la, lb)
    L = sq(sum(x * x for x in v))
    if L < 0 or L > 20000:
        raise Reject("length")
    return div(L, CU)


def axes(la, lb, rot):
    v = vec(la, lb)
    L = sq(sum(x * x for x in v))
    if v[0] == 0 and v[1] == 0:
        s = 1 if v[2] > 0 else -1
        D, R = 1, [[0, 0, s], [1, 0, 0], [0, s, 0]]
    else:
        h = sq(v[0] ** 2 + v[1] ** 2)
        if h < 0:
            raise Reject("direction")
        D = ck(h * L)
        R = [[v[0] * h, v[1] * h, v[2] * h], [-v[0] * v[2], -v[1] * v[2], h * h], [v[1] * L, -v[0] * L, 0]]
        for r in R:
            for x in r:
                ck(x)
        D, R = reduce_t(D, R)
    c, s, d = rot
    y = [ck(c * R[1][k] + s * R[2][k]) for k in range(3)]
    z = [ck(-s * R[1][k] + c * R[2][k]) for k in range(3)]
    x = [ck(d * R[0][k]) for k in range(3)]
    D, R = reduce_t(ck(D * d), [x, y, z])
    if RD % D:
        raise Reject("direction denominator")
    return D, R


def reduce_t(D, R):
    g = D
    for r in R:
        for x in r:
            g = gcd(g, abs(x))
    return D // g, [[x // g for x in r] for r in R]


def to_local(t, g):
    D, R = t
    out = []
    for k in range(12):
        o = (k // 3) * 3
        r = R[k % 3]
        out.append(ck(ck(r[0] * g[o]) + ck(r[1] * g[o + 1]) + ck(r[2] * g[o + 2])))
    return out


def to_global(t, l):
    D, R = t
    out = []
    for k in range(12):
        o = (k // 3) * 3
        c = k % 3
        out.append(ck(ck(R[0][c] * l[o]) + ck(R[1][c] * l[o + 1]) + ck(R[2][c] * l[o + 2])))
    return out


def shear_g(E, mn, md):
    return div(ck(E * md), 2 * (md + mn))


def kmat(p, l):
    """12x12 exact stiffness (Fractions); J<0 gives an arbitrary torsion constant."""
    E = p["E"]
    a = Fr(E * p["A"], l)
    G = Fr(E * p["md"], 2 * (p["md"] + p["mn"]))
    j = G * (p["J"] if p["J"] > 0 else 7) / l
    K = [[Fr(0)] * 12 for _ in range(12)]

    def put(i, jx, v):
        K[i][jx] = v
        K[jx][i] = v
    put(0, 0, a); put(6, 6, a); put(0, 6, -a)
    put(3, 3, j); put(9, 9, j); put(3, 9, -j)
    for I, u, r, s in ((p["I3"], 1, 5, 1), (p["I2"], 2, 4, -1)):
        w = Fr(12 * E * I, l ** 3)
        m = Fr(6 * E * I, l ** 2) * s
        t = Fr(2 * E * I, l)
        put(u, u, w); put(u + 6, u + 6, w); put(u, u + 6, -w)
        put(u, r, m); put(u, r + 6, m); put(u + 6, r, -m); put(u + 6, r + 6, -m)
        put(r, r, 2 * t); put(r + 6, r + 6, 2 * t); put(r, r + 6, t)
    return K


def ktimes(p, l, d):
    E = p["E"]
    ka = div(mul(E, p["A"]), l)
    t3 = div(mul(2, E, p["I3"]), l)
    t2 = div(mul(2, E, p["I2"]), l)
    s3 = div(mul(6, E, p["I3"]), l * l)
    s2 = div(mul(6, E, p["I2"]), l * l)
    w3 = div(mul(12, E, p["I3"]), l ** 3)
    w2 = div(mul(12, E, p["I2"]), l ** 3)
    tw = d[3] - d[9]
    if p["J"] < 0:
        if tw:
            raise Reject("torsion")
        f4 = 0
    else:
        f4 = mul(div(mul(shear_g(E, p["mn"], p["md"]), p["J"]), l), tw)
    f1 = mul(ka, d[0] - d[6])
    f2 = ck(mul(w3, d[1] - d[7]) + mul(s3, d[5] + d[11]))
    f3 = ck(mul(w2, d[2] - d[8]) - mul(s2, d[4] + d[10]))
    g2 = mul(-s2, d[2] - d[8])
    g3 = mul(s3, d[1] - d[7])
    return [f1, f2, f3, f4,
            ck(g2 + mul(2 * t2, d[4]) + mul(t2, d[10])), ck(g3 + mul(2 * t3, d[5]) + mul(t3, d[11])),
            -f1, -f2, -f3, -f4,
            ck(g2 + mul(t2, d[4]) + mul(2 * t2, d[10])), ck(g3 + mul(t3, d[5]) + mul(2 * t3, d[11]))]


def fs_scale(l, rd):
    return ck(60 * rd ** 3 * l)


def fef_s(q, F, rn, rd, l):
    k = rd ** 3 * l
    a, b, c = rn, rd - rn, 60 * l
    li = lambda x, y: 2 * x + y
    lj = lambda x, y: x + 2 * y
    dist = [mul(10 * l, li(q[0], q[1]), k), mul(3 * l, 7 * q[2] + 3 * q[3], k), mul(3 * l, 7 * q[4] + 3 * q[5], k),
            mul(10 * l, li(q[6], q[7]), k), mul(-l * l, 3 * q[4] + 2 * q[5], k), mul(l * l, 3 * q[2] + 2 * q[3], k),
            mul(10 * l, lj(q[0], q[1]), k), mul(3 * l, 3 * q[2] + 7 * q[3], k), mul(3 * l, 3 * q[4] + 7 * q[5], k),
            mul(10 * l, lj(q[6], q[7]), k), mul(l * l, 2 * q[4] + 3 * q[5], k), mul(-l * l, 2 * q[2] + 3 * q[3], k)]
    ff = lambda x, y: ck(c * y * y * (rd + 2 * x))
    fm = lambda x, y: ck(c * l * x * y * y)
    mf = ck(360 * a * b * rd)
    mm = lambda x, y: ck(c * rd * y * (rd - 3 * x))
    ab, ba, mab, mba = ff(a, b), ff(b, a), fm(a, b), fm(b, a)
    conc = [mul(c * rd * rd * b, F[0]), ck(ab * F[1]) - ck(mf * F[5]), ck(ab * F[2]) + ck(mf * F[4]),
            mul(c * rd * rd * b, F[3]), -ck(mab * F[2]) + ck(mm(a, b) * F[4]), ck(mab * F[1]) + ck(mm(a, b) * F[5]),
            mul(c * rd * rd * a, F[0]), ck(ba * F[1]) + ck(mf * F[5]), ck(ba * F[2]) - ck(mf * F[4]),
            mul(c * rd * rd * a, F[3]), ck(mba * F[2]) + ck(mm(b, a) * F[4]), -ck(mba * F[1]) + ck(mm(b, a) * F[5])]
    for x in conc:
        ck(x)
    return [ck(x + y) for x, y in zip(dist, conc)]


def fef(q, F, rn, rd, l):
    fs = fs_scale(l, rd)
    return [div(x, fs) for x in fef_s(q, F, rn, rd, l)]


def fef_fr(q, F, rn, rd, l):
    fs = fs_scale(l, rd)
    return [Fr(x, fs) for x in fef_s(q, F, rn, rd, l)]


def deform_s(d, l, xn, xd):
    x, y = xn, xd - xn
    k = ck(l * xd * xd)
    n1 = ck(l * (xd ** 3 - 3 * x * x * xd + 2 * x ** 3))
    n2 = ck(l * l * (x * y * y))
    n3 = ck(l * (3 * x * x * xd - 2 * x ** 3))
    n4 = ck(-l * l * (x * x * y))
    m1 = ck(6 * xd * (x * x - x * xd))
    m2 = ck(l * xd * (xd * xd - 4 * x * xd + 3 * x * x))
    m4 = ck(l * xd * (3 * x * x - 2 * x * xd))
    P = lambda *t: ck(sum(ck(u * v) for u, v in t))
    return [mul(k, ck(P((y, d[0]), (x, d[6])))), P((n1, d[1]), (n2, d[5]), (n3, d[7]), (n4, d[11])),
            P((n1, d[2]), (-n2, d[4]), (n3, d[8]), (-n4, d[10])), mul(k, P((y, d[3]), (x, d[9]))),
            P((m1, d[1] - d[7]), (m2, d[5]), (m4, d[11])), P((m1, d[2] - d[8]), (-m2, d[4]), (-m4, d[10]))]


# --------------------------------------------------------------------------
Z6, Z8, Z12 = [0] * 6, [0] * 8, [0] * 12
F6, F12 = [False] * 6, [False] * 12


def idx(s, n):
    for k, r in enumerate(s):
        if r["n"] == n:
            return k
    return -1


def upsert(s, r):
    k = idx(s, r["n"])
    if k < 0:
        s.append(r)
    else:
        s[k] = r


class Mirror:
    """The planner's copy of spec/HSCore.tla (to know what may be asked next)."""

    def __init__(self):
        self.mem = self.empty()
        self.asb = None
        self.nasb = 0
        self.res = {}
        self.files = {}
        self.loose = False      # accept stable systems whose solution is not compared

    @staticmethod
    def empty():
        return dict(nodes=[], beams=[], shells=[], grest={}, mats={}, secs={}, ssecs={}, pats=[], pcur={}, cases={})

    # helpers ---------------------------------------------------------
    def loc(self, n):
        return self.mem["nodes"][idx(self.mem["nodes"], n)]["loc"]

    def has_node(self, n):
        return idx(self.mem["nodes"], n) >= 0

    def apply(self, op, a):
        """-> (ok, value); the value is the index (or -1)"""
        f = getattr(self, "op_" + op, None)
        if f is None:
            return True, -1
        m = copy.deepcopy(self.mem) if op in ("add_node", "add_beam", "add_sbeam", "add_shell") else None
        r = f(**a)
        if not r[0] and m is not None:
            self.mem = m
        return r

    def op_add_node(self, n, x, y, z, dup=False):
        m = self.mem
        if dup:
            for k, r in enumerate(m["nodes"]):
                if r["loc"] == [x, y, z]:
                    return True, k
        upsert(m["nodes"], dict(n=n, loc=[x, y, z], mass=Z6))
        return True, idx(m["nodes"], n)

    def op_set_mass(self, n, m):
        k = idx(self.mem["nodes"], n)
        if k < 0:
            return False, -1
        self.mem["nodes"][k]["mass"] = m
        return True, -1

    def op_set_grest(self, n, r):
        if not self.has_node(n):
            return False, -1
        self.mem["grest"][n] = r
        return True, -1

    def op_add_mat(self, n, rho, E, mn, md):
        self.mem["mats"][n] = dict(rho=rho, E=E, mn=mn, md=md)
        return True, -1

    def _sec(self, n, mat, A, I2, I3, J):
        if mat not in self.mem["mats"]:
            return False, -1
        self.mem["secs"][n] = dict(self.mem["mats"][mat], A=A, I2=I2, I3=I3, J=J)
        return True, -1

    def op_add_sec(self, n, mat, A, I2, I3, J):
        return self._sec(n, mat, A, I2, I3, J)

    def op_add_rect(self, n, mat, h, b):
        return self._sec(n, mat, h * b, div(h * b ** 3, 12), div(b * h ** 3, 12), -1)

    def op_add_box(self, n, mat, h, b, tw, tf):
        hi, bi = h - 2 * tf, b - 2 * tw
        return self._sec(n, mat, h * b - hi * bi, div(h * b ** 3 - hi * bi ** 3, 12), div(b * h ** 3 - bi * hi ** 3, 12), -1)

    def op_add_isec(self, n, mat, h, b, tw, tf):
        hi = h - 2 * tf
        return self._sec(n, mat, 2 * b * tf + hi * tw, div(2 * tf * b ** 3 + hi * tw ** 3, 12),
                         div(b * h ** 3 - (b - tw) * hi ** 3, 12), -1)

    def op_add_ssec(self, n, mat, t, ty):
        if mat not in self.mem["mats"]:
            return False, -1
        self.mem["ssecs"][n] = dict(t=t, ty=ty)
        return True, -1

    def _beam(self, n, s, e, p, dup):
        la, lb = self.loc(s), self.loc(e)
        if la == lb:
            return False, -1
        bs = self.mem["beams"]
        if dup:
            for k, b in enumerate(bs):
                if (b["la"], b["lb"]) in ((la, lb), (lb, la)):
                    return True, k
        upsert(bs, dict(n=n, s=s, e=e, la=la, lb=lb, p=p, rel=F12, rot=NOROT))
        return True, idx(bs, n)

    def op_add_beam(self, n, s, e, sec, dup=False):
        if not self.has_node(s) or not self.has_node(e) or sec not in self.mem["secs"]:
            return False, -1
        return self._beam(n, s, e, self.mem["secs"][sec], dup)

    def op_add_sbeam(self, n, s, e, E, mn, md, A, I2, I3, J, rho, dup=False):
        if not self.has_node(s) or not self.has_node(e):
            return False, -1
        return self._beam(n, s, e, dict(E=E, mn=mn, md=md, rho=rho, A=A, I2=I2, I3=I3, J=J), dup)

    def op_set_rel(self, n, r):
        k = idx(self.mem["beams"], n)
        if k < 0:
            return False, -1
        self.mem["beams"][k]["rel"] = r
        return True, -1

    def op_set_rot(self, n, rot):
        k = idx(self.mem["beams"], n)
        if k < 0:
            return False, -1
        self.mem["beams"][k]["rot"] = tuple(rot)
        return True, -1

    def op_add_shell(self, n, ns, sec):
        if any(not self.has_node(x) for x in ns) or sec not in self.mem["ssecs"]:
            return False, -1
        locs = [self.loc(x) for x in ns]
        a, b = vec(locs[0], locs[1]), vec(locs[1], locs[2])
        if [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] == [0, 0, 0]:
            return False, -1
        upsert(self.mem["shells"], dict(n=n, ns=ns, locs=locs, sec=self.mem["ssecs"][sec]))
        return True, idx(self.mem["shells"], n)

    def op_add_pat(self, p):
        self.mem["pats"].append(dict(nl={}, nd={}, bd={}, bc={}))
        self.mem["pcur"][p] = len(self.mem["pats"]) - 1
        return True, -1

    def _pat(self, p, field, key, val):
        if p not in self.mem["pcur"]:
            return False, -1
        self.mem["pats"][self.mem["pcur"][p]][field][key] = val
        return True, -1

    def op_set_nload(self, p, n, f):
        return self._pat(p, "nl", n, f)

    def op_set_ndisp(self, p, n, f):
        return self._pat(p, "nd", n, f)

    def op_set_bdist(self, p, n, q):
        return self._pat(p, "bd", n, q)

    def op_set_bconc(self, p, n, f, rn, rd):
        return self._pat(p, "bc", n, dict(F=f, rn=rn, rd=rd))

    def op_add_case(self, c, kind, n=3):
        self.mem["cases"][c] = dict(kind=kind, plist=[], rest={}, n=n, int=dict(e=0, al=0, be=0))
        return True, -1

    def op_add_cp(self, c, p, f):
        if p not in self.mem["pcur"] or c not in self.mem["cases"]:
            return False, -1
        upsert(self.mem["cases"][c]["plist"], dict(n=p, id=self.mem["pcur"][p], f=f))
        return True, -1

    def op_add_cpt(self, c, p, f, cv):
        if p not in self.mem["pcur"] or c not in self.mem["cases"]:
            return False, -1
        upsert(self.mem["cases"][c]["plist"], dict(n=p, id=self.mem["pcur"][p], f=f, cv=cv))
        return True, -1

    def op_set_pf(self, c, p, f):
        if c not in self.mem["cases"]:
            return False, -1
        pl = self.mem["cases"][c]["plist"]
        k = idx(pl, p)
        if k >= 0:
            pl[k] = dict(pl[k], f=f)
        return True, -1

    def op_set_crest(self, c, n, r):
        if c not in self.mem["cases"]:
            return False, -1
        self.mem["cases"][c]["rest"][n] = r
        return True, -1

    def op_assemble(self):
        self.asb = copy.deepcopy(self.mem)
        self.nasb += 1
        return True, -1

    def op_solve(self, c, w):
        if w["kind"] in ("sol", "opaque", "modes", "hist"):
            self.res[c] = (self.nasb, w)
            return True, -1
        return False, -1

    op_solvem = op_solvet = lambda self, c, w, num=0, own=False: self.op_solve(c, w)

    def op_use_int(self, c, e, al, be):
        if c not in self.mem["cases"]:
            return False, -1
        self.mem["cases"][c]["int"] = dict(e=e, al=al, be=be)
        return True, -1

    def op_save(self, f):
        self.files[f] = copy.deepcopy(self.mem)
        return True, -1

    def op_load(self, f):
        if f not in self.files:
            return False, -1
        self.mem = copy.deepcopy(self.files[f])
        return True, -1

    def op_clear(self):
        self.asb = None
        self.res = {}
        self.files = {}
        return True, -1

    def op_fresh(self):
        self.mem = self.empty()
        return True, -1

    # loads -----------------------------------------------------------
    @staticmethod
    def case_nodal4(m, c, n):
        r = Z6
        for e in c["plist"]:
            f = m["pats"][e["id"]]["nl"].get(n, Z6)
            r = [ck(x + e["f"] * y) for x, y in zip(r, f)]
        return r

    @staticmethod
    def case_disp4(m, c, n):
        r = Z6
        for e in c["plist"]:
            f = m["pats"][e["id"]]["nd"].get(n, Z6)
            r = [ck(x + e["f"] * y) for x, y in zip(r, f)]
        return r

    @staticmethod
    def pat_fef(p, b, l, fr=False):
        cc = p["bc"].get(b, dict(F=Z6, rn=1, rd=2))
        return (fef_fr if fr else fef)(p["bd"].get(b, Z8), cc["F"], cc["rn"], cc["rd"], l)

    @classmethod
    def case_beam4(cls, m, c, b, l):
        r = Z12
        for e in c["plist"]:
            p = m["pats"][e["id"]]
            if b in p["bd"] or b in p["bc"]:
                r = [ck(x + ck(e["f"] * y)) for x, y in zip(r, cls.pat_fef(p, b, l))]
        return r

    def eff_rest(self, m, c):
        r = m["cases"][c]["rest"]
        return r if r else m["grest"]

    def solvable(self, c):
        if self.asb is None or c not in self.asb["cases"]:
            return False
        names = {n["n"] for n in self.asb["nodes"]}
        return set(self.eff_rest(self.asb, c)) <= names

    # solution --------------------------------------------------------
    def system(self, m, c):
        """Exact equations of a case: node components first, then released ends."""
        names = [n["n"] for n in m["nodes"]]
        at = {n: 6 * k for k, n in enumerate(names)}
        nd = 6 * len(names)
        unk = nd
        parts = []
        for b in m["beams"]:
            t = axes(b["la"], b["lb"], b["rot"])
            l = beam_len(b["la"], b["lb"])
            K = kmat(b["p"], l)
            D, R = t
            g = [at[b["s"]] + k for k in range(6)] + [at[b["e"]] + k for k in range(6)]
            rows = []
            relpos = {}
            for k in range(12):
                if b["rel"][k]:
                    rows.append({unk: Fr(1)})
                    relpos[k] = unk
                    unk += 1
                else:
                    o = (k // 3) * 3
                    rows.append({g[o + j]: Fr(R[k % 3][j], D) for j in range(3) if R[k % 3][j]})
            parts.append((b, K, rows, relpos, self.case_beam4(m, m["cases"][c], b["n"], l)))
        return names, at, nd, unk, parts

    def witness(self, c, want="any"):
        """Proposal for solve(c) on the assembled snapshot."""
        none = dict(kind="none", q=4, U=[], DL=[])
        if not self.solvable(c):
            return none
        m = self.asb
        names, at, nd, n, parts = self.system(m, c)
        if n == 0:
            return dict(kind="sol", q=4, U=[], DL=[])
        K = {}
        f = [Fr(0)] * n
        for b, Kb, rows, relpos, f4 in parts:
            for i in range(12):
                for gi, vi in rows[i].items():
                    if f4[i]:
                        f[gi] += vi * f4[i] / 4
                    for j in range(12):
                        kij = Kb[i][j]
                        if kij:
                            for gj, vj in rows[j].items():
                                K[gi, gj] = K.get((gi, gj), 0) + vi * kij * vj
        for nm in names:
            for k, x in enumerate(self.case_nodal4(m, m["cases"][c], nm)):
                f[at[nm] + k] += Fr(x, 4)
        rest = self.eff_rest(m, c)
        fixed = {at[nm] + k for nm, r in rest.items() for k in range(6) if r[k]}
        free = [i for i in range(n) if i not in fixed]
        pos = {g: k for k, g in enumerate(free)}
        N = len(free)
        A = np.zeros((N, N))
        Kf = {}
        for (i, j), v in K.items():
            if i in pos and j in pos and v:
                A[pos[i], pos[j]] = float(v)
                Kf.setdefault(pos[i], {})[pos[j]] = v
        bf = [f[i] for i in free]
        if N:
            dg = A.diagonal()
            sing = np.any(dg <= 0)
            if not sing:
                s = 1 / np.sqrt(dg)
                ev = np.linalg.eigvalsh(A * s[:, None] * s[None, :])
                if ev[0] < 1e-11:
                    sing = True
                elif self.loose and 1e-8 < ev[0] < 1e-5:
                    return dict(kind="opaque", q=4, U=[], DL=[])        # stable, values not compared
                elif ev[0] < 1e-6:
                    raise Reject("ill conditioned")
            if sing:
                z = nullvec(Kf, N)
                return self.pack("mech", names, at, n, free, z, parts, {})
            x = np.linalg.solve(A, np.array([float(v) for v in bf]))
            sol = rationalize(x, Kf, bf)
            if sol is None:
                sol = gauss(Kf, bf, N)
        else:
            sol = []
        return self.pack("sol", names, at, n, free, sol, parts, {nm: self.case_nodal4(m, m["cases"][c], nm) for nm in names})

    def pack(self, kind, names, at, n, free, x, parts, loads):
        full = [Fr(0)] * n
        for i, v in zip(free, x):
            full[i] = Fr(v)
        q = 4 if kind == "sol" else 1
        opaque = dict(kind="opaque", q=4, U=[], DL=[])
        for v in full:
            q = lcm(q, v.denominator)
            if q > 10 ** 6:
                if self.loose and kind == "sol":
                    return opaque
                raise Reject("denominator")
        dls = []
        for b, Kb, rows, relpos, f4 in parts:
            dl = [sum((v * full[g] for g, v in r.items()), Fr(0)) for r in rows]
            for v in dl:
                q = lcm(q, v.denominator)
            if q > 10 ** 6:
                raise Reject("denominator")
            dls.append((b["n"], dl))
        U = [[nm, [int(full[at[nm] + k] * q) for k in range(6)]] for nm in names]
        DL = [[nm, [int(v * q) for v in dl]] for nm, dl in dls]
        if self.loose and kind == "sol":
            return opaque
        w = dict(kind=kind, q=q, U=U, DL=DL)
        if kind == "mech" and all(all(v == 0 for v in u[1]) for u in U):
            raise Reject("internal mechanism")
        self.bounds(w, parts, loads)
        return w

    def bounds(self, w, parts, loads):
        """Everything TLC will compute fits in 32 bits and divides exactly."""
        U = {k: v for k, v in w["U"]}
        DL = {k: v for k, v in w["DL"]}
        tot = {}
        w["_el"] = {}
        for b, Kb, rows, relpos, f4 in parts:
            t = axes(b["la"], b["lb"], b["rot"])
            l = beam_len(b["la"], b["lb"])
            to_local(t, U[b["s"]] + U[b["e"]])
            for x in DL[b["n"]]:
                ck(t[0] * x)
            kd = ktimes(b["p"], l, DL[b["n"]])
            if w["kind"] == "sol":
                e = [ck(x - ck((w["q"] // 4) * y)) for x, y in zip(kd, f4)]
                w["_el"][b["n"]] = e
                g = to_global(t, e)
                k = RD // t[0]
                for nm, v in ((b["s"], g[:6]), (b["e"], g[6:])):
                    o = tot.setdefault(nm, [0] * 6)
                    for j in range(6):
                        o[j] = ck(o[j] + ck(k * v[j]))
        for nm, fn in loads.items():
            o = tot.get(nm, [0] * 6)
            for j in range(6):
                ck(o[j] - mul(RD, w["q"] // 4, fn[j]))
        w["_tot"] = tot
        # magnitudes that rounding errors of the readings go with
        mu, mf = 1.0, 1.0
        for v in list(U.values()) + list(DL.values()):
            mu = max(mu, float(max(abs(x) for x in v)))
        for b, Kb, rows, relpos, f4 in parts:
            d = [abs(float(x)) for x in DL[b["n"]]]
            for i in range(12):
                mf = max(mf, sum(abs(float(Kb0)) * x for Kb0, x in zip(kmat(b["p"], beam_len(b["la"], b["lb"]))[i], d)) + abs(w["q"] / 4 * f4[i]))
        w["_mag"] = dict(u=mu, f=mf)

    # dynamics --------------------------------------------------------
    @staticmethod
    def half10(b):
        return 0 if b["p"]["rho"] == 0 else mul(b["p"]["rho"], b["p"]["A"], sq(sum(x * x for x in vec(b["la"], b["lb"]))))

    @classmethod
    def mass10(cls, m):
        out = {n["n"]: [ck(10 * x) for x in n["mass"]] for n in m["nodes"]}
        for b in m["beams"]:
            h = cls.half10(b)
            for n in (b["s"], b["e"]):
                for k in range(3):
                    out[n][k] = ck(out[n][k] + h)
        return out

    def stiffness(self, m, c):
        """exact stiffness over node components and released ends: names, at, n, parts, K, free components, free node components"""
        names, at, nd, n, parts = self.system(m, c)
        K = [dict() for _ in range(n)]
        for b, Kb, rows, relpos, f4 in parts:
            for i in range(12):
                for j in range(12):
                    if Kb[i][j]:
                        for gi, vi in rows[i].items():
                            for gj, vj in rows[j].items():
                                K[gi][gj] = K[gi].get(gj, 0) + vi * Kb[i][j] * vj
        rest = self.eff_rest(m, c)
        fixed = {at[nm] + k for nm, r in rest.items() for k in range(6) if r[k]}
        free = [i for i in range(n) if i not in fixed]
        return names, at, n, nd, parts, K, free

    def condensed(self, m, c, heavy):
        """stiffness of the components in heavy when the other free ones follow; and how they follow"""
        names, at, n, nd, parts, K, free = self.stiffness(m, c)
        light = [i for i in free if i not in heavy]
        hs = [i for i in free if i in heavy]
        # eliminate the light ones
        A = {i: {j: v for j, v in K[i].items() if j in set(free) and v} for i in free}
        order = []
        left = list(light)
        while left:
            i = next((x for x in left if A[x].get(x)), None)
            if i is None:
                raise Reject("mechanism")
            left.remove(i)
            row = A.pop(i)
            piv = row.pop(i)
            if piv < 0:
                raise Reject("mechanism")
            order.append((i, {j: -v / piv for j, v in row.items()}))
            for j, v in row.items():
                f = v / piv
                Aj = A[j]
                Aj.pop(i, None)
                for k, u in row.items():
                    x = Aj.get(k, 0) - f * u
                    if x:
                        Aj[k] = x
                    else:
                        Aj.pop(k, None)
        return names, at, n, nd, parts, hs, A, order, free

    @staticmethod
    def blocks(hs, A):
        todo, out = set(hs), []
        while todo:
            st = [min(todo)]
            todo.discard(st[0])
            blk = []
            while st:
                i = st.pop()
                blk.append(i)
                for j in A[i]:
                    if j in todo:
                        todo.discard(j)
                        st.append(j)
            out.append(sorted(blk))
        return out

    def modes_witness(self, c, num):
        """proposal for the modes of c on the assembled snapshot"""
        none = dict(kind="none", q=4, U=[], DL=[], ms=[])
        if not self.solvable(c):
            return none
        m = self.asb
        M10 = self.mass10(m)
        nn = [x["n"] for x in m["nodes"]]
        mass = {6 * k + j: M10[n][j] for k, n in enumerate(nn) for j in range(6) if M10[n][j]}
        names, at, n, nd, parts, hs, A, order, free = self.condensed(m, c, mass)
        nfree = sum(1 for i in free if i < nd)
        if not hs or any(i < nd and i % 6 < 3 and i not in mass for i in free):
            raise Reject("no mass")
        ms = []
        for blk in self.blocks(hs, A):
            for lam, z in block_modes([[A[i].get(j, Fr(0)) for j in blk] for i in blk], [Fr(mass[i], 10) for i in blk]):
                x = [Fr(0)] * n
                for i, v in zip(blk, z):
                    x[i] = v
                for i, row in reversed(order):
                    x[i] = sum((v * x[j] for j, v in row.items()), Fr(0))
                ms.append((lam, x))
        ms.sort(key=lambda t: t[0])
        k = min(num, nfree)
        if k > len(ms) or k < 1:
            raise Reject("modes without mass")
        for a, b in zip(ms, ms[1:]):
            if a[0] != b[0] and b[0] < a[0] * Fr(103, 100):
                raise Reject("close")
        if float(ms[-1][0]) > 1e7 * float(ms[0][0]):
            raise Reject("spread")
        out, G = [], []
        for lam, x in ms:
            q = 1
            dls = []
            for b, Kb, rows, relpos, f4 in parts:
                dl = [sum((v * x[g] for g, v in r.items()), Fr(0)) for r in rows]
                dls.append((b["n"], dl))
            allv = x[:nd] + [v for _, d in dls for v in d]
            for v in allv:
                q = lcm(q, v.denominator)
                if q > 10 ** 6:
                    raise Reject("denominator")
            g = 0
            for v in allv:
                g = gcd(g, int(v * q))
            U = {nm: [int(x[at[nm] + j] * q) // g for j in range(6)] for nm in names}
            DL = {b: [int(v * q) // g for v in d] for b, d in dls}
            self.check_restoring(m, U, DL, [(lam.denominator, 10)])
            gg = 0
            for nm in names:
                for j in range(6):
                    ck(RD * mul(lam.numerator, M10[nm][j], U[nm][j]))
                    gg = ck(gg + mul(M10[nm][j], U[nm][j], U[nm][j]))
            out.append(dict(ln=lam.numerator, ld=lam.denominator, U=[[a, b] for a, b in U.items()], DL=[[a, b] for a, b in DL.items()]))
            G.append(gg)
        for i in range(len(out)):
            for j in range(i):
                u, v = dict(map(tuple, out[i]["U"])), dict(map(tuple, out[j]["U"]))
                t = 0
                for nm in names:
                    for q in range(6):
                        t += abs(ck(M10[nm][q] * u[nm][q] * v[nm][q]))
                ck(t)
        return dict(kind="modes", q=4, U=[], DL=[], ms=out, _k=k, _G=G)

    # time histories
    @staticmethod
    def curve_at(e, t):
        cv = e.get("cv", [1, 1])
        return cv[t] if t < len(cv) else 0

    def load_at(self, m, c, t):
        """exact loads at a step: {(node, component): Fraction}, and what the specification adds up within range"""
        out = {(n["n"], k): Fr(0) for n in m["nodes"] for k in range(6)}
        raw = {n["n"]: [0] * 6 for n in m["nodes"]}
        pl = m["cases"][c]["plist"]
        for n in m["nodes"]:
            for e in pl:
                f = m["pats"][e["id"]]["nl"].get(n["n"], Z6)
                for k in range(6):
                    raw[n["n"]][k] = ck(raw[n["n"]][k] + mul(RD, e["f"], self.curve_at(e, t), f[k]))
        for b in m["beams"]:
            l = beam_len(b["la"], b["lb"])
            v = Z12
            for e in pl:
                p = m["pats"][e["id"]]
                if b["n"] in p["bd"] or b["n"] in p["bc"]:
                    v = [ck(x + mul(e["f"], self.curve_at(e, t), y)) for x, y in zip(v, self.pat_fef(p, b["n"], l))]
            if any(v):
                T = axes(b["la"], b["lb"], b["rot"])
                g = to_global(T, v)
                for nm, w in ((b["s"], g[:6]), (b["e"], g[6:])):
                    for k in range(6):
                        raw[nm][k] = ck(raw[nm][k] + ck(RD // T[0] * w[k]))
        for (n, k) in out:
            out[n, k] = Fr(raw[n][k], 4 * RD)
        return out

    def dynamics(self, m, c):
        """free components and the matrices of the central difference equation: M, K (Fractions)"""
        names, at, n, nd, parts, K, free = self.stiffness(m, c)
        if n != nd:
            raise Reject("releases")
        M10 = self.mass10(m)
        comp = [(nm, k) for nm in names for k in range(6)]
        mass = [Fr(M10[nm][k], 10) for nm, k in comp]
        if any(mass[i] <= 0 for i in free):
            raise Reject("no mass")
        return names, comp, parts, K, free, mass

    def history_witness(self, c):
        none = dict(kind="none", q=4, U=[], DL=[], h=[])
        if not self.solvable(c):
            return none
        m = self.asb
        names, comp, parts, K, free, mass = self.dynamics(m, c)
        I = m["cases"][c]["int"]
        e, al, be = I["e"], I["al"], I["be"]
        pl = m["cases"][c]["plist"]
        n = min(len(x.get("cv", [1, 1])) for x in pl)
        A = [[(be * K[i].get(j, 0) + ((al + be) * mass[i] if i == j else 0)) for j in free] for i in free]
        H = [{i: Fr(0) for i in free}]
        prev = {i: Fr(0) for i in free}
        loads = [self.load_at(m, c, t) for t in range(n)]
        for t in range(n):
            u = H[-1]
            b = []
            for i in free:
                ku = sum((v * u[j] for j, v in K[i].items() if j in u), Fr(0))
                kp = sum((v * prev[j] for j, v in K[i].items() if j in prev), Fr(0))
                b.append(e * loads[t][comp[i]] - e * ku + al * mass[i] * (2 * u[i] - prev[i]) + be * (mass[i] * prev[i] + kp))
            x = solve_sym(A, b)
            prev = u
            H.append(dict(zip(free, x)))
        if any(v.denominator != 1 for h in H for v in h.values()):
            raise Reject("fractions")
        # rounding must not spoil the comparison
        Af = np.array([[float(v) for v in r] for r in A])
        Kf = np.array([[float(K[i].get(j, 0)) for j in free] for i in free])
        mf = np.array([float(mass[i]) for i in free])
        B = np.linalg.inv(Af)
        g = np.zeros((len(free), len(free)))
        gp = g
        one = np.eye(len(free))
        E = np.block([[B @ (2 * al * np.diag(mf) - e * Kf), B @ (be * Kf + np.diag((be - al) * mf))], [one, np.zeros_like(one)]])
        amp = max(np.linalg.norm(np.linalg.matrix_power(E, k), 2) for k in range(1, n + 1))
        big = max([1.0] + [abs(float(v)) for h in H for v in h.values()])
        terms = np.abs(B) @ (e * np.abs(Kf) @ np.ones(len(free)) + be * np.abs(Kf) @ np.ones(len(free)) + (3 * al + be) * mf) * big \
            + np.abs(B) @ np.array([max(abs(float(e * L[comp[i]])) for L in loads) for i in free])
        noise = 4e-16 * float(np.max(terms)) * max(1.0, amp) * n
        if noise > 1e-7 or np.linalg.cond(Af) > 1e8:
            raise Reject("unstable")
        out = []
        Q = []
        for h in H:
            U = {nm: [0] * 6 for nm in names}
            for i, v in h.items():
                U[comp[i][0]][comp[i][1]] = ck(int(v))
            DL = {}
            for b in m["beams"]:
                T = axes(b["la"], b["lb"], b["rot"])
                DL[b["n"]] = [div(x, T[0]) for x in to_local(T, U[b["s"]] + U[b["e"]])]
            Q.append(self.check_restoring(m, U, DL))
            out.append(dict(U=[[a, b] for a, b in U.items()], DL=[[a, b] for a, b in DL.items()]))
        M10 = self.mass10(m)
        U = [dict(map(tuple, h["U"])) for h in out]
        Zn = {nm: [0] * 6 for nm in names}
        for t in range(n):
            for i in free:
                nm, k = comp[i]
                u1, u0, u_ = U[t + 1][nm][k], U[t][nm][k], (U[t - 1][nm][k] if t else 0)
                q1, q0, q_ = Q[t + 1][nm][k], Q[t][nm][k], (Q[t - 1][nm][k] if t else 0)
                g = gcd(10, M10[nm][k])
                mm, z = M10[nm][k] // g, 10 // g
                acc = ck(mul(RD, mm) * ck(mul(al, abs(u1) + 2 * abs(u0) + abs(u_)) + mul(be, abs(u1) + abs(u_))))
                fr = mul(z, ck(mul(be, abs(q1) + abs(q_)) + mul(e, abs(q0))))
                mul(4, ck(acc + fr))
                mul(z, e, abs(int(loads[t][nm, k] * 4 * RD)))
        return dict(kind="hist", q=4, U=[], DL=[], h=out)

    def check_restoring(self, m, U, DL, factors=()):
        """forces of a deformation at the nodes (times 25), within range also when multiplied"""
        tot = {n["n"]: [0] * 6 for n in m["nodes"]}
        for b in m["beams"]:
            t = axes(b["la"], b["lb"], b["rot"])
            l = beam_len(b["la"], b["lb"])
            to_local(t, U[b["s"]] + U[b["e"]])
            for x in DL[b["n"]]:
                ck(t[0] * x)
            g = to_global(t, ktimes(b["p"], l, DL[b["n"]]))
            for nm, v in ((b["s"], g[:6]), (b["e"], g[6:])):
                for j in range(6):
                    tot[nm][j] = ck(tot[nm][j] + ck(RD // t[0] * v[j]))
        for fs in factors:
            for v in tot.values():
                for x in v:
                    mul(x, *fs)
        return tot

    def check_deform(self, w, b, l, xn, xd):
        return deform_s(dict((k, v) for k, v in w["DL"])[b], l, xn, xd)


def solve_sym(A, b):
    """exact solution; diagonal systems directly"""
    n = len(A)
    if all(not A[i][j] for i in range(n) for j in range(n) if i != j):
        return [Fr(b[i]) / A[i][i] for i in range(n)]
    M = [list(map(Fr, A[i])) + [Fr(b[i])] for i in range(n)]
    for i in range(n):
        for k in range(i + 1, n):
            if M[k][i]:
                f = M[k][i] / M[i][i]
                M[k] = [x - f * y if y else x for x, y in zip(M[k], M[i])]
    x = [Fr(0)] * n
    for i in reversed(range(n)):
        x[i] = (M[i][n] - sum(M[i][j] * x[j] for j in range(i + 1, n))) / M[i][i]
    return x


def rsqrt(x):
    """rational square root or None"""
    if x < 0:
        return None
    a, b = isqrt(x.numerator), isqrt(x.denominator)
    return Fr(a, b) if a * a == x.numerator and b * b == x.denominator else None


def block_modes(K, M):
    """eigenpairs of a small block, all rational, orthogonal; or Reject"""
    n = len(K)
    if n == 1:
        ls = [K[0][0] / M[0]]
    elif n == 2:
        tr = K[0][0] / M[0] + K[1][1] / M[1]
        dt = (K[0][0] * K[1][1] - K[0][1] ** 2) / (M[0] * M[1])
        r = rsqrt(tr * tr - 4 * dt)
        if r is None:
            raise Reject("irrational")
        ls = [(tr - r) / 2, (tr + r) / 2]
    else:
        if n > 6:
            raise Reject("large block")
        s = np.sqrt(np.array([float(x) for x in M]))
        ev = np.linalg.eigvalsh(np.array([[float(v) for v in r] for r in K]) / s[:, None] / s[None, :])
        ls = [Fr(float(x)).limit_denominator(20000) for x in ev]
    if any(x <= 0 for x in ls):
        raise Reject("mechanism")
    out = []
    for lam in sorted(set(ls)):
        vs = []
        for z in nullspace([[K[i][j] - (lam * M[i] if i == j else 0) for j in range(n)] for i in range(n)]):
            for _, y in vs:
                a = sum(M[i] * z[i] * y[i] for i in range(n)) / sum(M[i] * y[i] * y[i] for i in range(n))
                z = [z[i] - a * y[i] for i in range(n)]
            vs.append((lam, z))
        if len(vs) != ls.count(lam):
            raise Reject("irrational")
        out += vs
    return out


def nullspace(A):
    n = len(A)
    M = [list(r) for r in A]
    piv, r = [], 0
    for c in range(n):
        p = next((k for k in range(r, n) if M[k][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = 1 / M[r][c]
        M[r] = [v * iv for v in M[r]]
        for k in range(n):
            if k != r and M[k][c]:
                f = M[k][c]
                M[k] = [u - f * v for u, v in zip(M[k], M[r])]
        piv.append(c)
        r += 1
    out = []
    for fc in range(n):
        if fc not in piv:
            z = [Fr(0)] * n
            z[fc] = Fr(1)
            for k, c in enumerate(piv):
                z[c] = -M[k][fc]
            out.append(z)
    return out


def rationalize(x, Kf, b):
    for lim in (60, 1000, 20000):
        fr = [Fr(float(v)).limit_denominator(lim) for v in x]
        q = 1
        for v in fr:
            q = lcm(q, v.denominator)
        if q > 10 ** 6:
            continue
        ok = True
        for i in range(len(b)):
            if sum((v * fr[j] for j, v in Kf.get(i, {}).items()), Fr(0)) != b[i]:
                ok = False
                break
        if ok:
            return fr
    return None


def gauss(Kf, b, N):
    if N > 26:
        raise Reject("too large for exact elimination")
    M = [[Kf.get(i, {}).get(j, Fr(0)) for j in range(N)] + [b[i]] for i in range(N)]
    for i in range(N):
        p = next((r for r in range(i, N) if M[r][i]), None)
        if p is None:
            raise Reject("singular")
        M[i], M[p] = M[p], M[i]
        iv = 1 / M[i][i]
        M[i] = [v * iv for v in M[i]]
        for r in range(N):
            if r != i and M[r][i]:
                k = M[r][i]
                M[r] = [u - k * v for u, v in zip(M[r], M[i])]
    return [r[N] for r in M]


def nullvec(Kf, N):
    if N > 40:
        raise Reject("too large for exact elimination")
    M = [[Kf.get(i, {}).get(j, Fr(0)) for j in range(N)] for i in range(N)]
    piv = []
    r = 0
    for c in range(N):
        p = next((k for k in range(r, N) if M[k][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = 1 / M[r][c]
        M[r] = [v * iv for v in M[r]]
        for k in range(N):
            if k != r and M[k][c]:
                f = M[k][c]
                M[k] = [u - f * v for u, v in zip(M[k], M[r])]
        piv.append(c)
        r += 1
    freec = [c for c in range(N) if c not in piv]
    if not freec:
        raise Reject("not singular exactly")
    for fc in freec:
        z = [Fr(0)] * N
        z[fc] = Fr(1)
        for k, c in enumerate(piv):
            z[c] = -M[k][fc]
        return z
