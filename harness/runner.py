"""Executes plans (sequences of abstract calls) on the real code and records
traces for the specification.  Abstract quantities are integers; the runner
turns them into real ones (units of length, force and load are chosen per
trace, names are arbitrary) and turns readings back into integers."""
import faulthandler
import inspect
import math
import zlib
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

import hsenv
import numpy as np

warnings.simplefilter("ignore")
SENT = 2 ** 30 - 1
TOL = 1e-6

# ---- containment: destructive calls stay inside the scratch directory -------
_ROOTS = []


def allow_root(path):
    _ROOTS.append(os.path.realpath(path))


def _inside(p):
    try:
        rp = os.path.realpath(os.fspath(p))
    except Exception:
        return False
    rp = rp.decode() if isinstance(rp, bytes) else rp
    return any(rp == r or rp.startswith(r + os.sep) for r in _ROOTS)


BLOCKED = []


def install_guard():
    if getattr(os, "_hs_guard", False):
        return
    os._hs_guard = True

    def wrap(mod, name, nargs=1):
        orig = getattr(mod, name)

        def f(*a, **k):
            if k.get("dir_fd") is None and k.get("src_dir_fd") is None:
                for p in a[:nargs]:
                    if not isinstance(p, int) and not _inside(p):
                        BLOCKED.append((name, str(p)))
                        raise PermissionError("outside the scratch directory: %s" % (p,))
            return orig(*a, **k)
        setattr(mod, name, f)
    wrap(shutil, "rmtree")
    for n in ("remove", "unlink", "rmdir", "removedirs", "truncate"):
        wrap(os, n)
    for n in ("rename", "replace", "renames"):
        wrap(os, n, 2)


# ---- integers from readings --------------------------------------------------
NOISE = [1.0]       # size of the numbers the reading was computed from


def ints(vals, strict=True):
    """Round a vector of readings to integers; far from an integer -> sentinel."""
    out = []
    fl = []
    for v in vals:
        try:
            x = float(v)
        except Exception:
            x = float("nan")
        fl.append(x)
    fin = [abs(x) for x in fl if math.isfinite(x)]
    tol = min(0.05, max(TOL * max([1.0] + fin), 1e-10 * NOISE[0]))
    for x in fl:
        if not math.isfinite(x) or abs(x) >= SENT:
            out.append(SENT)
            continue
        r = int(round(x))
        out.append(r if abs(x - r) <= tol or max(fin) > 50000 else SENT)
    return out


def vec_of(x, n):
    """A flat list of n numbers, or None when the shape is not what was promised."""
    try:
        a = np.asarray(x, dtype=float).reshape(-1)
    except Exception:
        return None
    return list(a) if a.size == n else None


UR, FM = ("u1", "u2", "u3", "r1", "r2", "r3"), ("f1", "f2", "f3", "m1", "m2", "m3")
UR12 = tuple(x + e for e in "ij" for x in UR)
QT = ("pi", "pj", "qi2", "qj2", "qi3", "qj3", "ti", "tj")
CONC = ("F1", "F2", "F3", "M1", "M2", "M3", "r")
SIMPLE = ("E", "mu", "A", "I2", "I3", "J", "rho")
GENERAL = ("A", "As2", "As3", "I22", "I33", "J", "W22", "W33")
HB = ("h", "b", "tw", "tf")


def kw(f, op, a, head, names, vals, defaults={}, **more):
    """The same call by position, by keyword, or leaving out what has its default value (defaults: None when nothing has one)."""
    vals, names = list(vals), names[:len(vals)]
    way = zlib.crc32(repr((op, sorted(a.items(), key=str))).encode()) % 4
    try:
        if len(vals) != len(names) or way >= 2 and not set(names) <= set(inspect.signature(f).parameters):
            way = 0
    except (TypeError, ValueError):
        way = 0
    left = [defaults is None or not (v == defaults.get(x, 0)) for x, v in zip(names, vals)]
    if way == 1:            # by position, the tail left out
        while vals and not left[len(vals) - 1]:
            vals.pop()
    if way <= 1:
        return f(*head, *vals, **more)
    named = [(x, v) for x, v, keep in zip(names, vals, left) if keep or way == 2]
    return f(*head, **dict(reversed(named)), **more)


class Scale:
    """Units of a trace."""

    def __init__(self, length=1.0, force=1.0, load=1.0, mass=1.0, rho=1.0, theta=0.0, offset=0.0, kappa=1.0):
        self.L, self.P, self.s, self.M, self.rho, self.theta = length, force, load, mass, rho, theta
        self.off = offset                   # of all coordinates
        self.kap, self.ps = kappa, load / kappa       # of the factors patterns enter cases with; patterns are as much smaller
        c, s = math.cos(theta), math.sin(theta)
        self.c, self.sn = c, s

    def pt(self, x, y, z):
        k = self.L / 5.0
        o = self.off
        if self.theta == 0.0:
            return o + k * x, o + k * y, o + k * z
        return o + k * (self.c * x - self.sn * y), o + k * (self.sn * x + self.c * y), o + k * z

    def unpt(self, p):
        k = 5.0 / self.L
        x, y, z = [(float(v) - self.off) * k for v in p]
        return self.c * x + self.sn * y, -self.sn * x + self.c * y, z

    def turn(self, v):
        if self.theta == 0.0:
            return list(v)
        o = []
        for j in range(0, len(v), 3):
            o += [self.c * v[j] - self.sn * v[j + 1], self.sn * v[j] + self.c * v[j + 1], v[j + 2]]
        return o

    def unturn(self, v):
        if self.theta == 0.0:
            return list(v)
        o = []
        for j in range(0, len(v), 3):
            o += [self.c * v[j] + self.sn * v[j + 1], -self.sn * v[j] + self.c * v[j + 1], v[j + 2]]
        return o

    def force6(self, f):
        k, m = self.ps * self.P, self.ps * self.P * self.L
        return [k * f[0], k * f[1], k * f[2], m * f[3], m * f[4], m * f[5]]

    def unforce(self, v, sc=1.0):
        k, m = sc / (self.s * self.P), sc / (self.s * self.P * self.L)
        return [float(x) * (k if j % 6 < 3 else m) for j, x in enumerate(v)]

    def disp6(self, f):
        return [self.ps * self.L * f[0], self.ps * self.L * f[1], self.ps * self.L * f[2]] + [self.ps * x for x in f[3:]]

    def undisp(self, v, sc=1.0):
        k, m = sc / (self.s * self.L), sc / self.s
        return [float(x) * (k if j % 6 < 3 else m) for j, x in enumerate(v)]

    def dist8(self, q):
        k, t = self.ps * self.P / self.L, self.ps * self.P
        return [k * x for x in q[:6]] + [t * x for x in q[6:]]

    def integration(self, a):
        """step size and damping ratio (the latter in units of force 2 pi^2 M L)"""
        dt = math.sqrt(a["e"] / a["al"] * self.M * self.L / self.P)
        return dt, 1.5 * math.sqrt(2.0) * a["be"] / math.sqrt(a["e"] * a["al"])

    def E(self, e):
        return e * self.P / self.L ** 2

    def unK(self, K):
        """12x12 stiffness back to abstract units."""
        out = []
        for i in range(12):
            for j in range(12):
                p = (i % 6 >= 3) + (j % 6 >= 3)
                out.append(K[i][j] / (self.P / self.L * self.L ** p))
        return out


def kind_of(n):
    """what an abstract name names: later nodes and beams are called x and y"""
    return dict(x="n", y="b").get(n[:1], n[:1])


class Names:
    """Real names.  Things of different kinds may share one."""

    def __init__(self, table=None):
        self.t = table or {}
        self.real = set(self.t.values())
        self.back = {(kind_of(k), v): k for k, v in self.t.items()}

    def __call__(self, n):
        # a name the plan never gave anything is nobody's: not the real name of something else either
        return self.t.get(n, n + " unnamed" if n in self.real else n)

    def un(self, x, kind="n"):
        if not isinstance(x, str):
            return "?"
        if x == self.t.get("zz") and (kind, x) not in self.back:
            return "zz"
        return self.back.get((kind, x), x if x not in self.real and x not in self.t else "?")


class Missing(Exception):
    pass


def guarded(f):
    """value, or raises Missing when the call answers None / False"""
    r = f()
    if r is None or r is False:
        raise Missing()
    return r


class Backend:
    def __init__(self, root, scale, names):
        self.root = root
        self.dir = os.path.join(root, "w")
        self.sc = scale
        self.nm = names
        self.excs = []

    # --- shared translation of arguments ---
    def pts(self, a):
        return self.sc.pt(a["x"], a["y"], a["z"])

    def mass6(self, m):
        i = self.sc.M * self.sc.L ** 2
        return [self.sc.M * x for x in m[:3]] + [i * x for x in m[3:]]

    def mat(self, a):
        return a["rho"] * self.sc.rho, self.sc.E(a["E"]), a["mn"] / a["md"]

    def sec(self, a):
        L = self.sc.L
        return a["A"] * L ** 2, a["I2"] * L ** 4, a["I3"] * L ** 4, a["J"] * L ** 4

    # --- reading helpers ---
    def loc(self, p):
        v = vec_of(p, 3)
        return [SENT] * 3 if v is None else ints(self.sc.unpt(v))

    def rest(self, d):
        out = []
        for n, r in d.items():
            out.append(dict(n=self.nm.un(n), r=[bool(x) for x in list(r)]))
        return out

    def loads(self, d, un, sc=1.0):
        out = []
        for n, f in d.items():
            v = vec_of(f, 6)
            out.append(dict(n=self.nm.un(n), f=[SENT] * 6 if v is None else ints(un(v, sc))))
        return out

    def num(self, x, n, f):
        v = vec_of(x, n)
        if v is None:
            return [SENT] * n
        return ints(f(v))

    # --- events ---
    def do(self, op, a):
        if op == "nop":
            return dict(ok=True, v=-2, exc=False)
        try:
            ok, v = self.call(op, a)
            return dict(ok=bool(ok), v=int(v), exc=False)
        except Missing:
            return dict(ok=False, v=-2, exc=False)
        except Exception as e:
            self.excs.append("%s: %r" % (op, e))
            return dict(ok=False, v=-2, exc=self.raising_is_wrong)

    def observe(self, o):
        k = o["k"]
        r = dict(o, raised=False)
        NOISE[0] = r.pop("m", 1.0)
        if k in ("massm", "beamm", "nodem"):
            r["off"] = -1
        n = {"disp": 6, "react": 6, "endf": 12, "rel0": 12, "deform": 6, "nl1": 6, "loc1": 3}.get(k)
        try:
            x = getattr(self, "ob_" + k)(r)
            r["ok"] = True
            r["v"] = x
        except Missing:
            r["ok"] = False
            r["v"] = self.blank(k, n)
        except Exception as e:
            self.excs.append("%s: %r" % (k, e))
            # the interface never raises; a direct read that raises reads nothing
            r["ok"] = False
            r["v"] = self.blank(k, n)
            r["raised"] = self.raising_is_wrong
        finally:
            NOISE[0] = 1.0
        return r

    @staticmethod
    def blank(k, n):
        if k in ("same", "gone"):
            return False
        if n:
            return [SENT] * n
        if k in ("nl", "nd", "crest", "grest", "cased", "casend", "beamfd", "thdict", "nodes", "locs", "beams", "conn", "shells", "sconn", "asmf"):
            return [] if k in ("nl", "crest", "grest", "nd") else [dict(n="?raised")]
        if k == "conn1":
            return ["?", "?"]
        if k == "bloc1":
            return [[SENT] * 3] * 2
        if k == "sconn1":
            return ["?"]
        if k == "sloc1":
            return [[SENT] * 3]
        if k in ("casef", "thf"):
            return [SENT] * 6
        if k in ("beamf", "pbeamf", "thb"):
            return [SENT] * 12
        if k == "thhist":
            return [[SENT] * 6]
        if k == "steps":
            return [SENT, SENT]
        if k == "freq":
            return [[SENT]] * 3
        if k == "proj":
            return [[SENT]]
        if k == "tdisp":
            return [[SENT] * 6]
        if k == "tdeform":
            return [SENT] * 6
        if k == "tendf":
            return [SENT] * 12
        if k in ("beamk", "consm"):
            return [[SENT] * 12] * 12
        if k == "massm":
            return [[SENT] * 6]
        if k == "nodem":
            return [SENT] * 6
        if k == "beamm":
            return [SENT] * 12
        return []

    def close(self):
        pass


    # modes and time histories
    def ob_freq(self, o):
        """eigenvalues as the reported circular frequencies, frequencies and periods give them"""
        from hyperstatic.core.fe_post.structure import StructureResultResolver
        r = StructureResultResolver(self.dir, self.filename).resolve_modal_frequency(self.nm(o["c"]))
        k = self.sc.L * self.sc.M / self.sc.P
        w, f, T = (np.asarray(r[x], dtype=float).reshape(-1) for x in ("omega", "f", "T"))
        out = []
        for v in (w, 2 * np.pi * f, 2 * np.pi / T):
            if len(v) > len(o["R"]):
                out.append([SENT])
            else:
                out.append([SENT if not abs(x) < 1e9 else int(round(x)) for x in [float(k * y * y * ld * R) for y, ld, R in zip(v, o["ld"], o["R"])]])
        return out

    mode1 = staticmethod(lambda o: None)

    def ob_proj(self, o):
        """sum of (shape)(shape)^T over some modes"""
        from hyperstatic.core.fe_post.node import NodeResultResolver
        n = 6 * len(o["ns"])
        P = np.zeros((n, n))
        first = self.mode1(o)
        rs = NodeResultResolver(self.dir, self.filename)
        for x in range(o["x"], o["y"] + 1):
            v = []
            for nm in o["ns"]:
                u = vec_of(first[nm] if first is not None else rs.resolve_nodal_displacement(self.nm(nm), self.nm(o["c"]), x), 6)
                if u is None:
                    return [[SENT]]
                v += self.sc.unturn(u)
            P += np.outer(v, v)
        d = np.array([1.0 / self.sc.L if j % 6 < 3 else 1.0 for j in range(n)])
        P = P * np.outer(d, d) * self.sc.M * self.sc.L ** 2 * o["S"] / 10.0
        return [[SENT if not abs(t) < SENT else int(round(t)) for t in r] for r in P.tolist()]

    def ob_tdisp(self, o):
        from hyperstatic.core.fe_post.node import NodeResultResolver
        rs = NodeResultResolver(self.dir, self.filename)
        out = []
        while len(out) < 400:
            try:
                x = rs.resolve_nodal_displacement(self.nm(o["n"]), self.nm(o["c"]), len(out) + 1)
            except IndexError:
                break
            out.append(self.num(x, 6, lambda v: self.sc.undisp(self.sc.unturn(v))))
        return out

    def ob_tdeform(self, o):
        from hyperstatic.core.fe_post.beam import BeamResultResolver
        x = BeamResultResolver(self.dir, self.filename).resolve_beam_deformation(self.nm(o["b"]), o["xn"] / o["xd"], self.nm(o["c"]), o["step"])
        return self.num(x, 6, lambda v: undeform(self.sc, v, o["l"] * o["xd"] ** 3))

    def ob_tendf(self, o):
        from hyperstatic.core.fe_post.beam import BeamResultResolver
        x = BeamResultResolver(self.dir, self.filename).resolve_beam_end_force(self.nm(o["b"]), self.nm(o["c"]), o["step"])
        return self.num(x, 12, lambda v: self.sc.unforce(v))


class ApiBackend(Backend):
    raising_is_wrong = True

    def __init__(self, root, scale, names):
        super().__init__(root, scale, names)
        from hyperstatic.core import Api
        self.Api = Api
        self.api = Api(self.dir)

    def call(self, op, a):
        N, S, A = self.nm, self.sc, self.api
        b = lambda r: (r is not None and bool(r), -2)
        if op == "add_node":
            return b(A.add_node(N(a["n"]), *self.pts(a)))
        if op == "set_mass":
            return b(kw(A.set_nodal_mass, op, a, [N(a["n"])], UR, self.mass6(a["m"])))
        if op == "set_grest":
            return b(kw(A.set_nodal_restraint, op, a, [N(a["n"])], UR, a["r"]))
        if op == "add_mat":
            rho, E, mu = self.mat(a)
            return b(A.add_isotropic_material(N(a["n"]), rho, E, mu, 1.17e-5))
        if op == "add_sec":
            Ar, I2, I3, J = self.sec(a)
            return b(kw(A.add_beam_section_general, op, a, [N(a["n"]), N(a["mat"])], GENERAL, [Ar, Ar, Ar, I2, I3, J, I2, I3], None))
        if op == "add_rect":
            return b(kw(A.add_beam_section_rectangle, op, a, [N(a["n"]), N(a["mat"])], HB, [a["h"] * S.L, a["b"] * S.L], None))
        if op == "add_box":
            return b(kw(A.add_beam_section_box, op, a, [N(a["n"]), N(a["mat"])], HB, [a["h"] * S.L, a["b"] * S.L, a["tw"] * S.L, a["tf"] * S.L], None))
        if op == "add_isec":
            return b(kw(A.add_beam_section_I, op, a, [N(a["n"]), N(a["mat"])], HB, [a["h"] * S.L, a["b"] * S.L, a["tw"] * S.L, a["tf"] * S.L], None))
        if op == "add_ssec":
            return b(A.add_shell_section(N(a["n"]), N(a["mat"]), a["t"] * S.L, a["ty"]))
        if op == "add_beam":
            return b(A.add_beam(N(a["n"]), N(a["s"]), N(a["e"]), N(a["sec"])))
        if op == "add_sbeam":
            Ar, I2, I3, J = self.sec(a)
            return b(kw(A.add_simple_beam, op, a, [N(a["n"]), N(a["s"]), N(a["e"])], SIMPLE, [S.E(a["E"]), a["mn"] / a["md"], Ar, I2, I3, J, a["rho"] * S.rho], None))
        if op == "set_rel":
            return b(kw(A.set_beam_release, op, a, [N(a["n"])], UR12, a["r"]))
        if op == "add_shell":
            return b(A.add_shell(N(a["n"]), *[N(x) for x in a["ns"]], N(a["sec"])))
        if op == "add_pat":
            return b(A.add_loadpattern(N(a["p"])))
        if op == "set_nload":
            return b(kw(A.set_nodal_load, op, a, [N(a["p"]), N(a["n"])], FM, S.turn(S.force6(a["f"]))))
        if op == "set_bdist":
            return b(kw(A.set_beam_load_distributed, op, a, [N(a["p"]), N(a["n"])], QT, S.dist8(a["q"])))
        if op == "set_bconc":
            return b(kw(A.set_beam_load_concentrated, op, a, [N(a["p"]), N(a["n"])], CONC, [*S.force6(a["f"]), a["rn"] / a["rd"]], {"r": 0.5}))
        if op == "add_case":
            return b(A.add_static_case(N(a["c"])) if a["kind"] == "static" else A.add_modal_case(N(a["c"])))
        if op == "add_cp":
            return b(A.add_case_pattern(N(a["c"]), N(a["p"]), a["f"] / 4 * S.kap))
        if op == "set_crest":
            return b(kw(A.set_loadcase_nodal_restraint, op, a, [N(a["c"]), N(a["n"])], UR, a["r"]))
        if op == "assemble":
            return b(A.assemble())
        if op == "solve":
            return b(A.solve_static(N(a["c"])))
        if op == "solvem":
            return b(A.solve_modal(N(a["c"]), a["num"]))
        if op == "save":
            return b(A.save(N(a["f"])))
        if op == "load":
            r = self.Api.load(self.dir, N(a["f"]))
            if r is None:
                return False, -2
            self.api = r
            return True, -2
        if op == "clear":
            return b(A.clear_workspace())
        if op == "fresh":
            self.api = self.Api(self.dir)
            return True, -2
        raise ValueError(op)

    # readings: what the interface offers
    def ob_locs(self, o):
        return [dict(n=self.nm.un(n), loc=self.loc(self.api.get_node_location(n))) for n in guarded(self.api.get_node_names) or []] \
            if self.api.get_node_names() else []

    def ob_conn(self, o):
        out = []
        for n in self.api.get_beam_names() or []:
            c = guarded(lambda: self.api.get_beam_node_names(n))
            p = guarded(lambda: self.api.get_beam_location(n))
            out.append(dict(n=self.nm.un(n, "b"), s=self.nm.un(c[0]), e=self.nm.un(c[1]), la=self.loc(p[0]), lb=self.loc(p[1])))
        return out

    def ob_sconn(self, o):
        out = []
        for n in self.api.get_shell_names() or []:
            c = guarded(lambda: self.api.get_shell_node_names(n))
            p = guarded(lambda: self.api.get_shell_location(n))
            out.append(dict(n=self.nm.un(n, "h"), ns=[self.nm.un(x) for x in c], locs=[self.loc(x) for x in p]))
        return out

    def ob_loc1(self, o):
        return self.loc(guarded(lambda: self.api.get_node_location(self.nm(o["n"]))))

    def ob_conn1(self, o):
        return [self.nm.un(x) for x in guarded(lambda: self.api.get_beam_node_names(self.nm(o["n"])))]

    def ob_bloc1(self, o):
        return [self.loc(x) for x in guarded(lambda: self.api.get_beam_location(self.nm(o["n"])))]

    def ob_sconn1(self, o):
        return [self.nm.un(x) for x in guarded(lambda: self.api.get_shell_node_names(self.nm(o["n"])))]

    def ob_sloc1(self, o):
        return [self.loc(x) for x in guarded(lambda: self.api.get_shell_location(self.nm(o["n"])))]

    def ob_grest(self, o):
        d = self.api.get_node_restraints()
        if d is None:
            raise Missing()
        return self.rest(d)

    def ob_crest(self, o):
        d = self.api.get_node_restraints(self.nm(o["c"]))
        if d is None:
            raise Missing()
        return self.rest(d)

    def ob_nl(self, o):
        d = self.api.get_all_nodal_load(self.nm(o["p"]))
        if d is None:
            raise Missing()
        return self.loads(d, lambda v, s: self.sc.unforce(self.sc.unturn(v), s), self.sc.kap)

    def ob_nl1(self, o):
        r = self.api.get_nodal_load(self.nm(o["p"]), self.nm(o["n"]))
        if r is None:
            raise Missing()
        return self.num(r, 6, lambda v: self.sc.unforce(self.sc.unturn(v), self.sc.kap))

    # results
    def res(self, o, key, f):
        x = f()
        if x is None or x is False:
            raise Missing()
        return x

    def ob_disp(self, o):
        x = self.res(o, "disp", lambda: self.api.result_get_nodal_displacement(self.nm(o["n"]), self.nm(o["c"])))
        return self.num(x, 6, lambda v: self.sc.undisp(self.sc.unturn(v), o["q"]))

    def ob_react(self, o):
        x = self.res(o, "react", lambda: self.api.result_get_nodal_reaction(self.nm(o["n"]), self.nm(o["c"])))
        return self.num(x, 6, lambda v: self.sc.unforce(self.sc.unturn(v), 25.0 * o["q"]))

    def ob_endf(self, o):
        x = self.res(o, "endf", lambda: self.api.result_get_beam_end_force(self.nm(o["b"]), self.nm(o["c"])))
        return self.num(x, 12, lambda v: self.sc.unforce(v, o["q"]))

    ob_rel0 = ob_endf

    def ob_deform(self, o):
        x = self.res(o, "deform", lambda: self.api.result_get_beam_deformation(self.nm(o["b"]), o["xn"] / o["xd"], self.nm(o["c"])))
        k = o["q"] * o["l"] * o["xd"] ** 3
        return self.num(x, 6, lambda v: undeform(self.sc, v, k))

    filename = ".asb"

    def mode1(self, o):
        if not o.get("api"):
            return None
        return {n: guarded(lambda: self.api.result_get_nodal_displacement(self.nm(n), self.nm(o["c"]))) for n in o["ns"]}

    def ob_same(self, o):
        """repeat result queries in another order: bit-equal answers"""
        def q(c, kind, x):
            f = dict(disp=self.api.result_get_nodal_displacement, react=self.api.result_get_nodal_reaction,
                     endf=self.api.result_get_beam_end_force)[kind]
            r = f(self.nm(x), self.nm(c))
            return None if r is None else np.asarray(r, dtype=float).tobytes()
        qs = [(c, k, x) for c, k, x in o["qs"]]
        a = {tuple(t): q(*t) for t in qs}
        b = {tuple(t): q(*t) for t in reversed(qs)}
        return a == b

    def ob_gone(self, o):
        """work directory empty, everything beside it untouched"""
        side = os.path.join(self.root, "side")
        return os.path.isdir(self.dir) and os.listdir(self.dir) == [] and \
            all(open(os.path.join(side, f)).read() == f for f in ("a.sep", ".asb", "c.d.npy"))


def undeform(sc, v, k):
    """[x,w2,w3] lengths, twist and slopes rotations (slopes scaled once more by the length)"""
    t, r = k / (sc.s * sc.L), k / sc.s
    return [v[0] * t, v[1] * t, v[2] * t, v[3] * r, v[4] * r, v[5] * r]


def nodes_view(B, m):
    out = []
    for n in m.get_node_names():
        mm = vec_of(m.get_nodal_mass(n), 6)
        out.append(dict(n=B.nm.un(n), hid=int(m.get_node_hid(n)), loc=B.loc(m.get_node_location(n)),
                        mass=[SENT] * 6 if mm is None else ints([x / u for x, u in zip(mm, B.mass6([1] * 6))])))
    return out


def beams_view(B, m):
    out = []
    for n in m.get_beam_names():
        c = m.get_beam_connection(n)
        p = m.get_beam_location(n)
        out.append(dict(n=B.nm.un(n, "b"), hid=int(m.get_beam_hid(n)), s=B.nm.un(c[0]), e=B.nm.un(c[1]),
                        la=B.loc(p[0]), lb=B.loc(p[1]), len2=ints([(m.get_beam_length(n) * 5 / B.sc.L) ** 2])[0]))
    return out


def shells_view(B, m):
    out = []
    for n in m.get_shell_names():
        out.append(dict(n=B.nm.un(n, "h"), hid=int(m.get_shell_hid(n)), ns=[B.nm.un(x) for x in m.get_shell_connection(n)],
                        locs=[B.loc(x) for x in m.get_shell_location(n)]))
    return out


def beamk_view(B, m, o):
    K = m.get_beam_K(B.nm(o["b"]))
    K = np.asarray(K.todense() if hasattr(K, "todense") else K, dtype=float)
    if K.shape != (12, 12):
        return [[SENT] * 12] * 12
    v = ints(B.sc.unK(K.tolist()))
    M = [v[12 * r:12 * r + 12] for r in range(12)]
    return [[M[r][c] for r in range(12)] for c in range(12)]      # columns


class DirectBackend(Backend):
    """The classes behind the interface, used as the package's own tests use them."""
    raising_is_wrong = False
    filename = "t.asb"

    def __init__(self, root, scale, names):
        super().__init__(root, scale, names)
        from hyperstatic.core.fe_model.model import Model
        from hyperstatic.core.fe_model.assembly import Assembly
        from hyperstatic.core.fe_model.load.pattern import LoadPattern
        from hyperstatic.core.fe_model.load.loadcase import StaticCase, ModalCase, TimeHistoryCase
        from hyperstatic.core.fe_solver.static import StaticSolver
        from hyperstatic.core.fe_solver.dynamic import ModalSolver, TimeHistorySolver
        from hyperstatic.core.fe_post.node import NodeResultResolver
        from hyperstatic.core.fe_post.beam import BeamResultResolver
        self.K = dict(Model=Model, Assembly=Assembly, LoadPattern=LoadPattern, StaticCase=StaticCase, ModalCase=ModalCase, TimeHistoryCase=TimeHistoryCase,
                      StaticSolver=StaticSolver, ModalSolver=ModalSolver, TimeHistorySolver=TimeHistorySolver, Node=NodeResultResolver, Beam=BeamResultResolver)
        os.makedirs(self.dir, exist_ok=True)
        self.model = Model()
        self.pats = {}
        self.cases = {}
        self.asb = None
        self.static = None

    def call(self, op, a):
        N, S, M = self.nm, self.sc, self.model
        if op == "add_node":
            return True, M.add_node(N(a["n"]), *self.pts(a), check_dup=a["dup"])
        if op == "set_mass":
            kw(M.set_nodal_mass, op, a, [N(a["n"])], UR, self.mass6(a["m"]), None)
        elif op == "set_grest":
            return bool(kw(M.set_nodal_restraint, op, a, [N(a["n"])], UR, a["r"])), -2
        elif op == "add_mat":
            rho, E, mu = self.mat(a)
            M.add_isotropic_material(N(a["n"]), rho, E, mu, 1.17e-5)
        elif op == "add_sec":
            Ar, I2, I3, J = self.sec(a)
            kw(M.add_beam_section_general, op, a, [N(a["n"]), N(a["mat"])], GENERAL, [Ar, Ar, Ar, I2, I3, J, I2, I3], None)
        elif op == "add_rect":
            kw(M.add_beam_section_rectangle, op, a, [N(a["n"]), N(a["mat"])], HB, [a["h"] * S.L, a["b"] * S.L], None)
        elif op == "add_box":
            kw(M.add_beam_section_box, op, a, [N(a["n"]), N(a["mat"])], HB, [a["h"] * S.L, a["b"] * S.L, a["tw"] * S.L, a["tf"] * S.L], None)
        elif op == "add_isec":
            kw(M.add_beam_section_I, op, a, [N(a["n"]), N(a["mat"])], HB, [a["h"] * S.L, a["b"] * S.L, a["tw"] * S.L, a["tf"] * S.L], None)
        elif op == "add_ssec":
            M.add_shell_section(N(a["n"]), N(a["mat"]), a["t"] * S.L, a["ty"])
        elif op == "add_beam":
            return True, M.add_beam(N(a["n"]), N(a["s"]), N(a["e"]), N(a["sec"]), check_dup=a["dup"])
        elif op == "add_sbeam":
            Ar, I2, I3, J = self.sec(a)
            return True, kw(M.add_simple_beam, op, a, [N(a["n"]), N(a["s"]), N(a["e"])], SIMPLE,
                            [S.E(a["E"]), a["mn"] / a["md"], Ar, I2, I3, J, a["rho"] * S.rho], None, check_dup=a["dup"])
        elif op == "set_rel":
            kw(M.set_beam_releases, op, a, [N(a["n"])], UR12, a["r"])
        elif op == "set_rot":
            M.set_beam_rotation(N(a["n"]), math.atan2(a["rot"][1], a["rot"][0]))
        elif op == "add_shell":
            return True, M.add_shell(N(a["n"]), N(a["sec"]), *[N(x) for x in a["ns"]])
        elif op == "add_pat":
            self.pats[a["p"]] = self.K["LoadPattern"](N(a["p"]))
        elif op == "set_nload":
            kw(self.pats[a["p"]].set_nodal_load, op, a, [N(a["n"])], FM, S.turn(S.force6(a["f"])))
        elif op == "set_ndisp":
            kw(self.pats[a["p"]].set_nodal_disp, op, a, [N(a["n"])], UR, S.turn(S.disp6(a["f"])))
        elif op == "set_bdist":
            kw(self.pats[a["p"]].set_beam_load_dist, op, a, [N(a["n"])], QT, S.dist8(a["q"]))
        elif op == "set_bconc":
            kw(self.pats[a["p"]].set_beam_load_conc, op, a, [N(a["n"])], CONC, [*S.force6(a["f"]), a["rn"] / a["rd"]], {"r": 0.5})
        elif op == "add_case":
            self.cases[a["c"]] = self.K[dict(static="StaticCase", modal="ModalCase", th="TimeHistoryCase")[a["kind"]]](
                N(a["c"]), **(dict(n_modes=a["n"]) if "n" in a else {}))
        elif op == "add_cp":
            self.cases[a["c"]].add_pattern(self.pats[a["p"]], a["f"] / 4 * S.kap)
        elif op == "add_cpt":
            cv = np.array([[0.1 * j for j in range(len(a["cv"]))], [float(x) for x in a["cv"]]])
            self.cases[a["c"]].add_pattern(self.pats[a["p"]], a["f"] / 4 * S.kap, cv)
        elif op == "set_pf":
            self.cases[a["c"]].set_pattern_factor(N(a["p"]), a["f"] / 4 * S.kap)
        elif op == "set_crest":
            kw(self.cases[a["c"]].set_nodal_restraint, op, a, [N(a["n"])], UR, a["r"])
        elif op == "assemble":
            asb = self.K["Assembly"](M, list(self.cases.values()))
            asb.save(self.dir, "t.asb")
            self.asb = asb
            self.static = None
        elif op == "solvem":
            s = self.K["ModalSolver"](self.dir, "t.asb")
            return bool(s.solve(N(a["c"])) if a["own"] else s.solve_eigen(N(a["c"]), a["num"])), -2
        elif op == "use_int":
            self.cases[a["c"]].use_direct_time_integration(*S.integration(a))
        elif op == "solvet":
            self.K["TimeHistorySolver"](self.dir, "t.asb").solve(N(a["c"]))
        elif op == "solve":
            if self.static is None or not self.reuse:
                self.static = self.K["StaticSolver"](self.dir, "t.asb")
            return bool(self.static.solve_linear(N(a["c"]))), -2
        else:
            raise ValueError(op)
        return True, -2

    ob_nodes = lambda self, o: nodes_view(self, self.model)
    ob_beams = lambda self, o: beams_view(self, self.model)
    ob_shells = lambda self, o: shells_view(self, self.model)
    ob_beamk = lambda self, o: beamk_view(self, self.model, o)

    def ob_locs(self, o):
        return [dict(n=self.nm.un(n), loc=self.loc(self.model.get_node_location(n))) for n in self.model.get_node_names()]

    def ob_grest(self, o):
        return self.rest(self.model.get_nodal_restraint_dict())

    def ob_crest(self, o):
        return self.rest(self.cases[o["c"]].get_nodal_restraint_dict())

    def uf(self, v, s=1.0):
        return self.sc.unforce(self.sc.unturn(v), s)

    def ud(self, v, s=1.0):
        return self.sc.undisp(self.sc.unturn(v), s)

    def ob_nl(self, o):
        return self.loads(self.pats[o["p"]].get_nodal_f_dict(), self.uf, self.sc.kap)

    def ob_nl1(self, o):
        r = self.pats[o["p"]].get_nodal_f(self.nm(o["n"]))
        if r is None:
            raise Missing()
        return self.num(r, 6, lambda v: self.uf(v, self.sc.kap))

    def ob_nd(self, o):
        return self.loads(self.pats[o["p"]].get_nodal_d_dict(), self.ud, self.sc.kap)

    def ob_pbeamf(self, o):
        from exact import fs_scale
        k = float(fs_scale(o["l"], o["rd"])) * self.sc.kap
        return self.num(self.pats[o["p"]].get_beam_f(self.nm(o["b"]), o["l"] * self.sc.L), 12, lambda v: self.sc.unforce(v, k))

    def ob_casef(self, o):
        return self.num(self.cases[o["c"]].get_nodal_f(self.nm(o["n"])), 6, lambda v: self.uf(v, 4.0))

    def ob_cased(self, o):
        return self.loads(self.cases[o["c"]].get_nodal_f_dict(), self.uf, 4.0)

    def ob_casend(self, o):
        return self.loads(self.cases[o["c"]].get_nodal_d_dict(), self.ud, 4.0)

    def ob_beamf(self, o):
        return self.num(self.cases[o["c"]].get_beam_f(self.nm(o["b"]), o["l"] * self.sc.L), 12, lambda v: self.sc.unforce(v, 4.0))

    def ob_beamfd(self, o):
        d = self.cases[o["c"]].get_beam_f_dict({self.nm(x["n"]): x["l"] * self.sc.L for x in o["ls"]})
        return [dict(n=self.nm.un(n, "b"), f=self.num(f, 12, lambda v: self.sc.unforce(v, 4.0))) for n, f in d.items()]

    def ob_thf(self, o):
        return self.num(self.cases[o["c"]].get_nodal_f(self.nm(o["n"]), o["step"]), 6, lambda v: self.uf(v, 4.0))

    def ob_thb(self, o):
        return self.num(self.cases[o["c"]].get_beam_f(self.nm(o["b"]), o["l"] * self.sc.L, o["step"]), 12, lambda v: self.sc.unforce(v, 4.0))

    def hist(self, x):
        a = np.asarray(x, dtype=float)
        if a.ndim != 2 or a.shape[1] != 6:
            return [[SENT] * 6]
        return [self.num(r, 6, lambda v: self.uf(v, 4.0)) for r in a]

    def ob_thhist(self, o):
        return self.hist(self.cases[o["c"]].get_nodal_f_time_history(self.nm(o["n"])))

    def ob_thdict(self, o):
        return [dict(n=self.nm.un(n), f=self.hist(x)) for n, x in self.cases[o["c"]].get_nodal_f_time_history_dict().items()]

    def ob_steps(self, o):
        return [int(x) for x in self.cases[o["c"]].get_max_min_step()]

    def ob_asmf(self, o):
        f = self.asb.assemble_f(self.nm(o["c"]))
        f = np.asarray(f.todense() if hasattr(f, "todense") else f, dtype=float).reshape(-1)
        if f.size != 6 * o["nn"]:
            return [[SENT] * 6]
        v = ints(self.uf(list(f), 100.0))
        return [v[6 * j:6 * j + 6] for j in range(o["nn"])]

    def dense(self, M):
        return np.asarray(M.todense() if hasattr(M, "todense") else M, dtype=float)

    def diag(self, M, n, o):
        """diagonal times 10 in units of mass; o gets the number of other entries that are not zero"""
        M = self.dense(M) * 10.0 / self.sc.M
        if M.shape != (n, n):
            o["off"] = -1
            return [SENT] * n
        d = np.diag(M).copy()
        big = max([1.0] + [abs(x) for x in d])
        R = M - np.diag(d)
        o["off"] = int(np.sum(~(np.abs(R) <= 1e-9 * big)))
        return ints([x / self.sc.L ** 2 if j % 6 >= 3 else x for j, x in enumerate(d)])

    def ob_massm(self, o):
        asb = self.asb
        if not o["live"]:           # as the solvers read it
            with open(os.path.join(self.dir, "t.asb"), "rb") as f:
                asb = pickle.load(f)
        v = self.diag(asb.assemble_M(), 6 * o["nn"], o)
        return [v[6 * j:6 * j + 6] for j in range(o["nn"])]

    def ob_nodem(self, o):
        return self.diag(self.model.get_node_M(self.nm(o["n"])), 6, o)

    def ob_beamm(self, o):
        M = self.model.get_beam_M(self.nm(o["b"]), o.get("cond", False), o.get("local", True))
        return self.diag(M, 12, o)

    def ob_consm(self, o):
        from hyperstatic.core.fe_model.node import Node
        from hyperstatic.core.fe_model.element.line.beam import Beam
        from hyperstatic.core.fe_model.element.line.simple_beam import SimpleBeam
        from hyperstatic.core.fe_model.section.beam_section import BeamSection
        from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
        L, p = self.sc.L, o["p"]
        i, j = Node("i", *self.sc.pt(*o["la"])), Node("j", *self.sc.pt(*o["lb"]))
        rho, E, mu = p["rho"] * self.sc.rho, self.sc.E(p["E"]), 0.25
        A, I2, I3, J = p["A"] * L ** 2, p["I2"] * L ** 4, p["I3"] * L ** 4, p["J"] * L ** 4
        if o["simple"]:
            b = SimpleBeam("x", i, j, E, mu, A, I2, I3, J, rho)
        else:
            b = Beam("x", i, j, BeamSection("s", IsotropicMaterial("m", rho, E, mu, 0.0), "general", [], A, A, A, J, I2, I3, I2 / L, I3 / L))
        if o["rel"]:
            b.releases = [k in o["rel"] for k in range(12)]
        M = self.dense(b.integrate_M(consistent=True)) * 420 / (self.sc.rho * L ** 3)
        if M.shape != (12, 12):
            return [[SENT] * 12] * 12
        v = ints([M[r][c] / L ** ((r % 6 >= 3) + (c % 6 >= 3)) for r in range(12) for c in range(12)])
        return [v[12 * r:12 * r + 12] for r in range(12)]

    def ob_disp(self, o):
        x = self.K["Node"](self.dir, "t.asb").resolve_nodal_displacement(self.nm(o["n"]), self.nm(o["c"]))
        return self.num(x, 6, lambda v: self.ud(v, o["q"]))

    def ob_react(self, o):
        x = self.K["Node"](self.dir, "t.asb").resolve_nodal_reaction(self.nm(o["n"]), self.nm(o["c"]))
        return self.num(x, 6, lambda v: self.uf(v, 25.0 * o["q"]))

    def ob_endf(self, o):
        x = self.K["Beam"](self.dir, "t.asb").resolve_beam_end_force(self.nm(o["b"]), self.nm(o["c"]))
        return self.num(x, 12, lambda v: self.sc.unforce(v, o["q"]))

    ob_rel0 = ob_endf

    def ob_deform(self, o):
        n, c, xi = self.nm(o["b"]), self.nm(o["c"]), o["xn"] / o["xd"]
        B = self.K["Beam"](self.dir, "t.asb")
        x = B.resolve_beam_deformation(n, xi, c)
        if (o["xn"] + len(o["b"]) + o["q"]) % 3 == 0 and self.asb is not None:    # the published shape functions say the same
            N = [float(f(xi)) for f in self.asb.get_beam_shape_function(n)]
            y, z = B.resolve_beam_deformation(n, 0.0, c), B.resolve_beam_deformation(n, 1.0, c)
            x = np.array([N[0] * y[0] + N[1] * z[0], N[2] * y[1] + N[3] * y[4] + N[4] * z[1] + N[5] * z[4],
                          N[6] * y[2] - N[7] * y[5] + N[8] * z[2] - N[9] * z[5], N[10] * y[3] + N[11] * z[3], x[4], x[5]])
        k = o["q"] * o["l"] * o["xd"] ** 3
        return self.num(x, 6, lambda v: undeform(self.sc, v, k))


def strip(w):
    return {k: v for k, v in w.items() if not k.startswith("_")}


def run_plan(plan, tno):
    """plan: dict(backend, scale, names, events) -> list of trace records, list of exceptions"""
    root = tempfile.mkdtemp(prefix="hs", dir=_ROOTS[0])
    side = os.path.join(root, "side")
    os.mkdir(side)
    for f in ("a.sep", ".asb", "c.d.npy"):
        with open(os.path.join(side, f), "w") as h:
            h.write(f)
    recs = [dict(t=tno, e=0, op="reset", a={"x": 0}, obs=[], ret=dict(ok=True, v=-2, exc=False), silent=True)]
    B = (ApiBackend if plan["backend"] == "api" else DirectBackend)(root, Scale(**plan["scale"]), Names(plan["names"]))
    B.reuse = plan.get("reuse", False)
    try:
        for e, ev in enumerate(plan["events"], 1):
            ret = B.do(ev["op"], ev["a"])
            obs = [B.observe(o) for o in ev["obs"]]
            a = dict(ev["a"])
            if "w" in a:
                a["w"] = strip(a["w"])
            recs.append(dict(t=tno, e=e, op=ev["op"], a=a, ret=ret, obs=obs, silent=bool(ev.get("silent", False))))
    finally:
        B.close()
        shutil.rmtree(root, ignore_errors=True)
    return recs, B.excs


# ---- worker processes --------------------------------------------------------
class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong()


LIMIT = 120          # seconds for one plan


def _worker_init(scratch):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    allow_root(scratch)
    install_guard()
    os.chdir(scratch)
    sys.stdout = open(os.devnull, "w")
    faulthandler.enable(open(os.devnull, "w"))


def _one(job):
    f, plan, tno = job
    signal.alarm(LIMIT)
    try:
        return f(plan, tno)
    except TooLong:
        return None, ["the code did not finish within %d s" % LIMIT]
    except Exception:
        return None, [traceback.format_exc()[-2000:]]
    finally:
        signal.alarm(0)


def _chunk(jobs):
    return [_one(j) for j in jobs]


def execute(f, plans, scratch, procs=8):
    """Run f(plan, number) on every plan in worker processes -> list of (records or None, exceptions)."""
    ctx = multiprocessing.get_context("fork")
    jobs = [(f, p, k) for k, p in enumerate(plans)]
    n = max(1, min(16, len(jobs) // (procs * 4)))
    chunks = [jobs[k:k + n] for k in range(0, len(jobs), n)]
    out = [None] * len(jobs)

    def collect(chs, workers):
        lost = []
        with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_worker_init, initargs=(scratch,)) as ex:
            fs = [(c, ex.submit(_chunk, c)) for c in chs]
            for c, fu in fs:
                try:
                    for j, r in zip(c, fu.result()):
                        out[j[2]] = r
                except BrokenProcessPool:
                    lost.append(c)
        return lost
    lost = collect(chunks, min(procs, len(chunks) or 1))
    # a process died: find out with which plan
    for c in lost:
        for j in c:
            if collect([[j]], 1):
                out[j[2]] = (None, ["the process running the code died"])
    return out
