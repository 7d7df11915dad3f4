"""Materials and sections: plans and executor for SecTrace."""
import os
import shutil
import tempfile

import runner
from runner import SENT, vec_of

RATIOS = [(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (8, 1), (10, 1), (12, 1), (16, 1), (20, 1), (3, 2), (4, 3), (5, 2), (5, 3), (5, 4), (7, 2)]


def side(rng, most, cap):
    """two sides with a ratio of the table, either way round"""
    while True:
        n, d = rng.choice(RATIOS)
        if n > most * d:
            continue
        k = rng.randint(1, 6)
        a, c = n * k, d * k
        if a <= cap:
            return (a, c) if rng.random() < .5 else (c, a)


def dims(rng, kind):
    if kind == "rect":
        return list(side(rng, 10, 40))
    if kind == "circle":
        return [rng.randint(1, 24)]
    if kind == "pipe":
        d = rng.randint(2, 24)
        return [d, rng.randint(1, d // 2)]
    if kind == "box":
        tw, tf = rng.randint(1, 4), rng.randint(1, 4)
        return [rng.randint(2 * tf + 1, 20), rng.randint(2 * tw + 1, 20), tw, tf]
    if kind == "I":
        while True:
            b, tf = side(rng, 20, 24)
            hw, tw = side(rng, 20, 24)
            if tw <= b and tf <= 8 and tw <= 8:
                return [hw + 2 * tf, b, tw, tf]
    return [rng.randint(1, 500) for _ in range(8)]


KINDS = ["rect", "circle", "pipe", "box", "I", "general"]


def catalogue(rng):
    mode = rng.choice(["class", "class", "model", "api"])
    ev = []
    mats, secs = [], {}

    def obs():
        o = []
        if mode == "class":
            o += [dict(k="mat", id=m) for m in sorted(set(mats))]
            o += [dict(k="stress", id=m, eps=[rng.randint(-20, 20) if rng.random() < .7 else 0 for _ in range(6)]) for m in sorted(set(mats))]
            o += [dict(k="shell" if k in ("shell", "membrane", "plate") else "sec", id=s) for s, k in sorted(secs.items())]
        return o

    def mat():
        n = "m%d" % rng.randint(0, 2)
        mats.append(n)
        mn, md = rng.choice([(3, 10), (1, 4), (1, 5), (0, 1), (1, 3), (2, 5), (9, 20), (1, 10), (1, 6)])
        ev.append(dict(op="mat", a=dict(n=n, rho=rng.randint(0, 9), E=rng.randint(1, 9), mn=mn, md=md, a=rng.randint(0, 9)), obs=obs()))
    mat()
    for _ in range(rng.randint(2, 7)):
        if rng.random() < .25:
            mat()
            continue
        n = "s%d" % rng.randint(0, 3)
        k = rng.choice(KINDS)
        if mode == "class" and rng.random() < .12:
            k = rng.choice(["shell", "membrane", "plate"])
        m = rng.choice(mats) if mode == "class" or rng.random() < .9 else "m9"
        if m != "m9":
            secs[n] = k
        d = [rng.randint(1, 50)] if k in ("shell", "membrane", "plate") else dims(rng, k)
        o = obs() if mode == "class" else [dict(k=x, id=s) for s in sorted(secs) for x in ("stiff", "sec")]
        ev.append(dict(op="sec", a=dict(n=n, k=k, d=d, m=m), obs=o))
    return dict(mode=mode, u=rng.choice([1.0, 0.001, 1000.0, 10 ** rng.uniform(-4, 4)]), e=rng.choice([1.0, 2e11, 10 ** rng.uniform(-3, 11)]),
                r=rng.choice([1.0, 7849.0, 10 ** rng.uniform(-3, 4)]), l=rng.randint(1, 40), strain=rng.randint(-6, 2), events=ev)


def milli(x, unit):
    try:
        y = float(x) / unit * 1000
        if not -SENT < y < SENT:
            return SENT
        return int(round(y))
    except Exception:
        return SENT


def exact(x, unit):
    y = float(x) / unit
    r = round(y)
    return int(r) if abs(y - r) < 1e-6 * max(1, abs(y)) and abs(r) < SENT else SENT


CALL = dict(rect="rectangle", circle="circle", pipe="pipe", box="box", I="I", general="general")


def args(k, d, u):
    if k == "general":
        p = [2, 2, 2, 4, 4, 4, 3, 3]
        return [x * u ** q for x, q in zip(d, p)]
    return [x * u for x in d]


def mat_reading(o, P, alpha=True):
    return dict(rho=milli(o.rho, P["r"]), E=milli(o.E, P["e"]), mu=milli(o.mu, 1), G=milli(o.G, P["e"]))


def run_sections(plan, tno):
    import hsenv
    P = plan
    u, e = P["u"], P["e"]
    excs = []
    mats, secs = {}, {}
    recs = [dict(t=tno, e=0, op="reset", a={"x": 0}, ret=dict(ok=True), obs=[])]
    root = tempfile.mkdtemp(prefix="hs", dir=runner._ROOTS[0])
    mode = P["mode"]
    l = P["l"] * u
    if mode == "class":
        from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
        from hyperstatic.core.fe_model.section import beam_section as B
        from hyperstatic.core.fe_model.section.shell_section import ShellSection
        cls = dict(rect=B.RectangleSection, circle=B.CircleSection, pipe=B.PipeSection, box=B.BoxSection, I=B.ISection)
    elif mode == "model":
        from hyperstatic.core.fe_model.model import Model
        M = Model()
        M.add_node("a", 0, 0, 0)
        M.add_node("b", l, 0, 0)
    else:
        from hyperstatic.core import Api
        M = Api(root)
        M.add_node("a", 0, 0, 0)
        M.add_node("b", l, 0, 0)
        M.set_nodal_restraint("a", True, True, True, True, True, True)
        for k, f in enumerate([(1, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 0), (0, 0, 0, 1)]):
            M.add_loadpattern("p%d" % k)
            F = e * u * u
            M.set_nodal_load("p%d" % k, "b", f[0] * F, f[1] * F, f[2] * F, f[3] * F * u, 0, 0)
            M.add_static_case("c%d" % k)
            M.add_case_pattern("c%d" % k, "p%d" % k, 1.0)
    try:
        for n, ev in enumerate(P["events"], 1):
            a = ev["a"]
            ok = True
            try:
                if ev["op"] == "mat":
                    v = (a["n"], a["rho"] * P["r"], a["E"] * e, a["mn"] / a["md"], a["a"] * 1e-6)
                    if mode == "class":
                        mats[a["n"]] = IsotropicMaterial(*v)
                    else:
                        r = M.add_isotropic_material(*v)
                        ok = r is True or mode == "model"
                elif mode == "class":
                    m = mats[a["m"]]
                    if a["k"] in ("shell", "membrane", "plate"):
                        secs[a["n"]] = ShellSection(a["n"], m, a["d"][0] * u, a["k"])
                    elif a["k"] == "general":
                        A, As2, As3, I22, I33, J, W22, W33 = args("general", a["d"], u)
                        secs[a["n"]] = B.BeamSection(a["n"], m, "general", [], A, As2, As3, J, I22, I33, W22, W33)
                    else:
                        secs[a["n"]] = cls[a["k"]](a["n"], m, *args(a["k"], a["d"], u))
                else:
                    r = getattr(M, "add_beam_section_" + CALL[a["k"]])(a["n"], a["m"], *args(a["k"], a["d"], u))
                    ok = r is True or mode == "model"
            except Exception as x:
                ok = False
                excs.append(repr(x))
            obs = []
            for o in ev["obs"]:
                r = dict(k=o["k"], id=o["id"], raised=False)
                if mode != "class" and o["k"] == "sec":
                    # no public way to read a section back: looked up where it is kept today, or not at all
                    d = getattr(getattr(M, "_Api__model", M), "_Model__beam_section", None)
                    if not isinstance(d, dict) or o["id"] not in d:
                        continue
                    secs[o["id"]] = d[o["id"]]
                try:
                    if o["k"] == "mat":
                        m = mats[o["id"]]
                        r.update(mat_reading(m, P), name=m.name, lame=milli(m.lamda, e), a=milli(m.a, 1e-6))
                    elif o["k"] == "stress":
                        m = mats[o["id"]]
                        s = 10 ** P["strain"]
                        e6 = [x * s for x in o["eps"]]
                        r.update(eps=o["eps"], C=[[milli(x, s) for x in row] for row in m.C(*e6)], D=[[milli(x, s * e) for x in row] for row in m.D(*e6)])
                    elif o["k"] == "shell":
                        s = secs[o["id"]]
                        r.update(mat_reading(s, P), name=s.name, mname=s.material, t=exact(s.t, u), type=s.ele_type)
                    elif o["k"] == "sec":
                        s = secs[o["id"]]
                        r.update(mat_reading(s, P), name=s.name, mname=s.material, shape=s.shape, sizes=[exact(x, u) for x in s.sizes],
                                 A=milli(s.A, u ** 2), As2=milli(s.As2, u ** 2), As3=milli(s.As3, u ** 2), I22=milli(s.I22, u ** 4), I33=milli(s.I33, u ** 4),
                                 J=milli(s.J, u ** 4), W22=milli(s.W22, u ** 3), W33=milli(s.W33, u ** 3), i2=milli(s.i22 ** 2, u ** 2), i3=milli(s.i33 ** 2, u ** 2),
                                 lam=milli(s.lamda, P["r"] * u ** 2))
                    elif mode == "model":
                        M.add_beam("x", "a", "b", o["id"])
                        K = M.get_beam_K("x", False, True)
                        K = K.toarray() if hasattr(K, "toarray") else K
                        r.update(EA=milli(K[0][0] * l, e * u ** 2), EI33=milli(K[1][1] * l ** 3 / 12, e * u ** 4), EI22=milli(K[2][2] * l ** 3 / 12, e * u ** 4),
                                 GJ=milli(K[3][3] * l, e * u ** 4))
                    else:
                        good = M.add_beam("x", "a", "b", o["id"]) and M.assemble()
                        d = []
                        for k, c in enumerate([0, 2, 1, 3]):
                            good = good and M.solve_static("c%d" % k)
                            v = vec_of(M.result_get_nodal_displacement("b", "c%d" % k), 6) if good else None
                            d.append(v[c] if v else 0.0)
                        if not good or not all(d):
                            raise RuntimeError("no result")
                        F = e * u * u
                        r.update(EA=milli(F * l / d[0], e * u ** 2), EI33=milli(F * l ** 3 / 3 / d[1], e * u ** 4), EI22=milli(F * l ** 3 / 3 / d[2], e * u ** 4),
                                 GJ=milli(F * u * l / d[3], e * u ** 4))
                except Exception as x:
                    excs.append(repr(x))
                    r["raised"] = True
                obs.append(r)
            recs.append(dict(t=tno, e=n, op=ev["op"], a=a, ret=dict(ok=ok), obs=obs))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return recs, excs
