"""Design spectra and load curves: plans and executor for SpectrumTrace."""
import math

from runner import SENT

TGS = [150, 200, 250, 300, 350, 400, 450, 550, 650, 750, 900, 1100]


def periods(rng, tg, step, whole):
    """periods on the grid of the table, those next to the corners among them"""
    last = 600 if whole else (6000 - 1) // step
    out = set()
    for c in (0, 100, tg, 5 * tg, 5999):
        for d in (-1, 0, 1, 2):
            out.add(c // step + d)
    out |= {rng.randint(0, last) for _ in range(8)}
    return [k * step for k in sorted(out) if 0 <= k <= last]


def tables(rng):
    ev = []
    ids = []
    for _ in range(rng.randint(1, 6)):
        n = "o%d" % rng.randint(0, 3)
        k = rng.choice(["gb50010", "gb50011", "list", "sin", "cos", "sin", "cos"])
        a = dict(id=n, k=k, n0=rng.choice(["c", "curve 1", "sine.a", ""]))
        if k.startswith("gb"):
            a.update(x=rng.choice([5, 10, 20, 30, 35, 40, 50, 50, 60, 80, 100, 200, 300, rng.randint(5, 400)]), tg=rng.choice(TGS),
                     scale=rng.choice([1.0, 0.08, 0.9, 10 ** rng.uniform(-3, 3)]), dt=10 if k == "gb50010" else rng.choice([10, 20, 25, 40, 50, 100, 120, 125, 200, 7, 30]))
        elif k == "list":
            m = rng.randint(1, 9)
            a.update(xs=[rng.randint(-500, 500) for _ in range(m)], ys=[rng.randint(-500, 500) for _ in range(m)], via=rng.choice(["list", "array", "tuple"]))
        else:
            a.update(A=rng.choice([1, 1, 2, 3, 10, -1, 0]), w=rng.randint(0, 14), ph=rng.randint(0, 24), n=rng.choice([1, 2, 3, 5, 6, 7, 10, 12, 13, rng.randint(1, 60)]),
                     dt=rng.choice([0.1, 0.2, 0.01, 0.02, 0.05, 1.0, 0.5, 0.3, 10 ** rng.uniform(-3, 1)]))
        if n not in ids:
            ids.append(n)
        ev.append(dict(op="make", a=a))
        if rng.random() < .5:
            ev.append(dict(op="touch", a=dict(id=rng.choice(ids), what=rng.choice(["source", "array"]))))
    made = {}
    for e in ev:
        if e["op"] == "make":
            made[e["a"]["id"]] = e["a"]
        e["obs"] = []
        for n in sorted(made):
            a = made[n]
            if e["op"] == "make" and a["id"] != e["a"]["id"] and rng.random() < .6:
                continue
            o = dict(id=n, k=a["k"])
            if a["k"].startswith("gb"):
                o["ts"] = periods(rng, a["tg"], a["dt"], a["k"] == "gb50010")
            e["obs"].append(o)
    return dict(events=ev, xu=10 ** rng.uniform(-2, 1), yu=10 ** rng.uniform(-3, 3))


def micro(x, unit):
    try:
        y = float(x) / unit * 1000000
        return int(round(y)) if -SENT < y < SENT else SENT
    except Exception:
        return SENT


def make(a, P):
    import numpy as np
    k = a["k"]
    if k == "gb50010":
        from hyperstatic.app.design.GB.seismic.spectrum import GB50010
        return GB50010(a["scale"], a["tg"] / 1000, a["x"] / 1000), None
    if k == "gb50011":
        from hyperstatic.app.seismic.wave2spec import GB50011_spectrum
        return GB50011_spectrum(a["scale"], a["tg"] / 1000, a["x"] / 1000, a["dt"] / 1000), None
    from hyperstatic.common.curve import Curve
    if k == "list":
        s = [[x / 1000 * P["xu"] for x in a["xs"]], [y / 1000 * P["yu"] for y in a["ys"]]]
        s = [np.array(v) if a["via"] == "array" else tuple(v) if a["via"] == "tuple" else v for v in s]
        return Curve(a["n0"], *s), s
    f = Curve.sin if k == "sin" else Curve.cos
    w = a["w"] * math.pi / 6 / a["dt"]
    return f(a["n0"], a["A"] * P["yu"], w, a["ph"] * math.pi / 6, a["dt"], a["n"]), None


def read(a, o, x, P):
    if a["k"] == "gb50010":
        s = x.spectrum
        T, al = list(s["T"]), list(s["alpha"])
        grid = len(T) == 601 and len(al) == 601 and all(abs(t * 100 - i) < 1e-6 for i, t in enumerate(T))
        return dict(grid=grid, ts=o["ts"], vs=[micro(al[t // 10], a["scale"]) if t // 10 < len(al) else SENT for t in o["ts"]])
    if a["k"] == "gb50011":
        T = list(x)
        n = math.ceil(6000 / a["dt"])
        grid = len(T) in (n, n + 1) and all(abs(t * 1000 / a["dt"] - i) < 1e-6 for i, t in enumerate(T))
        return dict(grid=grid, ts=o["ts"], vs=[micro(x[T[t // a["dt"]]], a["scale"]) if t // a["dt"] < len(T) else SENT for t in o["ts"]])
    xu = P["xu"] if a["k"] == "list" else a["dt"] * 1000
    arr = x.to_array()
    return dict(name=x.name, n=len(x.x), xs=[micro(v, xu) for v in x.x], ys=[micro(v, P["yu"]) for v in x.y], rows=len(arr),
                ax=[micro(v, xu) for v in arr[0]], ay=[micro(v, P["yu"]) for v in arr[1]])


def run_spectra(plan, tno):
    import os
    os.environ.setdefault("MPLBACKEND", "Agg")
    import hsenv  # noqa: F401
    excs = []
    recs = [dict(t=tno, e=0, op="reset", a={"x": 0}, ret=dict(ok=True), obs=[])]
    made, args = {}, {}
    for n, ev in enumerate(plan["events"], 1):
        a = ev["a"]
        ok = True
        try:
            if ev["op"] == "make":
                args[a["id"]] = a
                made.pop(a["id"], None)
                made[a["id"]] = make(a, plan)
            else:
                x, src = made[a["id"]]
                if a["what"] == "source" and src is not None:
                    for v in src:
                        if not isinstance(v, tuple):
                            for k in range(len(v)):
                                v[k] = 12.5
                if a["what"] == "array" and hasattr(x, "to_array"):
                    x.to_array()[:] = 7.25
        except Exception as e:
            ok = False
            excs.append(repr(e))
        obs = []
        for o in ev["obs"]:
            r = dict(id=o["id"], k=o["k"], raised=False)
            try:
                r.update(read(args[o["id"]], o, made[o["id"]][0], plan))
            except Exception as e:
                excs.append(repr(e))
                r["raised"] = True
            obs.append(r)
        recs.append(dict(t=tno, e=n, op=ev["op"], a={k: v for k, v in a.items() if k in ("id", "k", "n0", "x", "tg", "dt", "xs", "ys", "A", "w", "ph", "n", "what") and not isinstance(v, float)},
                         ret=dict(ok=ok), obs=obs))
    return recs, excs
