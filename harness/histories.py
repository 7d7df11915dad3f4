"""Histories enumerated by the model checker, turned into plans."""
import json
import random

import runner
import tlc
from exact import Reject
from gen import Plan
from profiles import UNKNOWN, stiffness_exact

NOT_API = {"set_pf", "set_rot", "set_ndisp"}


def export(R, alphabet, depth):
    """-> (prefix, alphabet, histories as index lists); the model's properties are checked on the way"""
    out = R.model("MCCore", "MCCore.cfg", env=dict(ALPHABET=alphabet, DEPTH=str(depth), EXPORT="1"), workers=1, heap="4g")
    head, hs = None, []
    for line in out.splitlines():
        s = line.strip()
        if s.startswith('"A '):
            head = json.loads(tlc.unquote(s)[2:])
        elif s.startswith('"H '):
            hs.append(json.loads(tlc.unquote(s)[2:]))
    return head["prefix"], head["ops"], hs


def apply(P, o):
    if o["op"] == "solve":
        return P.solve(o["a"]["c"])
    a = {k: v for k, v in o["a"].items() if k != "x" or o["op"] == "add_node"}
    return P.ev(o["op"], **a)


def fits(backend, ops):
    if backend == "direct":
        return not any(o["op"] in ("save", "load", "clear", "fresh") for o in ops)
    return not any(o["op"] in NOT_API or o["a"].get("dup") for o in ops)


def look(P, r):
    """Everything that can be read."""
    m = P.m.mem
    direct = P.backend == "direct"
    N = ["n0", "n1", "n2"]
    for k in ("nodes", "beams", "shells", "grest") if direct else ("locs", "conn", "sconn", "grest"):
        P.ob(k=k)
    if direct:
        for b in m["beams"]:
            if stiffness_exact(b):
                P.ob(k="beamk", b=b["n"])
    else:
        for n in N[:2] + ["zz"]:
            P.ob(k="loc1", n=n)
        for b in ["b0", "b1"]:
            P.ob(k="conn1", n=b)
            P.ob(k="bloc1", n=b)
        P.ob(k="sconn1", n="h0")
        P.ob(k="sloc1", n="h0")
    for p in ["p0", "p1"]:
        if direct and p not in m["pcur"]:
            continue
        P.ob(k="nl", p=p)
        P.ob(k="nl1", p=p, n="n0")
    for c in ["c0", "c1"]:
        if direct and c not in m["cases"]:
            continue
        P.ob(k="crest", c=c)
        if direct:
            P.ob(k="cased", c=c)
            for n in N[:2]:
                P.ob(k="casef", c=c, n=n)
            P.ob(k="beamf", c=c, b="b0", l=6)
    # results
    for c in ["c0", "c1"]:
        if c in P.m.res and P.m.asb is not None and P.m.res[c][0] != P.m.nasb:
            continue
        if direct and (P.m.asb is None or c not in P.m.res):
            continue
        src = P.m.asb if P.m.asb is not None else m
        for n in src["nodes"]:
            P.ob_disp(c, n["n"])
            P.ob_react(c, n["n"])
        for b in src["beams"]:
            P.ob_endf(c, b["n"])


def histories(alphabet, backend, quick, depth=(4, 5)):
    """A part: every step of the model (or a sample of them) replayed on the code."""
    def part(R, rng):
        prefix, ops, hs = export(R, alphabet, depth[R.tier != "quick"])
        hs = [h for h in hs if fits(backend, [ops[k - 1] for k in h])]
        total = len(hs)
        if R.tier == "quick" and len(hs) > quick:
            hs = rng.sample(hs, quick)
        else:
            rng.shuffle(hs)
        done = dropped = 0
        for k in range(0, len(hs), 3000):
            if k and R.left() < 60:
                break
            plans = []
            for h in hs[k:k + 3000]:
                P = Plan(random.Random(rng.getrandbits(64)), backend)
                for o in prefix + [ops[j - 1] for j in h]:
                    for v in o["a"].values():
                        if isinstance(v, str) and v[:1] in "nbhmstpcf" and len(v) == 2 and v[1].isdigit():
                            P.name(v[0], int(v[1]))
                try:
                    for o in prefix + [ops[j - 1] for j in h]:
                        apply(P, o)
                    look(P, P.r)
                except Reject:
                    dropped += 1
                    continue
                plans.append(P.done())
            if plans:
                R.traces_of("ApiTrace", runner.run_plan, plans, "model histories: %s/%s" % (alphabet, backend))
                done += len(plans)
            if R.violations:
                break
        R.models[-1].update(alphabet=alphabet, backend=backend, steps=total, replayed=done, unrepresentable=dropped)
    part.__name__ = "histories_" + alphabet
    return part
