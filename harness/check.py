"""check.py <property> [--thorough] [--replay FILE]

Decides one property: model checking of the specification, execution of plans
(random ones and the histories the model checker enumerated) on the code in
/repo, and validation of the recorded traces against the specification.
Exit 0: held on everything explored.  Exit 1 and VIOLATION lines: broken."""
import argparse
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import runner
import tlc
from parts import PARTS
from gen import attempts

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(pid):
    """Listed findings of a property: {key: text}"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                key = line.split("key=", 1)[1].split(" ", 1)[0]
                out[key] = line.split("key=", 1)[1].split(" ", 1)[1]
    return out


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="hsv")
        tempfile.tempdir = self.scratch
        self.violations = []
        self.states = self.transitions = self.traces = self.events = 0
        self.ops, self.labels, self.models = Counter(), Counter(), []
        self.samples = []
        self.known = known(pid)
        self.hit = Counter()

    def left(self, budget=None):
        return (self.budget if budget is None else budget) - (time.time() - self.t0)

    # -------------------------------------------------------------- traces --
    def traces_of(self, module, fexec, plans, tag):
        """Execute, validate, collect."""
        if hasattr(fexec, "prepare"):
            fexec.prepare(self.scratch)
        done = runner.execute(fexec, plans, self.scratch)
        recs = []
        for k, (r, exc) in enumerate(done):
            if r is None:
                self.violate(module, fexec, plans[k], tag, dict(label="broken off", op="", detail=exc), None)
                recs.append([])
            else:
                recs.append(r)
                for x in r:
                    self.ops[x["op"]] += 1
                    for o in x.get("obs", ()):
                        self.labels[o["k"]] += 1
        if not any(recs):
            return
        bad, ev, g, d = tlc.validate(module, recs, self.scratch)
        self.traces += sum(1 for r in recs if r)
        self.events += ev
        self.states += d
        self.transitions += g
        if len(self.samples) < 3 and recs:
            k = len(recs) // 2
            self.samples.append(dict(module=module, generator=tag, trace=shorten(recs[k])))
        seen = set()
        for b in bad:
            rec = next(r for r in recs[b["t"]] if r["e"] == b["e"])
            key = "%s:%s" % (rec["op"], b["label"])
            if key in self.known:
                self.hit[key] += 1
                continue
            if b["t"] in seen:
                continue
            seen.add(b["t"])
            det = dict(b, op=rec["op"], a=rec.get("a"), ret=rec.get("ret"),
                       reading=rec["obs"][b["obs"] - 1] if b.get("obs") else None, exceptions=done[b["t"]][1][:5])
            self.violate(module, fexec, plans[b["t"]], tag, det, recs[b["t"]])

    def violate(self, module, fexec, plan, tag, det, recs):
        self.violations.append(dict(property=self.pid, module=module, generator=tag, executor=fexec.__name__, what=det, plan=plan, trace=recs))

    # -------------------------------------------------------------- models --
    def model(self, module, cfg, env=None, workers=8, timeout=800, args=(), heap="8g"):
        out, g, d, rc = tlc.run(module, cfg, env=env, workers=workers, timeout=timeout, args=args, heap=heap, meta_root=self.scratch)
        if rc != 0 or not d:
            raise tlc.TlcError("model %s (%s) is not checked:\n%s" % (module, cfg, out[-5000:]))
        self.states += d
        self.transitions += g
        self.models.append(dict(model=module, config=cfg, states=d, transitions=g))
        return out


def shorten(recs, n=12):
    s = [dict(op=r["op"], a=r.get("a"), ret=r.get("ret"), obs=(r.get("obs") or [])[:3]) for r in recs[:n]]
    t = json.dumps(s)
    return s if len(t) < 6000 else t[:6000] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    A = ap.parse_args()
    tier = "thorough" if A.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    R = Run(A.property, tier, A.seed)
    R.budget = 780 if tier == "thorough" else 400
    try:
        if A.replay:
            v = json.load(open(A.replay, encoding="utf8"))
            import executors
            R.traces_of(v["module"], getattr(executors, v["executor"]), [v["plan"]], "replay")
        else:
            for k, part in enumerate(PARTS[A.property]):
                part(R, random.Random("%s/%s/%d" % (A.property, A.seed, k)))
        return finish(R, A.replay)
    finally:
        shutil.rmtree(R.scratch, ignore_errors=True)


def finish(R, replay):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        ev = dict(property=R.pid, tier=R.tier, seed=R.seed, level="model_checking", violations=len(R.violations),
                  coverage=dict(states=R.states, transitions=R.transitions, traces_validated_against_impl=R.traces, events=R.events,
                                calls=dict(R.ops), readings=dict(R.labels), models=R.models, samples=R.samples, known_findings=dict(R.hit)),
                  assumptions=["reading values are compared to the specification's integers after scaling; resolution 1e-6 of the vector's size",
                               "quadpy (not installed here) is replaced by a stub with the same integration points"],
                  wall_s=round(time.time() - R.t0, 2))
        with open(os.path.join(VERIF, "evidence", R.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for key, text in R.known.items():
        print("KNOWN-FINDING: property=%s %s" % (R.pid, text))
    if not R.violations:
        print("OK property=%s traces=%d events=%d states=%d wall=%.0fs" % (R.pid, R.traces, R.events, R.states, time.time() - R.t0))
        return 0
    d = os.path.join(VERIF, "work", "replay")
    os.makedirs(d, exist_ok=True)
    R.violations.sort(key=lambda v: len(json.dumps(v["plan"])))
    for k, v in enumerate(R.violations[:3]):
        path = os.path.join(d, "%s-%s-%d.json" % (R.pid, R.seed, k))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        w = v["what"]
        print("VIOLATION property=%s replay=%s" % (R.pid, path))
        print("  %s %s: %s" % (v["module"], v["generator"], json.dumps({k: w.get(k) for k in ("op", "label", "ret", "reading", "detail")})[:600]))
    print("%d violating traces" % len(R.violations))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
