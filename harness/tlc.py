"""Runs TLC on recorded traces and on the models."""
import json
import os
import re
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, workers=1, timeout=840, args=(), heap="2g", meta_root=None):
    """-> (stdout, states generated, distinct states)"""
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=meta_root)
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = ("-XX:ParallelGCThreads=1 -XX:TieredStopAtLevel=4 " if workers == 1 else "") + "-Xmx%s -Xss64m" % heap
    e.update(env or {})
    try:
        p = subprocess.run(["tlc", "-config", cfg or module + ".cfg", "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE", *args, module + ".tla"],
                           cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf8", "replace")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return out, gen, dis, p.returncode


def unquote(line):
    line = line.strip()
    if line.startswith('"'):
        return json.loads(line)
    return line


def validate(module, traces, scratch, procs=7, timeout=840):
    """traces: list of lists of records.  -> (bad list, events, states, distinct)"""
    n = max(1, min(procs, len(traces)))
    order = sorted(range(len(traces)), key=lambda k: -len(traces[k]))
    shards = [[] for _ in range(n)]
    size = [0] * n
    for k in order:
        j = size.index(min(size))
        shards[j].append(k)
        size[j] += sum(1 + len(r.get("obs", ())) for r in traces[k])
    jobs = []
    for j, sh in enumerate(shards):
        if not sh:
            continue
        path = os.path.join(scratch, "%s%d.ndjson" % (module, j))
        cnt = 0
        with open(path, "w") as f:
            for k in sh:
                for r in traces[k]:
                    f.write(json.dumps(r) + "\n")
                    cnt += 1
        jobs.append((path, cnt))

    def one(job):
        path, cnt = job
        bad, gen, dis = [], 0, 0
        for attempt in range(4):
            out, g, d, rc = run(module, env={"TRACE": path}, timeout=timeout)
            gen, dis = gen + g, dis + d
            now, end = [], None
            for line in out.splitlines():
                s = line.strip().strip('"')
                if s.startswith("BAD "):
                    now.append(json.loads(unquote(line)[4:]))
                elif s.startswith("END "):
                    end = json.loads(unquote(line)[4:])
            if end is not None:
                if end["events"] != cnt or end["bad"] != len(now):
                    raise TlcError("trace check is inconsistent: %s %s" % (path, end))
                return bad + now, cnt, gen, dis
            # A reading that the specification cannot even be compared with (of an
            # impossible size, say) is a violation; a wrong proposal of the driver is not.
            if "nested" not in out or "driver:" in out or not 0 < d <= cnt:
                raise TlcError("trace check did not finish: %s\n%s" % (path, (out[:1500] + "\n...\n" + out[-2500:])))
            recs = [json.loads(x) for x in open(path)]
            at = recs[d - 1]
            bad.append(dict(t=at["t"], e=at["e"], label="not comparable", obs=0))
            recs = [r for r in recs if r["t"] != at["t"]]
            if not recs:
                return bad, cnt, gen, dis
            cnt = len(recs)
            with open(path, "w") as f:
                for r in recs:
                    f.write(json.dumps(r) + "\n")
        return bad + now, cnt, gen, dis
    bad, ev, gen, dis = [], 0, 0, 0
    with ThreadPoolExecutor(n) as ex:
        for b, c, g, d in ex.map(one, jobs):
            bad += b
            ev += c
            gen += g
            dis += d
    return bad, ev, gen, dis
