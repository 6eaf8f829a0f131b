"""Running TLC: model checking (G), and trace validation (V)."""
import os, re, subprocess, json, tempfile, time
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def run_tlc(module, cfg, env, tmp, workers=1, extra=(), mem="3g", timeout=800):
    md = tempfile.mkdtemp(prefix="md", dir=tmp)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + mem, "-cp", CP, "tlc2.TLC",
           "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env)
    e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + md
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def model_check(module, cfg, tmp, env=None, workers=4, extra=(), timeout=800):
    """exhaustive exploration; raises unless TLC finishes without error"""
    t = time.time()
    rc, out = run_tlc(module, cfg, env or {}, tmp, workers, extra, timeout=timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or not m:
        raise MachineryError(f"model checking {module}/{cfg} failed (rc {rc}):\n" + out[-3000:])
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return {"module": module, "config": cfg, "states": int(m.group(2)), "transitions": int(m.group(1)),
            "depth": int(d.group(1)) if d else 0, "wall_s": round(time.time() - t, 1), "out": out}


def refute(module, cfg, tmp, inv, timeout=300):
    """negative control: a model with the defect built in must violate the invariant"""
    t = time.time()
    rc, out = run_tlc(module, cfg, {}, tmp, 2, timeout=timeout)
    if f"Invariant {inv} is violated" not in out:
        raise MachineryError(f"negative control {module}/{cfg} was not refuted (rc {rc}):\n" + out[-2000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return {"module": module, "config": cfg + " (negative control, refuted)", "states": int(m.group(2)) if m else 0,
            "transitions": int(m.group(1)) if m else 0, "depth": 0, "wall_s": round(time.time() - t, 1)}


def simulate(module, cfg, tmp, num, depth, seed, env=None, timeout=300):
    rc, out = run_tlc(module, cfg, env or {}, tmp, 1, ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)],
                      timeout=timeout)
    if rc != 0:
        raise MachineryError(f"simulation {module}/{cfg} failed (rc {rc}):\n" + out[-3000:])
    return out


def validate(sessions, tmp, shards=8):
    """sessions: list of lists of events; returns {event id: clause} of rejected events and the line count"""
    n = sum(len(s) for s in sessions)
    if n == 0:
        return {}, 0
    weights = [sum(len(json.dumps(e)) * (20 if e.get("k") == 3 or e["op"] in ("grad", "filter") else 4) + 2000
                   for e in s) for s in sessions]
    k = max(1, min(shards, n // 5 + 1))
    bins = [[0, []] for _ in range(k)]
    for w, s in sorted(zip(weights, sessions), key=lambda t: -t[0]):
        b = min(bins, key=lambda b: b[0])
        b[0] += w
        b[1].append(s)

    def one(i):
        evs = [e for s in bins[i][1] for e in s]
        if not evs:
            return {}, 0
        tf = os.path.join(tmp, f"trace{i}.ndjson")
        vf = os.path.join(tmp, f"verdict{i}.json")
        with open(tf, "w") as f:
            for e in evs:
                f.write(json.dumps(e) + "\n")
        if os.path.exists(vf):
            os.remove(vf)
        rc, out = run_tlc("Trace.tla", "Trace.cfg", {"TRACE_FILE": tf, "VERDICT_FILE": vf}, tmp, 1)
        if rc != 0 or not os.path.exists(vf):
            keep = os.path.join("/tmp", "verif_failed_trace.ndjson")
            try:
                import shutil
                shutil.copy(tf, keep)
            except OSError:
                pass
            raise MachineryError(f"trace validation failed (rc {rc}):\n" + out[-3000:])
        v = json.load(open(vf))
        if v["lines"] != len(evs):
            raise MachineryError("trace validation did not consume the whole trace")
        return {b["id"]: b["clause"] for b in v["bad"]}, v["lines"]

    bad, lines = {}, 0
    with ThreadPoolExecutor(k) as ex:
        for b, l in ex.map(one, range(k)):
            bad.update(b)
            lines += l
    if lines != n:
        raise MachineryError("lost trace lines")
    return bad, lines
