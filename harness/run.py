#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [quick|thorough]   or   run.py replay <file>"""
import sys, os, json, time, tempfile, shutil, random

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from tlc import validate, model_check, MachineryError
from pool import run_groups
import plans

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("status") == "open" and d["property"] == prop:
                    out.append(d)
    return out


def matches(f, job, clause):
    def sub(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and all(k in b and sub(v, b[k]) for k, v in a.items())
        return a == b
    m = f["match"]
    return sub(m.get("ev", {}), job["ev"]) and sub(m.get("how", {}), job.get("how", {})) and \
        ("clause" not in m or m["clause"] == clause)


def slim(o, depth=0):
    """shortened copy for evidence samples"""
    if isinstance(o, list):
        return [slim(e, depth + 1) for e in o[:12]] + ([f"... {len(o)} entries"] if len(o) > 12 else [])
    if isinstance(o, dict):
        return {k: slim(v, depth + 1) for k, v in o.items()}
    return o


def execute(groups, tmp):
    """run the jobs on the code under test and build the trace"""
    replies = run_groups(groups, tmp)
    sessions, jobs, nid = [], {}, 0
    skipped = 0
    for g, rs in zip(groups, replies):
        ses = []
        for job, rep in zip(g, rs):
            if rep is None:
                skipped += 1
                continue
            ev = dict(job["ev"])
            ev.update(rep.get("add", {}))
            obs = {k: v for k, v in rep["obs"].items() if k not in ("exc", "msg")}
            ev["obs"] = obs
            ev["id"] = nid
            jobs[nid] = (job, rep, g)
            nid += 1
            ses.append(ev)
        if ses:
            # consecutive independent calls may be validated separately
            if g and g[0].get("session"):
                sessions.append(ses)
            else:
                sessions += [ses[i:i + 8] for i in range(0, len(ses), 8)]
    return sessions, jobs, skipped


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replays")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(EVID, "replays", f))
    tmp = tempfile.mkdtemp(prefix="verif_" + prop + "_")
    try:
        rng = random.Random(f"{prop}/{seed}/{tier}")
        plan = plans.PLANS[prop](tier, rng, tmp)
        tg = time.time()
        sessions, jobs, skipped = execute(plan["groups"], tmp)
        tr = time.time()
        bad, lines = validate(sessions, tmp)
        tv = time.time()
        sts = {}
        for job, rep, g in jobs.values():
            sts[rep["obs"]["st"]] = sts.get(rep["obs"]["st"], 0) + 1
        known = known_findings(prop)
        viol, kf = [], {}
        mal = [i for i, c in bad.items() if c in ("malformed-event", "unknown-op")]
        if mal:
            raise MachineryError("malformed event: " + json.dumps(jobs[mal[0]][0])[:1500] + json.dumps(jobs[mal[0]][1])[:600])
        for i, c in sorted(bad.items()):
            f = next((f for f in known if matches(f, jobs[i][0], c)), None)
            if f:
                kf[f["what"]] = kf.get(f["what"], 0) + 1
            else:
                viol.append((i, c))
        if skipped and not viol:
            raise MachineryError(f"{skipped} calls were not executed although no violation was found")
        for w, n in kf.items():
            print(f"KNOWN-FINDING: property={prop} {w}")
        for n, (i, c) in enumerate(viol[:8]):
            job, rep, g = jobs[i]
            path = os.path.join(EVID, "replays", f"{prop}-{n}.json")
            at = next(k for k, j in enumerate(g) if j is job)
            jl = g[: at + 1] if job.get("session") or g[0].get("session") else [job]
            json.dump({"property": prop, "clause": c, "observed": rep, "jobs": jl}, open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  clause {c}: {json.dumps(slim({'ev': job['ev'], 'how': job.get('how')}))[:900]} -> "
                  f"{json.dumps(slim(rep['obs']))[:600]}")
        mc = plan.get("mc", [])
        ids = sorted(jobs)
        samp = [slim({"call": jobs[i][0]["ev"], "realised_as": jobs[i][0].get("how"), "observed": jobs[i][1]["obs"],
                      "verdict": bad.get(i, "ok")}) for i in ids[:: max(1, len(ids) // 4)][:4]]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(m["states"] for m in mc) + lines,
                "transitions": sum(m["transitions"] for m in mc) + lines,
                "traces_validated_against_impl": len(sessions),
                "events_validated": lines,
                "events_rejected": len(bad),
                "model_runs": [{k: m[k] for k in ("module", "config", "states", "transitions", "depth", "wall_s")} for m in mc],
                "calls_generated_by_model": plan.get("from_model", 0),
                "calls_generated_by_seed": sum(len(g) for g in plan["groups"]) - plan.get("from_model", 0),
                "points_or_cells_compared": sum(len(r[1]["obs"].get("num", [])) + len(r[1]["obs"].get("dnum", [])) for r in jobs.values()),
                "outcomes": sts,
                "notes": plan.get("notes", ""),
                "samples": samp,
                "phase_s": {"generate": round(tg - t0, 1), "execute": round(tr - tg, 1), "validate": round(tv - tr, 1)},
            },
            "assumptions": plan.get("assumptions", plans.ASSUME),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(viol),
        }
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        print(f"{prop} {tier}: {lines} events in {len(sessions)} traces validated, {len(viol)} violations, "
              f"{sum(m['states'] for m in mc)} model states, gen {tg-t0:.0f}s run {tr-tg:.0f}s val {tv-tr:.0f}s")
        return 1 if viol else 0
    except MachineryError as e:
        print("CHECK-ERROR", e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        for j in d["jobs"]:
            j["session"] = True
        sessions, jobs, _ = execute([d["jobs"]], tmp)
        bad, _ = validate(sessions, tmp, 1)
        for i in sorted(jobs):
            print(jobs[i][0]["ev"].get("op"), json.dumps(jobs[i][1]["obs"])[:400], "->", bad.get(i, "ok"))
        if bad:
            print(f"VIOLATION property={d['property']} replay={path}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        rc = check(sys.argv[1], tier)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
