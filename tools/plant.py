#!/usr/bin/env python3
"""Plant bugs: for every spec in tools/bugs_*.py build a scratch copy of /repo, apply the edit, check that the
repository's tests still pass and that the demonstration separates the two trees, then write /verif/seeded/<id>/.

usage: plant.py [id ...] [--force]      (ids: only these)
       plant.py --check id [tier]       run the property's check against the patched scratch copy
Scratch copies live in /tmp/plant and are removed afterwards."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ROOT = "/tmp/plant"

DEMO_SH = """#!/bin/bash
# exit 0: behaviour is right; nonzero: the property is broken.  Run from the repository's root.
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export NUMBA_CACHE_DIR="$scratch/nb" PYTHONPYCACHEPREFIX="$scratch/pyc" MPLBACKEND=Agg NUMBA_OPT=0
/opt/venv/bin/python "$here/demo.py"
"""
PRELUDE = """import os, sys
sys.path.insert(0, os.getcwd())
import warnings; warnings.filterwarnings("ignore")
import numpy as np

"""


def specs():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "bugs_*.py"))):
        s = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += m.BUGS
    return out


def scratch(bug):
    d = os.path.join(ROOT, bug["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(ROOT, exist_ok=True)
    subprocess.run(["git", "clone", "-q", REPO, d], check=True)
    for f, old, new, *cnt in bug["edits"]:
        p = os.path.join(d, f)
        t = open(p, encoding="utf8", newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = t.count(old)
        want = cnt[0] if cnt else 1
        if isinstance(want, tuple):            # (k,): replace only the k-th occurrence
            k = want[0]
            i = -1
            for _ in range(k + 1):
                i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
        else:
            assert n == want, (bug["id"], f, n, old)
            t = t.replace(old, new)
        open(p, "w", encoding="utf8", newline="").write(t)
    return d


def run_tests(d):
    e = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_CACHE_DIR=d + "/.nb",
             PYTHONPYCACHEPREFIX=d + "/.pyc")
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider",
                        "--timeout=600", "-rA", "interpolation"], cwd=d, env=e, capture_output=True, text=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    return p.stdout, base


def demo(dd, cwd):
    p = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def plant(bug):
    d = scratch(bug)
    try:
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True).stdout
        out, base = run_tests(d)
        tail = out.strip().splitlines()[-1]
        npass = tail.split(" passed")[0].split()[-1] if " passed" in tail else "0"
        failed = [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))]
        if int(npass) < 28:
            return f"TESTS {tail} {failed[:4]}"
        dd = os.path.join(VERIF, "seeded", bug["id"])
        tmp = tempfile.mkdtemp(dir=ROOT)
        open(tmp + "/demo.sh", "w").write(DEMO_SH)
        open(tmp + "/demo.py", "w").write(PRELUDE + bug["demo"])
        open(tmp + "/patch.diff", "wb").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(tmp + "/meta.json", "w"), indent=1)
        rc0, o0 = demo(tmp, REPO)
        rc1, o1 = demo(tmp, d)
        if rc0 != 0 or rc1 == 0:
            return f"DEMO unchanged={rc0} patched={rc1}\n{o0}\n{o1}"
        shutil.rmtree(dd, ignore_errors=True)
        shutil.move(tmp, dd)
        return "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(bug, tier):
    d = scratch(bug)
    ev = tempfile.mkdtemp(dir=ROOT)
    try:
        p = subprocess.run([os.path.join(VERIF, "check"), bug["property"], tier], cwd=VERIF,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev), capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        return p.returncode, v[:1], p.stdout[-800:] + p.stderr[-400:] if p.returncode not in (0, 1) else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(ev, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    S = specs()
    if "--check" in sys.argv:
        tier = "quick"
        if args and args[-1] in ("quick", "thorough"):
            tier = args.pop()
        for b in S:
            if not args or b["id"] in args:
                rc, v, o = check(b, tier)
                print(b["id"], "CAUGHT" if rc == 1 and v else "MISSED" if rc == 0 else f"rc={rc}", *v, o, flush=True)
    else:
        todo = [b for b in S if (b["id"] in args if args else "--force" in sys.argv
                                 or not os.path.exists(os.path.join(VERIF, "seeded", b["id"])))]

        def one(b):
            try:
                r = plant(b)
            except Exception as e:
                r = f"EXC {type(e).__name__} {str(e)[:300]}"
            print(b["id"], r, flush=True)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(one, todo))
