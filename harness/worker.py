"""Executes abstract calls on the real code and logs projected observations.

Runs under the interpreter of the code under test.  Protocol: one JSON job per
line on stdin, one JSON observation per line on fd 3 (so that prints of the
code under test cannot disturb it).  A job is {"ev": <abstract event>, "how":
<realisation>}; the reply is the value of the event's "obs" field (and, for
operations that need it, extra event fields under "add").
"""
import sys, os, json, math, warnings, io, resource

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
import numpy as np

OPS = {}
MODULES = {o: "ops_misc" for o in ("enum", "hermite", "hcell", "bspline", "cpbasis", "cpcount", "smblock", "sminds", "smgrid",
                                   "smcheb", "smB", "smnodes", "gridctor", "objctor", "smctor")}
MODULES.update({o: "ops_session" for o in ("reset", "user", "scribble", "seval", "sfilter", "onew", "oset", "oeval", "ograd", "ogrid",
                                           "cpnew", "cpfit", "cpeval", "smnew", "smupd", "smeval")})


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


class HarnessError(Exception):
    pass


def main():
    resource.setrlimit(resource.RLIMIT_DATA, (4 << 30, 4 << 30))      # a runaway allocation fails, it does not end the machine
    out = os.fdopen(3, "w")
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        if job is None:
            break
        try:
            name = job["ev"]["op"]
            if name not in OPS:
                try:
                    __import__(MODULES.get(name, "ops_spline"))
                except HarnessError:
                    raise
                except Exception as e:     # the code under test cannot be imported
                    import traceback
                    rep = {"obs": {"st": "import-failed", "msg": traceback.format_exc()[-600:], "frame": []}}
                    out.write(json.dumps(rep) + "\n")
                    out.flush()
                    continue
            rep = OPS[name](job["ev"], job.get("how", {}))
            if "ops_session" in sys.modules:
                sys.modules["ops_session"].after(name, rep)
        except HarnessError as e:
            rep = {"harness_error": str(e)}
        except Exception as e:  # what came back cannot be read as a result at all (on the unchanged tree: a bug of the harness)
            import traceback
            rep = {"obs": {"st": "unreadable", "msg": traceback.format_exc()[-900:], "frame": []}}
        if any(isinstance(v, list) and len(v) > 400000 for v in rep.get("obs", {}).values()):
            rep = {"obs": {"st": "oversized", "frame": []}}
        out.write(json.dumps(rep) + "\n")
        out.flush()


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    main()
