import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "..", "properties.jsonl"))]
TECH = {
 "C01": "TLA+ kernel model (MCKernel/MCTheory, TLC) + trace validation of real calls against the spec",
 "C08": "TLA+ session model (MCPure, TLC) + replay of simulated histories on the real code, traces validated by TLC",
 "C09": "TLA+ object-lifecycle model (MCObjects, TLC) + replay of enumerated and simulated histories, traces validated by TLC",
 "C14": "TLA+ fit-history model (MCFits, TLC) + replay of simulated histories, traces validated by TLC",
 "C16": "TLA+ sparse-grid and update-history models (MCSmolyak, MCFits, TLC) + replay, traces validated by TLC",
 "C11": "TLA+ enumeration model (MCCart, TLC) + trace validation of real calls",
 "C12": "TLA+ Hermite model (MCHermite, TLC) + trace validation of real calls",
 "C13": "TLA+ polynomial-basis model (MCCPoly, TLC) + trace validation of real calls",
 "C15": "TLA+ sparse-grid model (MCSmolyak, TLC) + trace validation of real calls",
 "C17": "TLA+ validation model (MCValidation, TLC) enumerating argument classes + trace validation of real calls",
 "C18": "TLA+ B-spline model (MCBSpline, TLC) + trace validation of real calls",
 "C03": "TLA+ prefilter model (MCFilter, TLC) + trace validation of real calls",
 "C02": "TLA+ spline kernel model (MCKernel, TLC) + trace validation of real calls",
 "C04": "TLA+ cubic kernel model (MCKernel, MCTheory, TLC) + trace validation of real calls",
}
DEF = "TLA+ spline kernel model (MCKernel, TLC) + trace validation of real calls against the spec"
NOTE = ("TLC explores the property's model exhaustively within its constants and generates calls/histories; these and seeded larger ones run on "
        "/repo's working tree and TLC decides every recorded event exactly on an integer lattice. Assurance is bounded by the explored grids, sizes "
        "and call forms; trusts TLC and the float/lattice projection of harness/proj_py.py.")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks observe the public API only. ./check replay <file> re-runs a recorded violation."}
for p in props:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEF), "level": "model_checking", "level_note": NOTE})
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
