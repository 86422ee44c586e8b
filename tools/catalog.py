"""The catalogue of properties; writes properties.jsonl and MANIFEST.json.

Run: python3 tools/catalog.py   (a property is claimed when fpsa/checks/<id>.py exists)
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, technique, note, na))


SC, EGF, SG, ST = ("flamingpy/codes/surface_code.py", "flamingpy/codes/graphs/egraph.py", "flamingpy/codes/graphs/stabilizer_graph.py",
                   "flamingpy/codes/stabilizer.py")
CVF, IIDF, OPS, GKP = "flamingpy/noise/cv.py", "flamingpy/noise/iid.py", "flamingpy/cv/ops.py", "flamingpy/cv/gkp.py"
DECF, MAT, ALG, LEM = ("flamingpy/decoders/decoder.py", "flamingpy/decoders/mwpm/matching.py", "flamingpy/decoders/mwpm/algos.py",
                       "flamingpy/decoders/mwpm/lemon.py")
UFA, UFC = "flamingpy/decoders/unionfind/algos.py", "flamingpy/decoders/unionfind/uf_classes.py"
SIMF, VIZF, LIN, GS = "flamingpy/simulations.py", "flamingpy/utils/viz.py", "flamingpy/utils/linalg.py", "flamingpy/utils/graph_states.py"
BASE = ("Abstract interpretation of the parsed sources (gated value-flow: values are joined at merges, loops are summarised, nothing is "
        "executed and no path is handed to a solver). ")

exec(open(os.path.join(V, "tools", "entries.py"), encoding="utf8").read())


def main():
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf8") as f:
        for d, tech, note, reason in sorted(P, key=lambda x: x[0]["id"]):
            f.write(json.dumps(d) + "\n")
            i = d["id"]
            if os.path.exists(os.path.join(V, "fpsa", "checks", i.lower() + ".py")):
                assert reason is None, i
                checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                               "technique": tech, "level": "other", "level_note": BASE + note})
            else:
                na.append({"property": i, "reason": reason or "No check built yet."})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q fpsa check.py", "checks": checks, "not_applicable": na,
         "notes": "All checks are static: they parse /repo's current sources on every run. The catalogue is tools/entries.py."}
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
