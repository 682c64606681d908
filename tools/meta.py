"""Writes properties.jsonl and MANIFEST.json from the one table below.
Run by hand after editing; both outputs are committed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed properties
NA = []         # (id, reason) not claimed


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), level_note="",
         observe=(), technique=None, na=None):
    d = {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/qutip_qtrl/" + f for f in files],
            "mechanism": [{"name": a, "where": "src/qutip_qtrl/" + b} for a, b in mechanism],
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": "src/qutip_qtrl/" + c}
                                 for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append((d, level_note, technique, na))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d) + "\n")
TECH = ("symbolic execution of the real Python code (symq) with z3 deciding every branch and "
        "assertion; counterexamples replayed on the unpatched code")
NOTE = ("bounded, all values: every assertion is decided by the solver for all real/complex "
        "input values on every feasible path of the listed configurations (bounds in the "
        "evidence file). Trusts: exact arithmetic in place of floating point, uninterpreted "
        "kernels (matrix exponential, Frechet derivative, eigendecomposition), the stand-ins "
        "for numpy/Qobj primitives (validated by replaying path witnesses on the real code), "
        "z3. ")
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {"property": d["id"],
         "quick_cmd": "./check.sh %s quick" % d["id"],
         "thorough_cmd": "./check.sh %s thorough" % d["id"],
         "technique": t or TECH, "level": "other", "level_note": (NOTE + n).strip()}
        for d, n, t, na in P if not na],
    "not_applicable": [{"property": d["id"], "reason": na} for d, n, t, na in P if na],
    "notes": "No hooks in /repo. symq/ is the symbolic engine, checks/ the harnesses; "
             "./check.sh --replay FILE re-runs a recorded counterexample on the real code. "
             "known_findings.txt lists repaired and open defects.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")
