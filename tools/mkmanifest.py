"""writes MANIFEST.json from the registered contracts (run by hand after adding contracts)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vt.check import load_contracts
have = set()
for c in load_contracts():
    have |= set(c.props)
NOTE = {
 "C09": "The batch dimensions of every contract are one symbolic index block of any rank; locality of the outputs in that index is an obligation.",
 "C17": "Every parameter of every call form, and two-call histories of one object; larger histories follow by induction over the call contract (object state unchanged by a call).",
 "C20": "The real loader source runs against a ghost file system and network with opaque names, symbolic initial states and a fault at every operation; runs on real files and the real torch deserialiser are bounded.",
 "C21": "The real command source runs against a ghost file system, opaque signals of symbolic length and all option combinations; runs on real audio files are bounded.",
}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -m vt.check %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python -m vt.check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contracts on the real source, verification conditions by symbolic execution of it, discharged by term rewriting + z3; counterexamples replayed on the real package",
            "level": "proof",
            "level_note": NOTE.get(i, "All sizes, batch ranks, contents and iterations.") + " Real/complex arithmetic is exact (no rounding); the torch operations are assumed to satisfy their contracts; bounded stand-ins, if any, are listed in the evidence and not counted as proved.",
        })
    else:
        na.append({"property": i, "reason": "no contract built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "DESIGN.md describes the verifier in vt/ and the contracts in contracts/. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
