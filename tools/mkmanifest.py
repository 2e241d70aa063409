"""Writes MANIFEST.json from the list of properties and what is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T_CORE = "TLA+ specification of the runtime (TLC: exhaustive design check) + TLC trace validation of recorded sequential and scheduler-controlled concurrent executions of the real code"
N_CORE = ("Exhaustive in small constants for the design; every explored execution of the real code (random scripts, and all schedules with up to 2 "
          "preemptions of a race catalogue at lock granularity, capped per scenario) is decided by TLC against the specification. Trusts the harness's recording, the patched lock "
          "library (scheduling points only) and TLC.")
CLAIM = {}
for i in range(1, 11):
    CLAIM["C%02d" % i] = (T_CORE, N_CORE)
try:
    import claims
    CLAIM.update(claims.CLAIM)
except ImportError:
    pass
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=[dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --thorough" % p,
                      technique=t, level="model_checking", level_note=n) for p, (t, n) in sorted(CLAIM.items())],
         not_applicable=[dict(property=p["id"], reason="no check yet: the specification and its binding are still being built") for p in props if p["id"] not in CLAIM])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
