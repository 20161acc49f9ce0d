"""replay.py FILE: re-run a recorded failing input natively against /repo."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("PV_REPO", "/repo"))
from pv import registry, conc

b = json.load(open(sys.argv[1]))
c = [c for c in registry.load(b["property"]) if c.name == b["contract"]][0]
f = b["failing_input"]
if not f:
    print("no failing input recorded; verifier output:")
    print(json.dumps(b["verifier"], indent=1))
    sys.exit(2)
st, info = conc.run_one(c, f["seed"], f.get("hints"))
print(st, json.dumps(info, indent=1, default=str))
sys.exit(1 if st == "fail" else 0)
