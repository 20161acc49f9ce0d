"""worker: symbolic verification of one contract; JSON on stdout"""
import io
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    prop, name, limit = sys.argv[1], sys.argv[2], float(sys.argv[3])
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = sys.stdout
    sys.stdout = sys.stderr
    from pv import api, registry, smt

    c = [c for c in registry.load(prop) if c.name == name][0]
    t0 = time.time()
    if len(sys.argv) > 4 and sys.argv[4] == "dump":
        smt.DUMP = []
    rec = api.run_symbolic(c, limit)
    json.dump(
        {
            "name": name,
            "obligations": rec.obls,
            "unsupported": rec.unsupported,
            "errors": rec.errors,
            "paths": rec.paths,
            "feasible_paths": rec.feasible_paths,
            "assumptions": sorted(rec.assumptions),
            "stats": smt.STATS,
            "wall": round(time.time() - t0, 2),
            "smt": smt.DUMP,
        },
        out,
    )


if __name__ == "__main__":
    main()
