#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current tree."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SYM_PY = os.environ.get("PV_SYMPY", "python3-vt")
NAT_PY = os.environ.get("PV_NATPY", "/opt/venv/bin/python")
REPO = os.environ.get("PV_REPO", "/repo")


def native_env():
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONPATH=REPO,
        PV_REPO=REPO,
    )
    if os.path.isdir("/opt/venv/etc/matplotlib"):
        e["MPLCONFIGDIR"] = "/opt/venv/etc/matplotlib"
    return e


def run_sym(prop, name, limit, dump=False):
    t0 = time.time()
    try:
        p = subprocess.run(
            [SYM_PY, "-m", "pv.symrun", prop, name, str(limit)] + (["dump"] if dump else []),
            cwd=HERE,
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PV_REPO=REPO),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
            timeout=limit + 60,
        )
        return json.loads(p.stdout)
    except subprocess.TimeoutExpired:
        return {"name": name, "obligations": [], "unsupported": ["timeout"], "errors": [], "wall": time.time() - t0, "assumptions": [], "stats": {}, "paths": 0, "feasible_paths": 0}
    except Exception as e:
        tail = (p.stderr or "")[-800:] if "p" in dir() else str(e)
        return {"name": name, "obligations": [], "unsupported": ["verifier failure: " + tail], "errors": [], "wall": time.time() - t0, "assumptions": [], "stats": {}, "paths": 0, "feasible_paths": 0}


def run_nat(prop, contracts, budget, seed, factor, timeout):
    job = {"prop": prop, "contracts": contracts, "budget": budget, "seed": seed, "factor": factor}
    try:
        p = subprocess.run(
            [NAT_PY, "-m", "pv.conc"],
            cwd=HERE,
            env=native_env(),
            input=json.dumps(job),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
            timeout=timeout,
        )
        return json.loads(p.stdout)
    except Exception as e:
        err = ""
        try:
            err = p.stderr[-1500:]
        except Exception:
            err = str(e)
        return {n: {"ok": 0, "skip": 0, "checks": 0, "fail": None, "error": err} for n in contracts}


def cross_check(smt2):
    """thorough tier: re-decide recorded z3 queries with cvc5"""
    agree = disagree = unknown = 0
    import tempfile

    def one(q):
        txt, res = q
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + txt)
            fn = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=5000", fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20)
            return res, p.stdout.strip().split("\n")[0]
        except Exception:
            return res, "unknown"
        finally:
            os.unlink(fn)

    with cf.ThreadPoolExecutor(6) as ex:
        for res, got in ex.map(one, smt2):
            if got not in ("sat", "unsat") or res not in ("sat", "unsat"):
                unknown += 1
            elif got == res:
                agree += 1
            else:
                disagree += 1
    return {"agree": agree, "disagree": disagree, "undecided_by_one": unknown}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from pv import registry

    cs = registry.load(prop)
    thorough = tier == "thorough"
    limit = 400 if thorough else 150
    budget = 90 if thorough else 10
    factor = 12 if thorough else 1
    symn = [c for c in cs if c.opts.get("sym") is not False]
    sym = {}
    nat = {}
    workers = int(os.environ.get("PV_JOBS", "8"))
    with cf.ThreadPoolExecutor(workers) as ex:
        names = [c.name for c in cs]
        groups = [names[i::4] for i in range(4) if names[i::4]]
        fs = {ex.submit(run_sym, prop, c.name, c.opts.get("timeout", limit), thorough): c.name for c in symn}
        fn = [
            ex.submit(
                run_nat, prop, {n: [] for n in g}, budget, seed, factor,
                60 + sum(budget * [c for c in cs if c.name == n][0].opts.get("budget", 1) + 35 for n in g),
            )
            for g in groups
        ]
        for f in cf.as_completed(fs):
            sym[fs[f]] = f.result()
        for f in fn:
            nat.update(f.result())
    # replay of refutations and exceptional paths with the solver's model as input
    hints = {}
    for n, r in sym.items():
        hs = [o["model"] for o in r["obligations"] if o["status"] == "refuted" and o.get("model")]
        hs += [e["model"] for e in r["errors"] if e.get("model")]
        bad = any(o["status"] != "proved" for o in r["obligations"]) or r["errors"] or r["unsupported"]
        if bad and not (nat.get(n) or {}).get("fail"):
            if hs:
                hs = hs[:6] * 4
            hints[n] = hs
    if hints:
        more = {}
        names = list(hints)
        with cf.ThreadPoolExecutor(workers) as ex:
            for r in ex.map(
                lambda n: run_nat(prop, {n: hints[n]}, budget * 2, seed + 17, factor * 4, 60 + 3 * budget * 4), names
            ):
                more.update(r)
        for n, r in more.items():
            if r.get("fail"):
                nat[n]["fail"] = r["fail"]
            nat[n]["ok"] = nat[n].get("ok", 0) + r.get("ok", 0)
            nat[n]["checks"] = nat[n].get("checks", 0) + r.get("checks", 0)

    known = load_known(prop)
    status = {}
    violations = []
    known_hits = []
    n_obl = n_dis = n_nf = n_z3 = 0
    bounded = []
    crashed = []
    for c in cs:
        s = sym.get(c.name)
        n = nat.get(c.name, {})
        if c.opts.get("standin"):
            # exercised natively by another contract on the same functions
            n = dict(nat.get(c.opts["standin"], {}), fail=None, error=None)
        fail = n.get("fail")
        st = "bounded" if s is None else None
        if s is not None:
            n_obl += len(s["obligations"])
            n_dis += sum(o["status"] == "proved" for o in s["obligations"])
            for o in s["obligations"]:
                if o["status"] == "proved":
                    if "z3" in o["backend"]:
                        n_z3 += 1
                    else:
                        n_nf += 1
            ref = [o for o in s["obligations"] if o["status"] == "refuted"]
            unk = [o for o in s["obligations"] if o["status"] == "unknown"]
            if ref:
                st = "refuted"
            elif s["unsupported"] or s["errors"] or unk:
                st = "undecided"
            elif not s["obligations"] or not s["feasible_paths"]:
                st = "vacuous"
            else:
                st = "proved"
        if fail:
            ob = "%s/%s" % (c.name, fail["obligation"])
            k = match_known(known, ob, fail)
            if k:
                known_hits.append(k)
                st = "known"
            else:
                violations.append((c.name, fail["obligation"], fail, s))
        elif st == "refuted":
            k = match_known(known, "%s/%s" % (c.name, ref[0]["name"]), None)
            if k:
                known_hits.append(k)
            elif n.get("ok", 0) and c.opts.get("replay_decides"):
                st = "undecided"
            else:
                violations.append((c.name, ref[0]["name"], None, s))
        if n.get("error"):
            crashed.append((c.name, n["error"]))
        if st in ("undecided", "bounded", "vacuous") and not fail:
            bounded.append(c.name)
            if not n.get("checks"):
                # neither proved nor exercised: no answer
                crashed.append((c.name, "no obligation decided and no native check ran: %s" % (s and (s["unsupported"] or s["errors"]))))
        status[c.name] = st
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "proof" if not bounded else "other",
        "coverage": {
            "obligations": n_obl,
            "discharged": n_dis,
            "by_backend": {"normal form (own)": n_nf, "z3 %s" % z3v(sym): n_z3},
            "checker_cmd": "python3 /verif/check.py %s --tier %s" % (prop, tier),
            "trusted_base": trusted(sym),
            "functions_under_contract": sorted({f for c in cs for f in c.functions}),
            "contracts": {
                c.name: {
                    "status": status[c.name],
                    "obligations": len((sym.get(c.name) or {}).get("obligations", [])),
                    "paths": (sym.get(c.name) or {}).get("paths", 0),
                    "undecided": ((sym.get(c.name) or {}).get("unsupported", []) + [e["error"] for e in (sym.get(c.name) or {}).get("errors", [])]
                                  + [o["name"] + ": " + o["detail"] for o in (sym.get(c.name) or {}).get("obligations", []) if o["status"] == "unknown"])[:4],
                    "native_runs": nat.get(c.name, {}).get("ok", 0),
                    "native_checks": nat.get(c.name, {}).get("checks", 0),
                    "seconds": (sym.get(c.name) or {}).get("wall", 0),
                }
                for c in cs
            },
            "bounded_stand_ins": {
                n: "native execution of the same contract on %d sampled inputs" % nat.get(n, {}).get("ok", 0)
                for n in bounded
            },
            "solver_seconds": round(sum((s.get("stats") or {}).get("z3_time", 0) for s in sym.values()), 2),
            "solver_queries": sum((s.get("stats") or {}).get("z3_queries", 0) for s in sym.values()),
        },
        "assumptions": ASSUME + sorted({a for s in sym.values() for a in s.get("assumptions", [])}),
        "wall_s": 0,
        "violations": [],
    }
    if thorough:
        qs = [q for s in sym.values() for q in (s.get("smt") or [])][:600]
        ev["coverage"]["cvc5_cross_check"] = cross_check(qs)
        if ev["coverage"]["cvc5_cross_check"]["disagree"]:
            crashed.append(("solver", "z3 and cvc5 disagree"))
    for k in sorted(set(known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    rc = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for name, ob, fail, s in violations[:5]:
        rp = os.path.join(HERE, "replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", name)))
        body = {
            "property": prop,
            "contract": name,
            "obligation": ob,
            "failing_input": fail,
            "verifier": [o for o in (s or {}).get("obligations", []) if o["status"] != "proved"][:6] + (s or {}).get("errors", []),
            "replay_cmd": "cd %s && %s replay.py %s" % (HERE, NAT_PY, rp),
        }
        json.dump(body, open(rp, "w"), indent=1, default=str)
        ev["violations"].append({"contract": name, "obligation": ob, "replay": rp})
        print("failed obligation: %s/%s %s" % (name, ob, (fail or {}).get("detail", "")))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fail else " no-failing-input-found"))
        rc = 1
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    if rc == 0 and crashed:
        for n, e in crashed:
            print("ERROR %s: %s" % (n, e))
        sys.exit(3)
    print("%s: %d/%d obligations discharged, %d contracts (%s), %.1fs" % (
        prop, n_dis, n_obl, len(cs), ", ".join("%s %d" % (k, list(status.values()).count(k)) for k in sorted(set(map(str, status.values())))), time.time() - t0))
    if "-v" in sys.argv:
        print(json.dumps(ev["coverage"]["contracts"], indent=1, default=str))
    sys.exit(rc)


ASSUME = [
    "floating point numbers are treated as mathematical reals (decimal literals exact, pi a constant between its 15-digit bounds)",
    "denominators evaluated by the code are non-zero on the inputs considered; overflow, NaN and infinity are outside the model",
    "the verifier itself (mechanical rewriting of loops/comprehensions/displays, loop summaries, term normal form) and z3 are trusted; "
    "every contract is also executed natively against the real modules on sampled inputs as a cross-check",
]


def trusted(sym):
    return ["pv engine (/verif/pv)", "z3", "CPython %d.%d" % sys.version_info[:2], "library models in /verif/pv/models.py (assumed contracts on numpy/scipy)"]


def z3v(sym):
    return "back end"


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def match_known(known, ob, fail):
    for k in known:
        if k["obligation"] == ob and (not k.get("detail_contains") or (fail and k["detail_contains"] in fail["detail"])):
            return k["what"]
    return None


if __name__ == "__main__":
    main()
