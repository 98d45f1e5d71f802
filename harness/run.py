"""Runs the concrete scenarios of one property against the real code (python of /opt/venv)."""
import sys, os, json, time, argparse, random, importlib, traceback, tempfile, shutil, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
import base


def run_one(prop, sc, seed, tier):
    rng = random.Random(f"{prop}/{sc.name}/{seed}")
    return base.execute(sc, rng)


def worker(a):
    prop, names, tier, seed, budget = a
    mod = importlib.import_module(prop.lower())
    scs = [s for s in base.scenarios(mod) if s.name in names]
    t0 = time.time()
    kf = os.path.join(os.path.dirname(HERE), "known_findings.txt")
    known = {k["sig"] for k in (json.loads(l) for l in open(kf) if l.startswith("{")) if k["property"] == prop and k.get("status") != "fixed"} if os.path.exists(kf) else set()
    out = dict(violations=[], evaluations=0, distinct=set(), samples=[])
    for sc in scs:
        t1 = time.time()
        n = sc.quick if tier == "quick" else sc.thorough
        for i in range(n):
            if time.time() - t1 > budget * sc.weight and i >= 3:
                break
            case = f"{seed}:{i}"
            v, key = run_one(prop, sc, case, tier)
            out["evaluations"] += 1
            if key is not None:
                out["distinct"].add((sc.name, key))
            if len(out["samples"]) < 2 and key is not None:
                out["samples"].append(f"{sc.name}[{case}]: {key[:400]}")
            if v is not None:
                v["scenario"], v["seed"] = sc.name, case
                if v["sig"] in known:
                    if v["sig"] not in [x["sig"] for x in out["violations"]]:
                        out["violations"].append(v)
                    continue
                out["violations"].append(v)
                break
    out["distinct"] = sorted(out["distinct"])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", default="1")
    ap.add_argument("--out"); ap.add_argument("--scenario"); ap.add_argument("--replay"); ap.add_argument("--case")
    a = ap.parse_args()
    mod = importlib.import_module(a.prop.lower())
    scs = base.scenarios(mod)
    if a.replay or a.case:
        fs = json.load(open(a.replay))["failing"] if a.replay else [dict(scenario=a.scenario, seed=a.case)]
        rc = 0
        for f in fs:
            sc = next(s for s in scs if s.name == f["scenario"])
            v, key = run_one(a.prop, sc, f["seed"], a.tier)
            print(f["scenario"], f["seed"], "->", v, key)
            rc |= v is not None
        sys.exit(rc)
    if a.scenario:
        scs = [s for s in scs if s.name == a.scenario]
    import multiprocessing as mp
    budget = {"quick": 25, "search": 60}.get(a.tier, 250)
    jobs = [(a.prop, [s.name], a.tier, a.seed, budget) for s in scs]
    tot = dict(violations=[], evaluations=0, distinct=0, samples=[])
    ds = set()
    ctx = mp.get_context("fork")
    with ctx.Pool(min(4, max(1, len(jobs)))) as p:
        for o in p.imap_unordered(worker, jobs, chunksize=1):
            tot["violations"] += o["violations"]
            tot["evaluations"] += o["evaluations"]
            ds |= {tuple(x) for x in o["distinct"]}
            tot["samples"] += o["samples"]
    tot["distinct"] = len(ds)
    tot["samples"] = sorted(tot["samples"])[:6]
    tot["rule"] = f"seeded random cases of scenarios {[s.name for s in scs]}, each compared with a reference model written independently of the code; a case is counted once per distinct generated input, and only when it exercises at least one operation ({(mod.__doc__ or '').strip()[:300]})"
    if a.out:
        json.dump(tot, open(a.out, "w"), indent=1, default=str)
    print(f"{a.prop}: {tot['evaluations']} cases, {tot['distinct']} distinct, {len(tot['violations'])} violations")
    for v in tot["violations"]:
        print("  ", v["scenario"], v["seed"], v["sig"], "::", str(v["what"])[:1500])
    sys.exit(1 if tot["violations"] else 0)


if __name__ == "__main__":
    main()
