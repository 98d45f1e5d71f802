#!/usr/bin/env python3
"""Decide one property: discharge every obligation of every function contracted for it, generated
from /repo's current source; then run the property's concrete conformance scenarios against the
real code (labelled bounded; they are also the search for a failing input when an obligation fails)."""
import sys, os, json, time, tempfile, argparse, subprocess, importlib, multiprocessing as mp, multiprocessing.connection
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
EVD = os.environ.get("VERIF_EVIDENCE", f"{HERE}/evidence")
MODULES = ["model", "storage_utils", "storage", "calls", "binding", "memo", "deletion", "cf", "order", "versioning", "tracing", "versions", "misc"]
VENV = "/opt/venv/bin/python"


def registry():
    from pyver.registry import Registry
    reg = Registry()
    for m in MODULES:
        if os.path.exists(f"{HERE}/contracts/{m}.py"):
            importlib.import_module("contracts." + m).install(reg)
    return reg


_G = {}


def job(q):
    import io, contextlib
    from pyver.verify import verify
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return verify(_G["repo"], _G["reg"], q, budget=_G["budget"]).as_dict()
        except Exception as ex:
            return dict(qual=q, status="unsupported", detail=f"engine: {type(ex).__name__}: {ex}", obs=[], stats={}, wall=0, src="")


def child(q, w):
    r = job(q)
    w.send(r)
    w.close()


def score(r):
    return (r["status"] != "ok", sum(o["status"] != "proved" for o in r["obs"]))


def open_only(r):
    """nothing refuted, something undecided"""
    if r["status"] == "ok":
        return any(o["status"] == "unknown" for o in r["obs"]) and not any(o["status"] == "refuted" for o in r["obs"])
    return r["status"] == "undecided" or "budget" in str(r["detail"])


def prove(prop, tier, stop=lambda: False):
    """verify every function contracted for the property, each in its own process under a wall-clock limit;
    a function that exceeds it is undecided. When `stop()` says a concrete violation is at hand, what has not finished is left undecided."""
    from pyver.repo import Repo
    reg = _G["reg"] = registry()
    _G["repo"] = Repo()
    _G["budget"] = 150 if tier == "quick" else 400
    limit = 240 if tier == "quick" else 900
    todo = [q for q, c in reg.contracts.items() if prop in c.props and not c.assumed]
    ctx = mp.get_context("fork")
    run, res = {}, []

    def undecided(q, why):
        res.append(dict(qual=q, status="undecided", detail=why, obs=[], stats={}, wall=limit, src=""))
    first, wide = {}, 8
    while todo or run or not first:
        if not todo and not run:
            # once more, with the machine to themselves, those some solver query ran out of time on
            first = {r["qual"]: r for r in res if open_only(r)}
            if not first or len(first) > 6 or stop():
                break
            todo, wide, limit, res = list(first), 3, min(limit, 150), [r for r in res if r["qual"] not in first]
        while todo and len(run) < wide:
            q = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(q, w), daemon=True)
            p.start()
            w.close()
            run[r] = (q, p, time.time())
        for r in mp.connection.wait(list(run), timeout=1):
            q, p, _ = run.pop(r)
            try:
                res.append(r.recv())
            except EOFError:
                undecided(q, "the verifier process ended")
            p.join()
        halt = stop()
        for r, (q, p, t) in list(run.items()):
            if halt or time.time() - t > limit:
                p.kill()
                p.join()
                run.pop(r)
                undecided(q, "not finished: a concrete violation was found first" if halt else f"not finished within {limit} s")
        if halt:
            for q in todo:
                undecided(q, "not started: a concrete violation was found first")
            todo = []
    res = [first[r["qual"]] if r["qual"] in first and score(first[r["qual"]]) <= score(r) else r for r in res]
    return reg, sorted(res, key=lambda r: r["qual"])


def harness(prop, tier, seed, tag=""):
    if not os.path.exists(f"{HERE}/harness/{prop.lower()}.py"):
        return None
    out = f"{EVD}/{prop}.harness{tag}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [VENV, "-B", f"{HERE}/harness/run.py", prop, "--tier", tier, "--seed", str(seed), "--out", out]
    env = dict(os.environ, PYTHONPATH=REPO, VERIF_REPO=REPO, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    f = tempfile.TemporaryFile("w+", errors="replace")
    p = subprocess.Popen(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, cwd=HERE)
    p.logfile = f
    return p, out


def finish(h, limit):
    p, out = h
    try:
        p.wait(timeout=limit)
        late = ""
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        late = "\nscenarios timed out"
    p.logfile.seek(0)
    log = p.logfile.read()[-20000:] + late
    if not os.path.exists(out):
        return None, log
    r = json.load(open(out))
    os.remove(out)
    return r, log


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(f"{EVD}/replays", exist_ok=True)
    man = json.load(open(f"{HERE}/MANIFEST.json"))
    level = next((c["level"] for c in man["checks"] if c["property"] == a.prop), "proof")
    known = [l.strip() for l in open(f"{HERE}/known_findings.txt")] if os.path.exists(f"{HERE}/known_findings.txt") else []
    known = [json.loads(l) for l in known if l.startswith("{")]
    known = [k for k in known if k["property"] == a.prop and k.get("status") != "fixed"]
    h = harness(a.prop, a.tier, seed)

    def found():
        """the scenarios are done and show a violation that is not a known finding"""
        if h is None or h[0].poll() is None or not os.path.exists(h[1]):
            return False
        return any(not any(k["sig"] == v["sig"] for k in known) for v in json.load(open(h[1]))["violations"])
    reg, res = prove(a.prop, a.tier, found)
    viol, lines = [], []
    # ---- deductive part
    obs = [(r, o) for r in res for o in r["obs"]]
    proved = [o for r, o in obs if o["status"] == "proved"]
    refuted = [(r, o) for r, o in obs if o["status"] == "refuted"]
    undecided = [(r, o) for r, o in obs if o["status"] == "unknown"]
    unsup = [r for r in res if r["status"] != "ok"]
    for r in res:
        n = sum(o["status"] == "proved" for o in r["obs"])
        lines.append(f"{r['qual']}: {r['status']} {n}/{len(r['obs'])} obligations, {r['wall']:.1f}s" + (f" ({r['detail']})" if r["detail"] else ""))
    # ---- concrete part
    hres = None
    if h is not None:
        hres, log = finish(h, 600 if a.tier == "quick" else 3000)
        if hres is None:
            print(log[-4000:])
            print(f"ERROR: the concrete scenarios of {a.prop} did not finish")
            sys.exit(2)
    bounded = {q for q, c in reg.contracts.items() if c.bounded}
    open_obs = [(r, o) for r, o in refuted + undecided if r["qual"] not in bounded]
    if open_obs and hres and not [v for v in hres["violations"] if not any(k["sig"] == v["sig"] for k in known)] and a.tier == "quick":
        # an obligation is not discharged: search harder for a concrete failing input
        more, _ = finish(harness(a.prop, "search", seed + 1000, ".search"), 300)
        if more:
            hres["violations"] += more["violations"]
            hres["evaluations"] += more["evaluations"]
    kf = set()
    if hres:
        for v in hres["violations"]:
            k = next((k for k in known if k["sig"] == v["sig"]), None)
            if k:
                kf.add(k["sig"])
                continue
            viol.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}" + ("" if k["sig"] in kf else " (no case of this run shows it)"))
    rc = 0
    failed = [o["name"] for r, o in refuted + undecided] + [f"{r['qual']}: {r['status']} {r['detail']}" for r in unsup]
    if viol:
        rp = f"{EVD}/replays/{a.prop}.json"
        json.dump(dict(property=a.prop, failing=viol[:10], failed_obligations=failed,
                       how=f"PYTHONPATH=/repo {VENV} {HERE}/harness/run.py {a.prop} --replay {rp}"), open(rp, "w"), indent=1, default=str)
        for v in viol[:3]:
            print("  ", v["sig"], "::", str(v["what"])[:600])
        for f in failed[:5]:
            print("   obligation not discharged:", f[:300])
        print(f"VIOLATION property={a.prop} replay={rp}")
        rc = 1
    elif open_obs:
        rp = f"{EVD}/replays/{a.prop}.json"
        json.dump(dict(property=a.prop, failed_obligations=[dict(function=r["qual"], source=r["src"], obligation=o["name"], status=o["status"], verifier=o["info"]) for r, o in open_obs]), open(rp, "w"), indent=1)
        for r, o in open_obs[:5]:
            print(f"   obligation not discharged ({o['status']}):", o["name"][:300])
        print(f"VIOLATION property={a.prop} replay={rp} no-failing-input-found")
        rc = 1
    if not proved and not hres:
        print(f"ERROR: no obligation was generated for {a.prop}")
        rc = rc or 2
    # ---- evidence
    mods, inl, assumed = set(), set(), set()
    for r in res:
        mods |= set(r["stats"].get("modular", []))
        inl |= set(r["stats"].get("inlined", []))
        assumed |= set(r["stats"].get("assumed", []))
    cov = dict(
        obligations=len(obs), discharged=len(proved),
        checker_cmd=f"python3-vt {HERE}/check.py {a.prop} --tier {a.tier}",
        trusted_base=[f"assumed contract: {x}" for x in sorted(assumed)] + [f"{k}: {v}" for k, v in sorted(reg.trusted.items())] +
        ["the verifier in /verif/pyver (symbolic execution of the Python AST, loop rule with Houdini invariants) and its back ends z3 4.x and, where z3 does not answer at once, cvc5 1.1.2",
         "partial correctness: termination is not proved; integers are mathematical; attribute access and calls dispatch as declared by the class layouts in /verif/contracts"],
        explanation=f"Functions under contract (verified against /repo's current source this run): " +
        "; ".join(f"{r['qual']} [{r['src']}] {sum(o['status']=='proved' for o in r['obs'])}/{len(r['obs'])} in {r['wall']:.1f}s" + ("" if r["status"] == "ok" else f" UNDECIDED: {r['detail']}") for r in res) +
        f". Callee contracts used: {sorted(mods)}. Inlined bodies: {sorted(inl)}. Solvers: z3 and cvc5, {sum(r['stats'].get('solver_time', 0) for r in res):.1f}s in {sum(r['stats'].get('checks', 0) for r in res)} queries, of which cvc5 settled {sum(r['stats'].get('cvc5', 0) for r in res)}. "
        f"Undischarged this run (decided only by the bounded scenarios): {failed}. "
        + ("Bounded (never counted as proved): concrete scenarios on the real code: " + hres["rule"] if hres else "No concrete scenarios."),
    )
    if hres:
        cov.update(evaluations=hres["evaluations"], distinct_nontrivial=hres["distinct"], rule=hres["rule"], samples=hres["samples"][:5])
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(viol) + (len(open_obs) if not viol else 0),
              assumptions=[f"{k}: {v}" for k, v in sorted(reg.trusted.items())])
    json.dump(ev, open(f"{EVD}/{a.prop}.json", "w"), indent=1, default=str)
    for l in lines:
        print("  ", l)
    print(f"{a.prop}: {len(proved)}/{len(obs)} obligations discharged over {len(res)} functions" +
          (f", {hres['evaluations']} concrete cases" if hres else "") + f", {time.time()-t0:.1f}s")
    sys.exit(rc)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":     # the same queries in the same order on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    main()
