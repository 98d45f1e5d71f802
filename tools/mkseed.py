"""plant a bug: mkseed.py ID < spec.json   (spec: property, file, edits [[old,new],...], needs, what_it_breaks, demo)
Verifies in a scratch copy that the stable tests pass, the demo passes without and fails with the change; then writes seeded/ID.
mkseed.py --check ID [PROP] runs the property's check against a scratch copy with the patch applied."""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, **(env or {})))


def scratch():
    d = tempfile.mkdtemp(prefix="seedscr_")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    return d


def tests(d):
    r = sh(f"PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONPATH={d} /opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=300 mandala/tests", d)
    return r.returncode == 0 and "21 passed" in r.stdout, r.stdout[-1500:]


def main():
    if sys.argv[1] == "--check":
        i = sys.argv[2]
        prop = sys.argv[3] if len(sys.argv) > 3 else json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
        d = scratch()
        try:
            r = sh(f"git apply {HERE}/seeded/{i}/patch.diff", d)
            if r.returncode: print("APPLY FAILED", r.stdout); sys.exit(3)
            r = sh(f"python3-vt {HERE}/check.py {prop}", HERE, dict(VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), 1800)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, prop, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", v[:1])
            if "-v" in sys.argv or r.returncode not in (0, 1): print(r.stdout[-5000:])
            else:
                for l in r.stdout.splitlines():
                    if "::" in l or "not discharged" in l: print("    ", l[:260])
        finally:
            shutil.rmtree(d)
        return
    i = sys.argv[1]
    sp = json.load(sys.stdin)
    d = scratch()
    try:
        out = f"{HERE}/seeded/{i}"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/demo.py", "w").write(sp["demo"])
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds here\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py" >/dev/null 2>&1\n')
        r0 = sh(f"bash {out}/demo.sh", d)
        for e in sp["edits"]:
            f, old, new = e if len(e) == 3 else [sp["file"]] + e
            p = f"{d}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT does not match once:", s.count(old), old); shutil.rmtree(out); sys.exit(2)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", d).stdout
        ok, log = tests(d)
        r1 = sh(f"bash {out}/demo.sh", d)
        good = ok and r0.returncode == 0 and r1.returncode != 0
        print(i, "OK" if good else "BAD", "tests", ok, "demo clean", r0.returncode, "demo bug", r1.returncode)
        if not good:
            if not ok: print(log)
            if r0.returncode: print(sh(f"PYTHONPATH=/repo /opt/venv/bin/python -B {out}/demo.py", "/repo").stdout[-1500:])
            shutil.rmtree(out); sys.exit(1)
        open(f"{out}/patch.diff", "w").write(diff)
        json.dump({k: sp[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{out}/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
