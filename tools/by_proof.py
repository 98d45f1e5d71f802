"""by_proof.py ID…: which obligations a planted bug fails, with the scenarios left out (development aid)"""
import sys, os, json, shutil, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from mkseed import scratch, sh
CODE = """
import sys; sys.path.insert(0, %r)
import check
_, res = check.prove(sys.argv[1], "quick")
bad = [f"{o['status']} {o['name']}" for r in res for o in r["obs"] if o["status"] != "proved"] + [f"{r['status']} {r['qual']} {r['detail']}" for r in res if r["status"] != "ok"]
print(len(bad)); print("\\n".join("    " + b[:220] for b in bad[:4]))
""" % HERE
for i in sys.argv[1:]:
    prop = json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
    d = scratch()
    try:
        if sh(f"git apply {HERE}/seeded/{i}/patch.diff", d).returncode:
            print(i, "APPLY FAILED"); continue
        r = subprocess.run(["python3-vt", "-c", CODE, prop], text=True, capture_output=True, env=dict(os.environ, VERIF_REPO=d))
        print(i, r.stdout.strip() or r.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(d)
