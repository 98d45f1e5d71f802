"""histories of set/get/exists/drop/keys/values/load_all on SQLiteDictStorage with and without an overflow directory, values around the exact threshold"""
import os
from base import *
from world import *


@scenario(quick=150, thorough=3000)
def overflow_history(rng, log):
    with Scratch() as d:
        db = adapter(rng, d)
        ov = su.JoblibDictStorage(os.path.join(d, "ov")) if rng.random() < .75 else None
        vals = {}
        for i in range(6):
            k = ident(rng, 3)
            vals[k] = rng.choice([value(rng), "z" * rng.randrange(0, 3000), list(range(rng.randrange(300)))])
        lens = {k: len(serialize(v)) for k, v in vals.items()}
        pivot = rng.choice(sorted(lens.values()))
        thr = (pivot + rng.choice([0, 0, -1, 1, 0.5])) / 1024 / 1024
        s = su.SQLiteDictStorage(db, "t", overflow_storage=ov, overflow_threshold_MB=thr)
        log("overflow" if ov is not None else "no-overflow", "sizes", sorted(lens.values()), "threshold-bytes", thr * 1024 * 1024)
        model = {}
        for _ in range(rng.randrange(3, 14)):
            k = rng.choice(sorted(vals))
            o = rng.choice(["set", "set", "set", "get", "exists", "drop", "all", "reopen"])
            log(o, k)
            big = lens[k] / 1024 / 1024 > thr
            if o == "set":
                r = Raises(s.set, k, vals[k])
                if big and ov is None:
                    check(r.exc is not None, f"an oversized value ({lens[k]} bytes) was accepted without an overflow store", "oversized accepted")
                else:
                    check(r.exc is None, f"set raised {r.exc!r}", "set raised")
                    model[k] = vals[k]
            elif o == "get":
                r = Raises(s.get, k)
                if k in model:
                    check(r.exc is None, f"get of a stored key raised {r.exc!r}", "get raised")
                    eq(r.value, model[k], "get", "wrong value")
                else:
                    check(r.exc is not None, "get of a missing key answered", "get of missing key")
            elif o == "drop":
                s.drop(k)
                model.pop(k, None)
            elif o == "reopen":
                s = su.SQLiteDictStorage(db, "t", overflow_storage=su.JoblibDictStorage(os.path.join(d, "ov")) if ov is not None else None, overflow_threshold_MB=thr)
            for q in vals:
                eq(s.exists(q), q in model, f"exists({q})", "exists")
            eq(sorted(s.keys()), sorted(model), "keys", "keys")
            eq(s.load_all(), model, "load_all", "load_all")
            eq(sorted(map(repr, s.values())), sorted(map(repr, model.values())), "values", "values")
            # placement: over the threshold and only those outside the database
            conn = s.conn()
            inside = {r[0] for r in conn.execute("select key from t")}
            eq(inside, {q for q in model if not lens[q] / 1024 / 1024 > thr}, "keys in the database table", "placement")
            if ov is not None:
                eq(sorted(ov.keys()), sorted(q for q in model if lens[q] / 1024 / 1024 > thr), "keys in the overflow store", "placement")


@scenario(quick=40, thorough=400)
def through_storage(rng, log):
    """the same seen through Storage: oversized values survive a new session, cleanup removes them"""
    from mandala.storage import Storage
    from mandala.model import op
    with Scratch() as d:
        p, ovd = os.path.join(d, "s.db"), os.path.join(d, "ov")
        thr = rng.choice([0.0005, 0.001, 0.002])
        n = [rng.randrange(0, 4000) for _ in range(3)]
        log("threshold", thr, "sizes", n)
        @op
        def mk(k):
            return "q" * k
        st = Storage(db_path=p, overflow_dir=ovd, overflow_threshold_MB=thr)
        with st:
            refs = [mk(k) for k in n]
        st2 = Storage(db_path=p, overflow_dir=ovd, overflow_threshold_MB=thr)
        for k, r in zip(n, refs):
            eq(st2.unwrap(r.detached()), "q" * k, "value read by a second session", "wrong value")
        for f in os.listdir(ovd):
            check(f.endswith(".joblib"), f"stray file {f}")
        big = {get_content_hash("q" * k) for k in n if len(serialize(serialize("q" * k))) / 1024 / 1024 > thr}
        eq({f[:-7] for f in os.listdir(ovd)}, big, "values in the overflow directory", "placement")
        hids = list(st2.call_storage.get_df().index.get_level_values(0).unique())
        st2.drop_calls(hids, delete_dependents=False)
        st2.cleanup_refs()
        eq(os.listdir(ovd), [], "overflow directory after dropping every call and cleaning up", "cleanup")
