"""histories of set/get/exists/drop/commit/clear on the cached storages against write-through models, with other sessions on the same database"""
import os
from base import *
from world import *


@scenario(quick=200, thorough=4000)
def dict_cache(rng, log):
    with Scratch() as d:
        db = adapter(rng, d)
        ov = su.JoblibDictStorage(os.path.join(d, "ov")) if rng.random() < .3 else None
        mkp = lambda: su.SQLiteDictStorage(db, "t", overflow_storage=ov, overflow_threshold_MB=0.0005) if ov is not None else su.SQLiteDictStorage(db, "t")
        keys = [ident(rng, 2) for _ in range(5)]
        vals = {k: value(rng) if rng.random() < .8 else "x" * 2000 for k in keys}
        s = su.CachedDictStorage(mkp())
        for k in rng.sample(keys, rng.randrange(4)):
            s.persistent.set(k, vals[k]); log("pre", k)
        eff, dirty = {k: vals[k] for k in s.persistent.keys()}, set()
        pers = dict(eff)
        for _ in range(rng.randrange(4, 20)):
            o, k = rng.choice(["set", "set", "get", "exists", "drop", "commit", "clear", "clearall", "fresh"]), rng.choice(keys)
            log(o, k)
            if o == "set":
                if ov is None and rng.random() < .4:
                    vals[k] = value(rng)      # without write-once overflow, the last value wins
                s.set(k, vals[k]); eff[k] = vals[k]; dirty.add(k)
            elif o == "get":
                r = Raises(s.get, k)
                if k in eff:
                    check(r.exc is None, f"get raised {r.exc!r} for a stored key", "lost entry"); eq(r.value, eff[k], "get", "wrong value")
                else:
                    check(r.exc is not None, "get invented a value", "invented entry")
            elif o == "drop":
                s.drop(k); eff.pop(k, None); pers.pop(k, None); dirty.discard(k)
            elif o == "commit":
                c = db.conn() if rng.random() < .5 and not db.in_memory else None
                if c is not None:
                    with c:
                        s.commit(conn=c)
                    c.close()
                else:
                    s.commit()
                for q in dirty: pers[q] = eff[q]
                dirty = set()
            elif o == "clear":
                r = Raises(s.clear)
                eq(r.exc is not None, bool(dirty), "clear() refuses iff something is uncommitted", "clear")
            elif o == "clearall":
                s.clear(allow_uncommited=True); eff, dirty = dict(pers), set()
            elif o == "fresh" and not dirty:
                s = su.CachedDictStorage(mkp())
            for q in keys:
                eq(s.exists(q), q in eff, f"exists({q})", "lost or invented entry")
                eq(s.persistent.exists(q), q in pers, f"persisted({q})", "persistence")
                if q in pers:
                    eq(s.persistent.get(q), pers[q], f"persisted value of {q}", "persistence")
        for q in eff:
            eq(s.get(q), eff[q], f"final value of {q}", "wrong value")


@scenario(quick=90, thorough=1500, weight=1.5)
def call_cache(rng, log):
    with Scratch() as d:
        db = adapter(rng, d)
        p = su.SQLiteCallStorage(db, "calls")
        s = su.CachedCallStorage(p)
        cids = ["cc1", "cc2", "cc3", "cc4"]
        pool = {}
        for i in range(5):
            c = make_call(rng, hid=f"h{i}", cid=rng.choice(cids))
            pool[c.hid] = c
        pers, cache, dirty = {}, {}, set()
        for h in rng.sample(sorted(pool), rng.randrange(3)):
            p.save(call_record(pool[h])); pers[h] = pool[h]; log("pre", show(pool[h]))
        for _ in range(rng.randrange(4, 14)):
            o, h = rng.choice(["save", "save", "save", "drop", "commit", "clear", "clearall", "other"]), rng.choice(sorted(pool))
            log(o, show(pool[h]) if o in ("save", "other") else h)
            if o == "save":
                if h in cache or h in pers:
                    continue                          # only new calls are saved
                s.save(pool[h]); cache[h] = pool[h]; dirty.add(h)
            elif o == "drop":
                if h not in cache:
                    continue
                s.drop(h); cache.pop(h); dirty.discard(h)
            elif o == "commit":
                if rng.random() < .5:
                    s.commit()
                else:
                    c = db.conn()
                    with c:
                        s.commit(conn=c)
                    if not db.in_memory: c.close()
                for q in dirty: pers[q] = cache[q]
                dirty = set()
            elif o == "clear":
                r = Raises(s.clear)
                eq(r.exc is not None, bool(dirty), "clear() refuses iff something is uncommitted", "clear")
                if not dirty: cache = {}
            elif o == "clearall":
                s.clear(allow_uncommited=True); cache, dirty = {}, set()
            elif o == "other":                        # another session persists the same call
                if h not in pers:
                    p.save(call_record(pool[h])); pers[h] = pool[h]
            eff = {**pers, **cache}
            for q, c in pool.items():
                eq(s.exists(q), q in eff, f"exists({q})", "lost or invented call")
                eq(p.exists(q), q in pers, f"persisted({q})", "persistence")
                if q in eff:
                    eq(rec_norm(s.get_data(q)), call_record(c), f"get_data({q})", "wrong call data")
            for cid in cids:
                have = {q for q, c in eff.items() if c.cid == cid}
                eq(s.exists_content(cid), bool(have), f"exists_content({cid})", "content lookup")
                if have:
                    r = rec_norm(s.get_data_content(cid))
                    check(r["hid"] in have and r == call_record(eff[r["hid"]]), f"get_data_content({cid}) = {r}", "content lookup")
        s2 = su.CachedCallStorage(su.SQLiteCallStorage(db, "calls"))
        for q in pool:
            eq(s2.exists(q), q in pers, f"a new session: exists({q})", "persistence")


@scenario(quick=25, thorough=300, weight=1.2)
def storage_sessions(rng, log):
    """Storage-level: values and calls written in contexts, commits, cache clears and reopened sessions"""
    from mandala.storage import Storage
    from mandala.model import op
    with Scratch() as d:
        p = os.path.join(d, "s.db")
        runs = []
        @op
        def inc(x):
            runs.append(x)
            return x + 1
        st, done, refs = Storage(db_path=p), set(), {}
        for _ in range(rng.randrange(3, 9)):
            o = rng.choice(["run", "run", "run", "clear", "reopen", "unwrap"])
            x = rng.randrange(4)
            log(o, x)
            if o == "run":
                runs.clear()
                with st:
                    y = inc(x)
                eq(bool(runs), x not in done, f"body of inc({x}) ran", "memoization lost")
                done.add(x); refs[x] = y.hid
                eq(st.unwrap(y), x + 1, "result", "wrong value")
            elif o == "clear":
                st.clear_cache(allow_uncommitted=True)
            elif o == "reopen":
                st = Storage(db_path=p)
            elif refs:
                x = rng.choice(sorted(refs))
                eq(st.unwrap(st.load_ref(refs[x])), x + 1, f"load_ref of inc({x})", "wrong value")
