"""sequences of random calls saved to the in-memory and the SQLite call storage, read back through every reader"""
import os
from base import *
from world import *


@scenario(quick=120, thorough=2500, weight=1.5)
def roundtrip(rng, log):
    with Scratch() as d:
        refs = [ref(rng) for _ in range(4)]
        mem, sql = su.InMemCallStorage(), su.SQLiteCallStorage(adapter(rng, d), rng.choice(["calls", "t2"]))
        saved = {}
        for i in range(rng.randrange(1, 6)):
            c = make_call(rng, refs, hid=rng.choice([None, "hX"]), cid=rng.choice([None, "cX"]))
            if c.hid in saved:
                c = saved[c.hid]
            log(show(c))
            mem.save(c)
            sql.save(call_record(c))
            saved[c.hid] = c
            for s in (mem, sql):
                for h, c2 in saved.items():
                    eq(rec_norm(s.get_data(h)), call_record(c2), f"{type(s).__name__}.get_data({h})", "get_data")
                    eq(s.exists(h), True, f"{type(s).__name__}.exists({h})", "exists")
                    eq(s.exists_content(c2.cid), True, f"{type(s).__name__}.exists_content", "exists_content")
                    r = rec_norm(s.get_data_content(c2.cid))
                    check(r["hid"] in saved and r == call_record(saved[r["hid"]]) and r["cid"] == c2.cid, f"{type(s).__name__}.get_data_content({c2.cid}) = {r}", "get_data_content")
                eq(s.exists("nope"), False, "exists of a missing call", "exists")
                eq(s.exists_content("nope"), False, "exists_content of a missing call", "exists_content")
                order = rng.sample(sorted(saved), rng.randrange(1, len(saved) + 1))
                eq([rec_norm(x) for x in s.mget_data(order)], [call_record(saved[h]) for h in order], f"{type(s).__name__}.mget_data({order})", "mget_data")
            eq(len(mem), len(saved), "number of calls", "len")
        # dropping one leaves the others
        h = rng.choice(sorted(saved)); log("drop", h)
        mem.drop(h); sql.drop(h); saved.pop(h)
        for s in (mem, sql):
            eq(s.exists(h), False, f"{type(s).__name__}.exists after drop", "drop")
            for q, c2 in saved.items():
                eq(rec_norm(s.get_data(q)), call_record(c2), f"{type(s).__name__}.get_data({q}) after dropping {h}", "drop")
        # a preloaded cache answers like the database
        if saved:
            pre = su.InMemCallStorage(sql.get_df())
            for q, c2 in saved.items():
                eq(pre.exists(q), True, "preloaded exists", "preload")
                eq(rec_norm(pre.get_data(q)), call_record(c2), "preloaded get_data", "preload")


@scenario(quick=30, thorough=400)
def through_storage(rng, log):
    """calls made by ops come back as the same Call objects from the cache and from a new session"""
    from mandala.storage import Storage
    from mandala.model import op
    with Scratch() as d:
        p = os.path.join(d, "s.db")
        nout = rng.choice([1, 2, 3, 11])
        @op
        def f(x, y=2, *args, **kwargs):
            return tuple(range(nout)) if nout > 1 else x
        st = Storage(db_path=p)
        calls = {}
        with st:
            for _ in range(rng.randrange(1, 4)):
                a = (rng.randrange(3),) + tuple(rng.randrange(3) for _ in range(rng.randrange(3)))
                kw = {k: rng.randrange(3) for k in rng.sample(["p", "q"], rng.randrange(3))}
                log("f", a, kw)
                out = f(*a, **kw)
                out = out if isinstance(out, tuple) else (out,)
                h = out[0].hid
                data = next(st.calls.get_data(q) for q in st.calls.cache.call_hids if h in st.calls.get_data(q)["output_hids"].values())
                calls[data["hid"]] = data
                want = {"x", "y"} | {f"args_{i}" for i in range(max(0, len(a) - 2))} | set(kw)
                eq(set(data["input_hids"]), want, "recorded input names", "names")
                eq({k: v for k, v in data["output_hids"].items()}, {f"output_{i}": o.hid for i, o in enumerate(out)}, "recorded outputs", "outputs")
        for s in (st, Storage(db_path=p)):
            for h, data in calls.items():
                c = s.get_call(h, lazy=rng.random() < .5)
                got = call_record(c)
                eq(got, rec_norm(data), "call read back", "get_call")
