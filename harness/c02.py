"""programs of generated ops over several sessions, commits, cache clears and failures; a body may run only for calls (by content) that were never completed"""
import os
from base import *
from world import *
from gen import *
from gen import _Ignore
from mandala.storage import Storage
from mandala.model import op, MList, MDict
import typing


class Boom(Exception):
    pass


@scenario(quick=120, thorough=2500, weight=2)
def sessions(rng, log):
    with Scratch() as d:
        p = os.path.join(d, "s.db")
        st = Storage(db_path=p)
        gens = [Gen(rng, log, rng.sample(VALUES, 4), name=n) for n in rng.sample(["f", "g", "h"], rng.randrange(1, 4))]
        done, hids = {}, {}
        pool = []                    # refs produced so far
        inside = False
        for _ in range(rng.randrange(3, 10)):
            a = rng.random()
            if a < .12:
                log("new session"); st = Storage(db_path=p); continue
            if a < .24:
                log("clear_cache"); st.clear_cache(); continue
            if a < .3:
                log("preload"); st.preload(lazy=rng.random() < .5); continue
            g = rng.choice(gens)
            val_of = {}

            def wrap(v):
                k = get_content_hash(v)
                same_c = [r for r in pool if r.cid == k]
                if same_c and rng.random() < .8:
                    r = rng.choice(same_c)
                    return r if rng.random() < .6 else r.detached()
                return wrap_atom(v) if rng.random() < .2 else v
            # values produced by ops can be used as arguments too
            g.values = g.values[:4] + [r.value for r in rng.sample(pool, min(3, len(pool)))]
            batch = [g.args(wrap=wrap) for _ in range(rng.choice([1, 1, 2, 3]))]
            with st:
                for args, kw, body, key in batch:
                    n = len(g.seen)
                    log(g.name, key)
                    r = outs(g.op(*args, **kw))
                    ran = len(g.seen) - n
                    eq(ran, 0 if key in done else 1, f"executions of {g.name} for {'a stored' if key in done else 'a new'} call", "executions")
                    vals = [st.unwrap(o) for o in r]
                    if key not in done:
                        done[key] = vals
                        want = outs(g.fn(**{k: v for k, v in body.items() if k not in ("args", "kwargs")}, **body.get("kwargs", {}))) if not body.get("args") and not any(k == "P" for _, k, _ in g.params) else vals
                        eq(vals, list(want), "values of a new call", "values")
                    eq(vals, done[key], "values returned", "values")
                    eq([type(o) for o in r], [AtomRef] * len(r), "types returned", "values")
                    eq([o.cid for o in r], [get_content_hash(v) for v in vals], "content ids returned", "values")
                    for o, v in zip(r, vals):
                        if o.hid not in hids:
                            o.value = v
                            pool.append(o)
                        eq(hids.setdefault(o.hid, v), v, "one history id, one value", "values")
            g.seen.clear()


@scenario(quick=80, thorough=1200)
def failures(rng, log):
    """a body that raises stores nothing and runs again; calls around it are unaffected"""
    with Scratch() as d:
        st = Storage(db_path=os.path.join(d, "s.db") if rng.random() < .6 else ":memory:")
        runs = []
        bad = set(rng.sample(range(5), 2))
        @op
        def f(x):
            runs.append(x)
            if x in bad: raise Boom(x)
            return x + 100
        done = set()
        for _ in range(rng.randrange(2, 7)):
            x = rng.randrange(5)
            if rng.random() < .2:
                y = rng.choice(sorted(bad) or [9]); bad.discard(y); log("repaired", y)
            n = len(runs)
            log("f", x)
            def go():
                with st:
                    r = f(x)
                    if rng.random() < .15:
                        raise Boom("after")
                    return r
            r = Raises(go)
            eq(len(runs) - n, 0 if x in done else 1, f"executions of f({x})", "executions")
            if x in bad and x not in done:
                check(isinstance(r.exc, Boom), f"the body's exception became {r.exc!r}", "exception")
            else:
                done.add(x)
                check(r.exc is None or r.exc.args == ("after",), f"unexpected {r.exc!r}", "exception")
            eq(len(st.call_storage.get_df().reset_index()["call_history_id"].unique()) if done else 0, len(done), "stored calls", "stored")
            if rng.random() < .3: st.clear_cache()


@scenario(quick=80, thorough=1200)
def by_content(rng, log):
    """the same value obtained in different ways is the same argument; the recalled call and its outputs belong to the caller's history"""
    with Scratch() as d:
        p = os.path.join(d, "s.db")
        st = Storage(db_path=p)
        runs = []
        @op
        def src(tag, v): runs.append(("src", tag)); return v
        @op
        def f(x, y): runs.append(("f", x, y)); return x * 10 + y, (x, y)
        tags = [f"t{i}" for i in range(rng.randrange(2, 4))]
        seen = set()
        out = {}
        for _ in range(rng.randrange(2, 7)):
            if rng.random() < .3: st.clear_cache()
            if rng.random() < .2: st = Storage(db_path=p)
            t, u = rng.choice(tags), rng.choice(tags)
            a, b = rng.randrange(2), rng.randrange(2)
            log(t, a, u, b)
            with st:
                x, y = src(t, a), src(u, b)
                n = len(runs)
                r = f(x, y)
                vals = st.unwrap(r)
            eq(len(runs) - n, 0 if (a, b) in seen else 1, f"executions of f({a}, {b})", "executions")
            seen.add((a, b))
            eq(vals, (a * 10 + b, (a, b)), "values", "values")
            key = (x.hid, y.hid)
            h = tuple(o.hid for o in r)
            eq(out.setdefault(key, h), h, "output history ids for the same input history", "hids")
            for k2, h2 in out.items():
                eq(h2 == h, k2 == key, "output history ids of different input histories", "hids")
            c = st.get_ref_creator(r[0])
            check(c is not None and (c.inputs["x"].hid, c.inputs["y"].hid) == key, f"the creator of the output is recorded as {c} {c and c.inputs}", "provenance")
            eq(c.hid, f.get_call_history_id({"x": x, "y": y}), "history id of the recorded call", "provenance")
            for o, v in zip(r, (a * 10 + b, (a, b))):
                eq(st.load_ref(o.hid).obj, v, "stored value under the new history id", "provenance")


@scenario(quick=60, thorough=900)
def structs(rng, log):
    """ops over lists and dicts, elements passed on to other ops, across sessions"""
    with Scratch() as d:
        p = os.path.join(d, "s.db")
        st = Storage(db_path=p)
        runs = []
        @op
        def mk(n, t) -> MList[int]: runs.append(("mk", n)); return [i % 2 for i in range(n)]
        @op
        def mk2(n) -> MList[MList[int]]: runs.append(("mk2", n)); return [[i, i + 1] for i in range(n)]
        @op
        def mkd(n) -> MDict[str, int]: runs.append(("mkd", n)); return {f"k{i}": i for i in range(n)}
        @op
        def total(xs: MList[int]) -> int: runs.append(("total", tuple(xs))); return sum(xs)
        @op
        def look(d: MDict[str, int], k): runs.append(("look", tuple(sorted(d.items())), k)); return d[k]
        @op
        def inc(x): runs.append(("inc", x)); return x + 1
        seen = set()

        def call(key, f, *a):
            n = len(runs)
            r = f(*a)
            eq([runs[-1]] if len(runs) > n else [], [] if key in seen else [key], f"executions of {key}", "executions")
            seen.add(key)
            return r
        for _ in range(rng.randrange(1, 6)):
            if rng.random() < .3: st = Storage(db_path=p)
            if rng.random() < .3: st.clear_cache()
            n = rng.choice([0, 1, 2, 3, 11])
            k = rng.randrange(4)
            log(k, n)
            with st:
                if k == 0:
                    t = rng.randrange(2)
                    n0 = len(runs); l = mk(n, t); 
                    eq(len(runs) - n0, 0 if ("mk", n, t) in seen else 1, "executions of mk", "executions"); seen.add(("mk", n, t))
                    eq(st.unwrap(l), [i % 2 for i in range(n)], "list", "values")
                    s = call(("total", tuple(i % 2 for i in range(n))), total, l if rng.random() < .6 else [i % 2 for i in range(n)])
                    eq(st.unwrap(s), n // 2, "sum", "values")
                    if n:
                        i = rng.randrange(n)
                        e = call(("inc", i % 2), inc, l[i])
                        eq(st.unwrap(e), i % 2 + 1, "item passed on", "values")
                elif k == 1:
                    l = call(("mk2", n), mk2, n)
                    eq(st.unwrap(l), [[i, i + 1] for i in range(n)], "nested list", "values")
                    if n:
                        s = call(("total", (n - 1, n)), total, l[n - 1])
                        eq(st.unwrap(s), 2 * n - 1, "sum of a nested item", "values")
                elif k == 2:
                    q = call(("mkd", n), mkd, n)
                    eq(st.unwrap(q), {f"k{i}": i for i in range(n)}, "dict", "values")
                    if n:
                        i = rng.randrange(n)
                        eq(st.unwrap(call(("look", tuple(sorted({f"k{j}": j for j in range(n)}.items())), f"k{i}"), look, q, f"k{i}")), i, "look-up", "values")
                else:
                    xs = [inc(i) if rng.random() < .5 else i + 1 for i in range(n % 4)]
                    for i, x in enumerate(xs):
                        if isinstance(x, Ref): seen.add(("inc", i))
                    del runs[:]
                    v = tuple(i + 1 for i in range(n % 4))
                    eq(st.unwrap(call(("total", v), total, xs)), sum(v), "list of refs and values", "values")


@scenario(quick=60, thorough=900)
def writes(rng, log):
    """saving a call makes it and its refs findable and touches nothing else"""
    st = Storage()
    calls = {}
    refs = [wrap_atom(value(rng, 1)) for _ in range(4)]
    for _ in range(rng.randrange(1, 6)):
        c = make_call(rng, refs)
        for r in [*c.inputs.values(), *c.outputs.values()]:
            if r.hid not in {q.hid for q in refs}:
                r.cid = get_content_hash(r.hid); r.obj, r.in_memory = r.hid, True
        log(show(c))
        snap = {h: rec_norm(st.calls.get_data(h)) for h in calls}
        st.save_call(c)
        st.save_call(c)              # again: no effect
        calls[c.hid] = c
        for h, v in snap.items():
            eq(rec_norm(st.calls.get_data(h)), v, f"another call after saving {c.hid}", "others")
        if rng.random() < .4:
            st.commit()
            if rng.random() < .5: st.clear_cache()
        for h, q in calls.items():
            check(st.exists_call(h), f"saved call {h} not found", "found")
            g = st.get_call(h, lazy=rng.random() < .5)
            eq(call_record(g), call_record(q), "saved call read back", "found")
            for n, r in [*q.inputs.items(), *q.outputs.items()]:
                eq(st.load_ref(r.hid).obj, next(x for x in [*refs, *q.inputs.values(), *q.outputs.values()] if x.hid == r.hid).obj, f"value of {n}", "found")
        eq(len(st.calls.cache.call_hids | set(st.call_storage.get_df().reset_index()["call_history_id"])), len(calls), "number of calls", "others")


@scenario(quick=3, thorough=6)
def star_args_alias(rng, log):
    """a keyword named like a position of *args"""
    st = Storage()
    seen = []
    @op
    def f(*args, **kwargs): seen.append((args, kwargs)); return (args, kwargs)
    log("f(1)", "f(args_0=1)")
    with st:
        a = f(1, 5); b = f(args_0=1, args_1=5)
    eq(len(seen), 2, "executions of f(1, 5) and f(args_0=1, args_1=5)", "star_args_alias")


@scenario(quick=3, thorough=6)
def pointer_alias(rng, log):
    """a ValuePointer and the string equal to its id"""
    from mandala.model import ValuePointer
    st = Storage()
    seen = []
    @op
    def f(x): seen.append(x); return 1
    log("f(ValuePointer('m', 3))", "f('m')")
    with st:
        f(ValuePointer("m", 3)); f("m")
    eq(len(seen), 2, "executions of f(ValuePointer('m', 3)) and f('m')", "pointer_alias")


@scenario(quick=3, thorough=6)
def posonly_kw_alias(rng, log):
    """a keyword that ends up in **kwargs and is named like a positional-only parameter"""
    st = Storage()
    seen = []
    @op
    def f(a, /, **kw): seen.append((a, kw)); return (a, kw)
    log("f(1, a=2)", "f(3, a=2)")
    with st:
        f(1, a=2); f(3, a=2)
    eq(len(seen), 2, "executions of f(1, a=2) and f(3, a=2)", "posonly_kw_alias")


@scenario(quick=3, thorough=6)
def star_param_alias(rng, log):
    """a parameter named like a position of *args"""
    st = Storage()
    seen = []
    @op
    def f(args_0, *args): seen.append((args_0, args)); return 1
    log("f(1, 2)", "f(3, 2)")
    with st:
        f(1, 2); f(3, 2)
    eq(len(seen), 2, "executions of f(1, 2) and f(3, 2)", "star_param_alias")
