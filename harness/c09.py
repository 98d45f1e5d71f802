"""dropping calls and cleaning up refs over storages filled by ops: committed or not, shared refs, structs, dependents"""
import os
from base import *
from world import *
from mandala.storage import Storage
from mandala.model import op, MList, MDict


@op
def src(x): return x
@op
def inc(x): return x + 1
@op
def pair(a, b): return a, b
@op
def mk(n) -> MList[int]: return [i % 2 for i in range(n)]
@op
def total(xs: MList[int]) -> int: return sum(xs)
@op
def mkd(n) -> MDict[str, int]: return {f"k{i}": i for i in range(n)}
@op
def look(d: MDict[str, int]) -> int: return len(d)


def work(rng, log, st, pools, n):
    """run a few ops; pools: refs made so far by type"""
    for _ in range(n):
        k = rng.choice("sssiiippmmtddl")
        if k == "s": r = ("int", src(rng.randrange(3)))
        elif k == "i": r = ("int", inc(rng.choice(pools["int"]) if pools["int"] and rng.random() < .7 else rng.randrange(3)))
        elif k == "p":
            a, b = pair(*(rng.choice(pools["int"]) if pools["int"] else rng.randrange(3) for _ in "ab"))
            pools["int"] += [a, b]
            log("pair"); continue
        elif k == "m": r = ("list", mk(rng.randrange(4)))
        elif k == "t":
            if not pools["list"]: continue
            r = ("int", total(rng.choice(pools["list"])))
        elif k == "d": r = ("dict", mkd(rng.randrange(3)))
        else:
            if not pools["dict"]: continue
            r = ("int", look(rng.choice(pools["dict"])))
        pools[r[0]].append(r[1])
        log(k, r[1].hid[:4])


def rows(st, cache=True):
    """(call hid, name) -> (direction, ref hid, ref cid, op), as stored in the database and in the cache"""
    out = {}
    dfs = [st.calls.persistent.get_df().reset_index()] + ([st.calls.cache.df.reset_index()] if cache else [])
    for df in dfs:
        for r in df.to_dict("records"):
            out[(r["call_history_id"], r["name"])] = (r["direction"], r["ref_history_id"], r["ref_content_id"], r["op"], r["call_content_id"])
    return out


def dependents(tab, hs):
    hs = set(hs)
    while True:
        made = {t[1] for (h, n), t in tab.items() if h in hs and t[0] == "out"}
        more = hs | {h for (h, n), t in tab.items() if t[0] == "in" and t[1] in made}
        if more == hs:
            return hs
        hs = more


def values(st, tab):
    return {t[1]: st.unwrap(st.load_ref(t[1])) for t in tab.values()}


@scenario(quick=70, thorough=1500, weight=1.5)
def drop_calls(rng, log):
    with Scratch() as d:
        p = os.path.join(d, "s.db")
        st = Storage(db_path=p)
        pools = {"int": [], "list": [], "dict": []}
        with st:
            work(rng, log, st, pools, rng.randrange(1, 8))
        if rng.random() < .3:
            st.clear_cache(); log("clear_cache")
        inside = rng.random() < .5
        ctx = st if inside else contextlib.nullcontext()
        with ctx:
            if inside:
                log("in context"); work(rng, log, st, pools, rng.randrange(5))
            before = rows(st)
            vals = values(st, before) if rng.random() < .5 else None
            hs = sorted({h for h, _ in before})
            some = set(rng.sample(hs, min(len(hs), rng.randrange(4))))
            dep = rng.random() < .5
            want = dependents(before, some) if dep else some
            as_calls = rng.random() < .4
            given = [st.get_call(h, lazy=True) for h in sorted(some)] if as_calls else rng.choice([list, set, iter])(sorted(some))
            log("drop", sorted(h[:4] for h in some), "dependents" if dep else "", "calls" if as_calls else "")
            st.drop_calls(given, delete_dependents=dep)
            left = {k: v for k, v in before.items() if k[0] not in want}
            eq(rows(st), left, "calls left after dropping", "drop")
            for h in hs:
                eq(st.exists_call(h), h not in want, f"exists_call({h[:4]})", "exists")
        eq(rows(st), left, "calls left after the commit", "commit")
        st2 = Storage(db_path=p)
        eq(rows(st2), left, "calls left in a new session", "session")
        if vals:
            eq(values(st2, left), {h: v for h, v in vals.items() if h in {t[1] for t in left.values()}}, "values of the calls left", "values")


def live(st, hids, shapes):
    """refs mentioned by calls, and their elements, recursively"""
    todo, seen = list(hids), set()
    while todo:
        h = todo.pop()
        if h in seen: continue
        seen.add(h)
        s = shapes.get(h)
        if isinstance(s, ListRef): todo += [e.hid for e in s.obj]
        elif isinstance(s, DictRef): todo += [e.hid for e in s.obj.values()]
    return seen


@scenario(quick=70, thorough=1500, weight=1.5)
def cleanup(rng, log):
    with Scratch() as d:
        p = os.path.join(d, "s.db")
        kw = dict(overflow_dir=os.path.join(d, "of"), overflow_threshold_MB=rng.choice([0, 1])) if rng.random() < .3 else {}
        log(kw)
        st = Storage(db_path=p, **kw)
        pools = {"int": [], "list": [], "dict": []}
        with st:
            work(rng, log, st, pools, rng.randrange(1, 9))
        if rng.random() < .4:
            st.clear_cache(); log("clear_cache")
        if rng.random() < .5:
            log("read the values")      # reading a value that is not in memory marks it for saving again
            for h in sorted(st.shapes.persistent.keys()):
                ref = st.shapes.get(h)
                if isinstance(ref, AtomRef): st.unwrap(ref.detached())
        tab = rows(st)
        hs = sorted({h for h, _ in tab})
        plain = [h for h in hs if not any(k[0] == h and t[3].startswith("__make") for k, t in tab.items())]
        pick = plain if rng.random() < .7 else hs
        some = rng.sample(pick, min(len(pick), rng.randrange(5)))
        log("drop", [h[:4] for h in some])
        dep = rng.random() < .5
        st.drop_calls(some, delete_dependents=dep)
        tab = rows(st)
        vals = values(st, tab)
        shapes = {k: st.shapes.get(k) for k in st.shapes.persistent.keys()}
        atoms = {k: st.atoms.get(k) for k in st.atoms.persistent.keys()}
        if rng.random() < .3:
            st = Storage(db_path=p, **kw); log("new session")
        st.cleanup_refs()
        log("cleanup")
        alive = live(st, {t[1] for t in tab.values()}, shapes)
        eq(rows(st), tab, "calls after cleanup", "calls")
        for s in (st, Storage(db_path=p, **kw)):
            eq(set(s.shapes.persistent.keys()), set(shapes) & alive, "refs after cleanup", "refs")
            cids = {shapes[h].cid for h in shapes if h in alive}
            eq(set(s.atoms.persistent.keys()), set(atoms) & cids, "values after cleanup", "values")
            eq({h for h in shapes if s.shapes.exists(h)}, set(shapes) & alive, "refs found after cleanup", "refs")
            eq({c for c in atoms if s.atoms.exists(c)}, set(atoms) & cids, "values found after cleanup", "values")
            eq(values(s, tab), vals, "values of the stored calls", "readable")
        st.cleanup_refs()
        eq(set(st.shapes.persistent.keys()), set(shapes) & alive, "refs after a second cleanup", "refs")
        with st:
            work(rng, log, st, {"int": [], "list": [], "dict": []}, 3)
