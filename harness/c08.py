"""provenance queries over random call tables (shared refs, cycles, several creators) and over storages filled by ops"""
import os
from base import *
from world import *


def fill(rng, log, d):
    nref = rng.randrange(1, 7)
    refs = [ref(rng, hid=f"h{i}") for i in range(nref)]
    mem, sql = su.InMemCallStorage(), su.SQLiteCallStorage(adapter(rng, d), "calls")
    calls = {}
    for i in range(rng.randrange(0, 8)):
        c = make_call(rng, refs, hid=f"k{i}")
        if rng.random() < .7:       # mostly draw from the shared refs so that chains appear
            c.inputs = {n: rng.choice(refs) for n in c.inputs}
            c.outputs = {n: rng.choice(refs) for n in c.outputs}
        log(show(c))
        calls[c.hid] = c
        mem.save(c)
        sql.save(call_record(c))
    return calls, refs, mem, sql


def closure(calls, R, C, back):
    R, C = set(R), set(C)
    while True:
        r2, c2 = set(R), set(C)
        for h, c in calls.items():
            made = c.outputs if back else c.inputs
            need = c.inputs if back else c.outputs
            if any(v.hid in R for v in made.values()):
                c2.add(h)
            if h in C:
                r2 |= {v.hid for v in need.values()}
        if (r2, c2) == (R, C):
            return R, C
        R, C = r2, c2


@scenario(quick=150, thorough=3000, weight=1.5)
def tables(rng, log):
    with Scratch() as d:
        calls, refs, mem, sql = fill(rng, log, d)
        allr = sorted({v.hid for c in calls.values() for v in [*c.inputs.values(), *c.outputs.values()]} | {r.hid for r in refs} | {"nope"})
        allc = sorted(calls) + ["nocall"]
        for _ in range(3):
            R = set(rng.sample(allr, rng.randrange(len(allr) + 1)))
            C = set(rng.sample(allc, rng.randrange(len(allc) + 1)))
            log("query", sorted(R), sorted(C))
            kind = rng.choice([set, list])
            for s in (mem, sql):
                n = type(s).__name__
                eq(s.get_creator_hids(kind(R)), {h for h, c in calls.items() if any(v.hid in R for v in c.outputs.values())}, f"{n}.get_creator_hids({sorted(R)})", "creators")
                eq(s.get_consumer_hids(kind(R)), {h for h, c in calls.items() if any(v.hid in R for v in c.inputs.values())}, f"{n}.get_consumer_hids({sorted(R)})", "consumers")
                eq(s.get_input_hids(kind(C)), {v.hid for h, c in calls.items() if h in C for v in c.inputs.values()}, f"{n}.get_input_hids({sorted(C)})", "inputs")
                eq(s.get_output_hids(kind(C)), {v.hid for h, c in calls.items() if h in C for v in c.outputs.values()}, f"{n}.get_output_hids({sorted(C)})", "outputs")
                eq(s.get_dependencies(ref_hids=kind(R), call_hids=kind(C)), closure(calls, R, C, True), f"{n}.get_dependencies({sorted(R)}, {sorted(C)})", "dependencies")
                eq(s.get_dependents(ref_hids=kind(R), call_hids=kind(C)), closure(calls, R, C, False), f"{n}.get_dependents({sorted(R)}, {sorted(C)})", "dependents")


@scenario(quick=30, thorough=400)
def through_storage(rng, log):
    from mandala.storage import Storage
    from mandala.model import op
    with Scratch() as d:
        st = Storage(db_path=os.path.join(d, "s.db") if rng.random() < .5 else ":memory:")
        @op
        def inc(x): return x + 1
        @op
        def pair(a, b): return a, b
        made, used = {}, {}
        pool = []
        with st:
            for _ in range(rng.randrange(1, 6)):
                if pool and rng.random() < .5:
                    a, b = rng.choice(pool), rng.choice(pool)
                    outs, f, ins = pair(a, b), "pair", [a, b]
                else:
                    a = rng.choice(pool) if pool and rng.random() < .6 else rng.randrange(3)
                    outs, f, ins = (inc(a),), "inc", [a]
                for o in outs:
                    made.setdefault(o.hid, set()).add((f, tuple(x.hid for x in outs)))
                for i in ins:
                    if isinstance(i, Ref):
                        used.setdefault(i.hid, set()).add((f, tuple(x.hid for x in outs)))
                pool += [o for o in outs if o.hid not in {p.hid for p in pool}]
                log(f, [getattr(i, "hid", i)[:4] if isinstance(i, Ref) else i for i in ins])
        if rng.random() < .3:
            st.clear_cache()
        key = lambda c: (c.op.name, tuple(o.hid for o in c.op.get_ordered_outputs(c.outputs)))
        for o in pool:
            eq({key(c) for c in st.get_creators([o.hid])}, made[o.hid], "get_creators", "get_creators")
            eq({key(c) for c in st.get_consumers([o.hid])}, used.get(o.hid, set()), "get_consumers", "get_consumers")
            c = st.get_ref_creator(o)
            check(c is not None and key(c) in made[o.hid], f"get_ref_creator({o.hid}) = {c}", "get_ref_creator")
        src = wrap_atom("no such value")
        eq(st.get_ref_creator(src), None, "creator of an unknown ref", "get_ref_creator")
