"""pairs of calls over a small pool of names, ids, ops and versions: their ids agree exactly when what was called agrees"""
from base import *
from world import *
from mandala.storage import Storage
from mandala.model import op, Ignore, _Ignore, _NewArgDefault


def draw(rng):
    names = rng.sample(["x", "y", "elts_0", "elts_1", "elts_10", "a"], rng.randrange(0, 5))
    ins = {}
    for n in names:
        obj = _Ignore(3) if rng.random() < .12 else _NewArgDefault(3) if rng.random() < .08 else rng.choice([None, 5, "s"])
        ins[n] = AtomRef(cid=rng.choice(["c1", "c2", "c3"]), hid=rng.choice(["h1", "h2", "h3"]), in_memory=rng.random() < .5, obj=obj)
    o = Op(rng.choice(["f", "g"]), None, version=rng.choice([0, 0, 1]), output_names=rng.choice([None, ["r"]]), nout=rng.choice(["auto", 1]))
    return o, ins, rng.choice([None, None, "v1", "v2"])


def mutate(rng, o, ins, v):
    ins = dict(ins)
    k = rng.randrange(9)
    if k == 0 and ins: ins = {n: ins[n] for n in rng.sample(list(ins), len(ins))}
    if k == 1 and ins:
        n = rng.choice(list(ins)); r = ins[n]; ins[n] = AtomRef(cid=r.cid, hid=rng.choice(["h1", "h2", "h3"]), in_memory=True, obj=r.obj)
    if k == 2 and ins:
        n = rng.choice(list(ins)); r = ins[n]; ins[n] = AtomRef(cid=rng.choice(["c1", "c2", "c3"]), hid=r.hid, in_memory=True, obj=r.obj)
    if k == 3 and ins: ins[rng.choice(["x", "y", "elts_1", "b"])] = ins.pop(rng.choice(list(ins)))
    if k == 4: ins[rng.choice(["x", "q"])] = AtomRef(cid="c1", hid="h1", in_memory=True, obj=_Ignore(rng.randrange(3)))
    if k == 5: v = rng.choice([None, "v1", "v2"])
    if k == 6 and len(ins) > 1:
        a, b = rng.sample(list(ins), 2); ins[a], ins[b] = ins[b], ins[a]
    if k == 7: o = Op(o.name, None, version=1 - o.version, output_names=o.output_names, nout=o.nout)
    if k == 8: o = Op(rng.choice(["f", "g", "h"]), None, version=o.version, output_names=o.output_names, nout=o.nout)
    return o, ins, v


@scenario(quick=600, thorough=12000)
def pairs(rng, log):
    a = draw(rng)
    b = mutate(rng, *a) if rng.random() < .75 else draw(rng)
    log(*[(o.name, o.version, {n: (r.cid, r.hid, type(r.obj).__name__) for n, r in i.items()}, v) for o, i, v in (a, b)])
    vis = lambda i, f: {n: f(r) for n, r in i.items() if not isinstance(r.obj, _Ignore)}
    base = (a[0].name, a[0].version) == (b[0].name, b[0].version)
    h = base and a[2] == b[2] and vis(a[1], lambda r: r.hid) == vis(b[1], lambda r: r.hid)
    c = base and a[2] == b[2] and vis(a[1], lambda r: r.cid) == vis(b[1], lambda r: r.cid)
    p = a[0].name == b[0].name and vis(a[1], lambda r: r.cid) == vis(b[1], lambda r: r.cid)
    H = [o.get_call_history_id(i, semantic_version=v) for o, i, v in (a, b)]
    C = [o.get_call_content_id(i, semantic_version=v) for o, i, v in (a, b)]
    P = [o.get_pre_call_id(i) for o, i, v in (a, b)]
    eq(H[0] == H[1], h, "equal history ids", "history_id")
    eq(C[0] == C[1], c, "equal content ids", "content_id")
    eq(P[0] == P[1], p, "equal pre-call ids", "pre_call_id")
    ns = [rng.sample(["output_0", "output_1", "output_10", "r", "0"], rng.randrange(1, 4)) for _ in range(2)]
    O = [a[0].get_output_history_ids(x, list(n)) for x, n in zip(H, ns)]
    for d, n in zip(O, ns):
        eq(list(d), n, "names with output ids", "output_ids")
    for n in O[0]:
        for m in O[1]:
            eq(O[0][n] == O[1][m], H[0] == H[1] and n == m, f"equal output ids of {n} and {m}", "output_ids")


@scenario(quick=60, thorough=900)
def recorded(rng, log):
    """the ids a storage records for a call are those of the op and inputs, whatever way the arguments were passed"""
    @op
    def f(x, y, z=3, *, k=None): return (x, y)
    @op
    def g(x, y, z=3, *, k=None): return (x, y)
    st = Storage()
    seen = {}
    with st:
        for _ in range(rng.randrange(2, 7)):
            o = rng.choice([f, g])
            x, y, z, k = (rng.choice([1, 2, "1"]) for _ in range(4))
            ig = rng.random() < .3
            how = rng.randrange(4)
            zz = Ignore(z) if ig else z
            r = [lambda: o(x, y, zz, k=k), lambda: o(k=k, z=zz, y=y, x=x), lambda: o(x, z=zz, k=k, y=y), lambda: o(wrap_atom(x), y, zz, k=wrap_atom(k))][how]()
            key = (o.name, repr(x), repr(y), None if ig else repr(z), repr(k))
            log(how, key)
            hid = {v: kk for kk, v in ((kk, q) for kk, q in seen.items())}
            ids = tuple(q.hid for q in r)
            for k2, ids2 in seen.items():
                eq(ids == ids2, key == k2, f"same output ids for calls {key} and {k2}", "recorded")
            seen[key] = ids
            c = next(st.calls.get_data(q) for q in st.calls.cache.call_hids if r[0].hid in st.calls.get_data(q)["output_hids"].values())
            ins = {n: AtomRef(cid=c["input_cids"][n], hid=c["input_hids"][n], in_memory=False, obj=None) for n in c["input_hids"]}
            eq(set(ins), {"x", "y", "k"} | (set() if ig else {"z"}), "recorded inputs", "recorded")
            eq((c["hid"], c["cid"]), (o.get_call_history_id(ins), o.get_call_content_id(ins)), "recorded ids", "recorded")
            eq(c["output_hids"], o.get_output_history_ids(c["hid"], list(c["output_hids"])), "recorded output ids", "recorded")
            for n, v in (("x", x), ("y", y), ("k", k)):
                eq(c["input_cids"][n], get_content_hash(v), f"content id of input {n}", "recorded")


@scenario(quick=150, thorough=3000)
def hashing(rng, log):
    """content hashes agree exactly on equal contents"""
    import copy, pickle
    a = value(rng, 3)
    b = copy.deepcopy(a) if rng.random() < .4 else pickle.loads(pickle.dumps(a)) if rng.random() < .3 else value(rng, 3)
    log(repr(a), repr(b))
    ty = lambda x: (type(x).__name__, tuple(map(ty, x)) if isinstance(x, (list, tuple)) else frozenset((k, ty(v)) for k, v in x.items()) if isinstance(x, dict) else repr(x))
    eq(get_content_hash(a) == get_content_hash(b), ty(a) == ty(b), "equal hashes", "hash")
    if isinstance(a, dict):
        eq(get_content_hash({k: a[k] for k in rng.sample(list(a), len(a))}), get_content_hash(a), "hash of a reordered dict", "hash")
