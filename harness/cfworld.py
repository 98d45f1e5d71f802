"""Computation frames over small random call graphs: generation, well-formedness, snapshots (shared by C11-C14)."""
import contextlib
from base import *
from mandala.storage import Storage
from mandala.model import op, MList, Ref, Call
from mandala.cf import ComputationFrame as CF


@op
def inc(x): return x + 1
@op
def add(x, y): return x + y
@op
def pair(a, b): return a, b
@op
def mk(n) -> MList[int]: return [i % 3 for i in range(n % 4)]
@op
def total(xs: MList[int]) -> int: return sum(xs)
@op
def x(inc): return -inc
@op
def opt(a, y=None, z=7): return (a, y, z).__hash__() % 97


OPS = [inc, add, pair, mk, total, x, opt]


def fill(rng, log, st, n):
    """a random call graph; -> all refs made, by kind"""
    ints, lists = [], []
    pick = lambda: rng.choice(ints) if ints and rng.random() < .75 else rng.randrange(4)
    with st:
        for _ in range(n):
            k = rng.choice(["inc", "inc", "add", "add", "pair", "mk", "total", "x", "opt"])
            if k == "inc": ints.append(inc(pick()))
            elif k == "add": ints.append(add(pick(), pick()))
            elif k == "pair": ints.extend(pair(pick(), pick()))
            elif k == "mk": lists.append(mk(pick()))
            elif k == "total":
                if not lists: continue
                ints.append(total(rng.choice(lists)))
            elif k == "x": ints.append(x(pick()))
            else: ints.append(opt(pick(), **({"y": pick()} if rng.random() < .5 else {})))
            log(k)
    return ints, lists


def label(call, name):
    return "elts" if call.op.name == "__make_list__" and name.startswith("elts_") else name


def start(rng, log, st, ints, lists):
    k = rng.choice(["op", "op", "refs", "vars"])
    if k == "op":
        f = rng.choice([o for o in OPS])
        log("cf", f.name)
        return st.cf(f)
    some = lambda: rng.sample(ints, rng.randrange(1, min(4, len(ints)) + 1)) if ints and (not lists or rng.random() < .8) else [rng.choice(lists)]
    dedup = lambda rs: list({r.hid: r for r in rs}.values())
    if not ints and not lists:
        log("cf", "inc"); return st.cf(inc)
    if k == "refs":
        rs = dedup(some())
        log("cf refs", [r.hid[:4] for r in rs])
        return st.cf(rs)
    vs = {f"v{i}": dedup(some()) for i in range(rng.randrange(1, 4))}
    log("cf vars", {v: [r.hid[:4] for r in rs] for v, rs in vs.items()})
    return CF.from_vars(st, vs)


def edges(cf):
    return {(s, d, l) for s, ls in cf.out.items() for l, ds in ls.items() for d in ds}


def cyclic(cf):
    left = {(s, d) for s, d, _ in edges(cf)}
    while True:
        more = {(s, d) for s, d in left if any(e == s for _, e in left)}
        if more == left: return bool(left)
        left = more


def wf(cf, what, restricted=False):
    """the redundant indexes of the frame agree"""
    vs, fs = cf.vs, cf.fs
    check(not set(vs) & set(fs), f"{what}: variable and function node of one name: {set(vs) & set(fs)}", "names")
    nodes = set(vs) | set(fs)
    eq(set(cf.inp), nodes, f"{what}: nodes with in-edges recorded", "nodes")
    eq(set(cf.out), nodes, f"{what}: nodes with out-edges recorded", "nodes")
    es = edges(cf)
    eq({(s, d, l) for d, ls in cf.inp.items() for l, ss in ls.items() for s in ss}, es, f"{what}: edges of inp against out", "edges")
    for s, d, l in es:
        check((s in vs and d in fs) or (s in fs and d in vs), f"{what}: edge {s}->{d} does not join a variable and a function", "edges")
    for adj in (cf.inp, cf.out):
        for n, ls in adj.items():
            check(all(ls.values()), f"{what}: an edge label of {n} without edges: {ls}", "labels")
    inv = lambda m: {(e, n) for n, es in m.items() for e in es}
    flat = lambda m: {(e, n) for e, ns in m.items() for n in ns}
    eq(flat(cf.refinv), inv(vs), f"{what}: refs indexed by variable", "refinv")
    eq(flat(cf.callinv), inv(fs), f"{what}: calls indexed by function", "callinv")
    eq(set(cf.refs), {e for e, _ in inv(vs)}, f"{what}: refs registered", "refs")
    eq(set(cf.calls), {e for e, _ in inv(fs)}, f"{what}: calls registered", "calls")
    eq(set(cf.refinv), set(cf.refs), f"{what}: refs with an index entry", "refinv")
    eq(set(cf.callinv), set(cf.calls), f"{what}: calls with an index entry", "callinv")
    for h, r in cf.refs.items():
        check(isinstance(r, Ref) and r.hid == h, f"{what}: ref {h} registered under another id", "refs")
    for h, c in cf.calls.items():
        check(isinstance(c, Call) and c.hid == h, f"{what}: call {h} registered under another id", "calls")
    for r, c in cf.creator.items():
        check(r in cf.refs and c in cf.calls, f"{what}: creator of {r} is {c}: not in the frame", "creator")
        check(r in {o.hid for o in cf.calls[c].outputs.values()}, f"{what}: {c} does not create {r}", "creator")
    for r, cs in cf.consumers.items():
        check(r in cf.refs and all(c in cf.calls for c in cs), f"{what}: consumers of {r} are {cs}: not in the frame", "consumers")
        for c in cs:
            check(r in {i.hid for i in cf.calls[c].inputs.values()}, f"{what}: {c} does not consume {r}", "consumers")
    for f, hs in fs.items():
        for h in hs:
            c = cf.calls[h]
            for n, r in c.inputs.items():
                for v in cf.inp[f].get(label(c, n), ()):
                    # known finding: reachability accepts an input found in any one of several variables of its label, and calls of a cycle or (weak) of any reached input
                    part = restricted and (cyclic(cf) or "weak" in what or any(r.hid in vs[w] for w in cf.inp[f][label(c, n)]))
                    check(r.hid in vs[v], f"{what}: input {n} of {h} is not in variable {v}", {"isin": "adjacent_calls", "difference": "difference_calls"}[restricted] if restricted in ("isin", "difference") else "partial_label" if part else "call refs")
                    check(h in cf.consumers.get(r.hid, ()), f"{what}: {h} is not recorded as a consumer of its input {n}", "consumers")
            for n, r in c.outputs.items():
                for v in cf.out[f].get(label(c, n), ()):
                    part = restricted and (cyclic(cf) or "weak" in what or any(r.hid in vs[w] for w in cf.out[f][label(c, n)]))
                    check(r.hid in vs[v], f"{what}: output {n} of {h} is not in variable {v}", {"isin": "adjacent_calls", "difference": "difference_calls"}[restricted] if restricted in ("isin", "difference") else "partial_label" if part else "call refs")
                    check(cf.creator.get(r.hid) == h, f"{what}: {h} is not recorded as the creator of its output {n}", "creator")


def _cp(v):
    return {k: _cp(w) for k, w in v.items()} if isinstance(v, dict) else set(v) if isinstance(v, set) else v


FIELDS = ["inp", "out", "vs", "fs", "refinv", "callinv", "creator", "consumers", "refs", "calls"]


def snap(cf):
    return {f: _cp(getattr(cf, f)) for f in FIELDS}


def same(cf, s, what):
    for f in FIELDS:
        g = getattr(cf, f)
        check(g == s[f], lambda: f"{what}: {f} changed from {s[f]} to {g}", "mutated")


def mutables(cf):
    out = {}
    def go(v, where):
        if isinstance(v, (dict, set)):
            out[id(v)] = (where, v)
            if isinstance(v, dict):
                for k, w in v.items(): go(w, f"{where}[{k!r}]")
    for f in FIELDS:
        go(getattr(cf, f), f)
    return out


def separate(a, b, what):
    ma, mb = mutables(a), mutables(b)
    for i in ma.keys() & mb.keys():
        raise Violation(f"{what}: {ma[i][0]} of the operand is the same object as {mb[i][0]} of the result", "shared")


def subsets(rng, cf):
    """a selection of elements in each node that leaves the frame well-formed: calls kept only with the refs they connect to"""
    vs = {v: set(h for h in sorted(hs) if rng.random() < .75) for v, hs in cf.vs.items()}
    ok = lambda f, h: all(r.hid in vs[v] for io, adj in ((cf.calls[h].inputs, cf.inp), (cf.calls[h].outputs, cf.out)) for n, r in io.items() for v in adj[f].get(label(cf.calls[h], n), ()))
    return {**vs, **{f: {h for h in hs if ok(f, h) and rng.random() < .9} for f, hs in cf.fs.items()}}


def expand(rng, log, cf, inplace=False):
    k = rng.choice(["expand_back", "expand_forward", "expand_all"])
    kw = {} if k == "expand_all" else dict(recursive=rng.random() < .5)
    if rng.random() < .2: kw["skip_existing"] = True
    if rng.random() < .3: kw["reuse_existing"] = False
    if k != "expand_all" and cf.vs and rng.random() < .3:
        kw["varnames"] = set(rng.sample(sorted(cf.vs), rng.randrange(1, len(cf.vs) + 1)))
    log(k, kw)
    try:
        r = getattr(cf, k)(inplace=inplace, **kw)
    except NotImplementedError as e:
        if "empty function nodes" in str(e): raise Skip()       # documented as not supported
        raise
    return (cf if inplace else r), k, kw
