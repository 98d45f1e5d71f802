"""the indexes of a computation frame agree after every operation, over frames of random call graphs"""
from cfworld import *


def step(rng, log, st, cf):
    """one operation on the frame; -> the frame to go on with"""
    V, F, N = sorted(cf.vs), sorted(cf.fs), sorted(cf.nodes)
    inpl = rng.random() < .5
    def ret(name, *a, **k):
        log(name, *a, k, "inplace" if inpl else "")
        r = getattr(cf, name)(*a, inplace=inpl, **k)
        check((r is None) == inpl, f"{name} returned {type(r).__name__} with inplace={inpl}", "inplace")
        return cf if inpl else r
    k = rng.choice(["expand"] * 4 + ["drop_var", "drop_func", "drop_node", "drop", "rename_var", "select", "subsets", "cleanup", "merge_vars", "unreachable", "union", "inter", "sub", "stream", "add_ref", "drop_ref", "add_call", "move", "copy", "isin", "merge_into", "addvar", "simplify", "drop_call"])
    if k == "expand": return expand(rng, log, cf, inpl)[0]
    if k == "drop_var" and V: return ret("drop_var", rng.choice(V))
    if k == "drop_func" and F: return ret("drop_func", rng.choice(F))
    if k == "drop_node" and N: return ret("drop_node", rng.choice(N))
    if k == "drop" and N: return ret("drop", rng.sample(N, rng.randrange(min(3, len(N)) + 1)))
    if k == "rename_var" and V:
        return ret("rename_var", rng.choice(V), "r" + str(rng.randrange(1000, 9999)))
    if k == "select" and N:
        ns = rng.sample(N, rng.randrange(len(N) + 1))
        log("select_nodes", ns)
        return cf.select_nodes(ns)
    if k == "subsets":
        s = subsets(rng, cf)
        log("select_subsets", {n: len(x) for n, x in s.items()})
        return cf.select_subsets(s)
    if k == "cleanup": return ret("cleanup")
    if k == "simplify":
        log("simplify"); cf.simplify(); return cf
    if k == "merge_vars": return ret("merge_vars")
    if k == "merge_into" and len(V) > 1:
        a, b = rng.sample(V, 2)
        return ret("merge_into", a, b)
    if k == "unreachable":
        d, h = rng.choice(["forward", "back"]), rng.choice(["strong", "weak"])
        log("drop_unreachable", d, h)
        r = cf.drop_unreachable(direction=d, how=h)
        return r
    if k == "union":
        n = sorted(rng.sample(N, rng.randrange(len(N) + 1)))
        log("union with the nodes", n)
        return rng.choice([lambda a, b: a | b, lambda a, b: b | a, CF.union])(cf, cf.select_nodes(n))
    if k == "inter":
        s = cf.select_subsets(subsets(rng, cf)).select_nodes(sorted(rng.sample(N, rng.randrange(len(N) + 1))))
        log("intersection with the nodes", sorted(s.nodes))
        return rng.choice([lambda a, b: a & b, lambda a, b: b & a, CF.intersection])(cf, s)
    if k == "sub":
        s = cf.select_subsets(subsets(rng, cf))
        log("difference")
        return cf - s
    if k == "stream" and N:
        n = rng.sample(N, rng.randrange(1, min(3, len(N)) + 1))
        m, h = rng.choice(["upstream", "downstream", "midstream"]), rng.choice(["strong", "weak"])
        log(m, n, h)
        return getattr(cf, m)(*n, how=h)
    if k == "add_ref" and V and cf.refs:
        v, h = rng.choice(V), rng.choice(sorted(cf.refs))
        log("add_ref", v, h[:4])
        cf.add_ref(v, cf.refs[h], allow_existing=True)
        return cf
    if k == "addvar":
        v = rng.choice([None, "n" + str(rng.randrange(1000, 9999))])
        log("_add_var", v); cf._add_var(v); return cf
    if k == "drop_ref":
        c = [(v, h) for v in V for h in sorted(cf.vs[v]) if not uses(cf, v, h)]
        if c:
            v, h = rng.choice(c)
            log("drop_ref", v, h[:4]); cf.drop_ref(v, h)
        return cf
    if k == "move" and len(V) > 1:
        a, b = rng.sample(V, 2)
        c = [h for h in sorted(cf.vs[a]) if not uses(cf, a, h)]
        if c: return ret("move_ref", a, b, rng.choice(c))
        return cf
    if k == "drop_call" and F:
        f = rng.choice(F)
        if cf.fs[f]:
            h = rng.choice(sorted(cf.fs[f]))
            log("drop_call", f, h[:4]); cf.drop_call(f, h)
        return cf
    if k == "add_call" and F and cf.calls:
        f = rng.choice(F)
        c = [h for h in sorted(cf.calls) if cf.calls[h].op.name in {cf.calls[g].op.name for g in cf.fs[f]}]
        if c:
            h = rng.choice(c)
            log("add_call", f, h[:4]); cf.add_call(f, cf.calls[h], with_refs=True, allow_existing=True)
        return cf
    if k == "copy":
        log("copy"); return cf.copy()
    if k == "isin" and cf.refs:
        hs = set(rng.sample(sorted(cf.refs), rng.randrange(len(cf.refs) + 1)))
        log("isin", len(hs)); return cf.isin(hs, by="hid")
    return cf


def uses(cf, v, h):
    """a call of the frame connects to the ref h in variable v"""
    for s, d, l in edges(cf):
        if v in (s, d):
            f = d if s == v else s
            for c in cf.fs[f]:
                io = cf.calls[c].inputs if s == v else cf.calls[c].outputs
                if any(r.hid == h and label(cf.calls[c], n) == l for n, r in io.items()):
                    return True
    return False


@scenario(quick=260, thorough=8000, weight=4)
def operations(rng, log):
    st = Storage()
    ints, lists = fill(rng, log, st, rng.randrange(1, 9))
    cf = start(rng, log, st, ints, lists)
    wf(cf, "the new frame")
    for _ in range(rng.randrange(1, 7)):
        cf = step(rng, log, st, cf)
        wf(cf, f"after {log.ops[-1]}", restricted=log.ops[-1].split()[0] if log.ops[-1].split()[0] in ("isin", "difference") else log.ops[-1].split()[0] in ("drop_unreachable", "upstream", "downstream", "midstream"))
        cf._check()


@scenario(quick=120, thorough=3000)
def overlapping_variables(rng, log):
    """variables that share elements, connected to the same functions, and merged"""
    st = Storage()
    ints, lists = fill(rng, log, st, rng.randrange(2, 9))
    refs = list({r.hid: r for r in ints}.values())
    if len(refs) < 2: raise Skip()
    base = rng.sample(refs, rng.randrange(2, min(5, len(refs)) + 1))
    vs = {"big": base, "small": rng.sample(base, rng.randrange(1, len(base)))}
    if rng.random() < .3: vs["other"] = rng.sample(refs, rng.randrange(1, len(refs)))
    log("cf vars", {v: [r.hid[:4] for r in rs] for v, rs in vs.items()})
    cf = CF.from_vars(st, vs)
    wf(cf, "the new frame")
    for k in rng.sample(["expand_back", "expand_forward"], rng.randrange(1, 3)):
        log(k)
        cf = getattr(cf, k)(recursive=False)
        wf(cf, f"after {k}")
    before, es = {v: set(s) for v, s in cf.vs.items()}, edges(cf)
    if rng.random() < .3:
        log("merge_vars")
        r = cf.merge_vars()
        wf(r, "after merge_vars")
        eq(set().union(*r.vs.values()), set().union(*before.values()), "merge_vars: refs", "merge")
    else:
        log("merge_into")
        r = cf.merge_into("small", "big")
        wf(r, "after merge_into")
        eq({v: set(s) for v, s in r.vs.items()}, {v: s | before["small"] if v == "big" else s for v, s in before.items() if v != "small"}, "merge_into: variables", "merge")
        to = lambda n: "big" if n == "small" else n
        eq(edges(r), {(to(a), to(b), l) for a, b, l in es}, "merge_into: edges", "merge")
    eq(set(r.calls), set(cf.calls), "calls", "merge")
