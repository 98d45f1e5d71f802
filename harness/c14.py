"""orderings of random directed graphs (acyclic, cyclic, with self-loops and parallel labels) against brute-force reachability"""
from base import *
from mandala.utils import find_strongly_connected_components, create_super_graph, topological_sort, almost_topological_sort
from mandala.storage import Storage
from mandala.cf import ComputationFrame as CF

STORE = Storage()


def digraph(rng, log, kind=None):
    kind = kind or rng.choice(["dag", "any", "any", "sparse", "dense", "cycles", "chain"])
    n = rng.randrange(1, 9) if kind != "chain" else rng.randrange(2, 40)
    names = rng.sample([a + b for a in "abcdefgh_Z" for b in "0123xyz"], n)
    g = {v: set() for v in names}
    if kind == "dag":
        order = rng.sample(names, n)
        for i, a in enumerate(order):
            for b in order[i + 1:]:
                if rng.random() < .35: g[a].add(b)
    elif kind == "chain":
        for a, b in zip(names, names[1:]): g[a].add(b)
        for _ in range(rng.randrange(4)): g[rng.choice(names)].add(rng.choice(names))
    elif kind == "cycles":
        for _ in range(rng.randrange(1, 4)):
            c = rng.sample(names, rng.randrange(1, n + 1))
            for a, b in zip(c, c[1:] + c[:1]): g[a].add(b)
        for _ in range(rng.randrange(3)): g[rng.choice(names)].add(rng.choice(names))
    else:
        p = dict(any=rng.random() * .5, sparse=.12, dense=.6)[kind]
        for a in names:
            for b in names:
                if rng.random() < p: g[a].add(b)
    log(kind, {a: sorted(b) for a, b in g.items()})
    return g


def reach(g):
    r = {v: {v} for v in g}
    for v in g:
        todo = [v]
        while todo:
            for w in g[todo.pop()]:
                if w not in r[v]: r[v].add(w); todo.append(w)
    return r


def valid(order, g, what, sig, nodes=None):
    nodes = set(g) if nodes is None else set(nodes)
    eq(sorted(order), sorted(nodes), f"{what}: the nodes visited", sig)
    r = reach(g)
    pos = {v: i for i, v in enumerate(order)}
    for a in nodes:
        for b in nodes:
            if a != b and b in r[a] and a not in r[b]:
                check(pos[a] < pos[b], f"{what}: {b} depends on {a} but comes first: {order}", sig)


@scenario(quick=400, thorough=20000, weight=1)
def components(rng, log):
    g = digraph(rng, log)
    before = {a: set(b) for a, b in g.items()}
    r = reach(g)
    sccs = find_strongly_connected_components(g)
    eq({frozenset(c) for c in sccs}, {frozenset(w for w in g if w in r[v] and v in r[w]) for v in g}, "strongly connected components", "scc")
    eq(sum(map(len, sccs)), len(g), "nodes over all components", "scc")
    at = {v: i for i, c in enumerate(sccs) for v in c}
    eq(create_super_graph(g, sccs), {i: {at[w] for v in c for w in g[v]} - {i} for i, c in enumerate(sccs)}, "the graph of components", "super graph")
    shuffled = {k: g[k] for k in rng.sample(sorted(g), len(g))}
    eq(find_strongly_connected_components(shuffled), sccs, "components of the same graph listed in another order", "scc")
    valid(almost_topological_sort(g), g, "almost_topological_sort", "order")
    eq(g, before, "the graph", "mutated")


@scenario(quick=200, thorough=10000, weight=1)
def acyclic(rng, log):
    g = digraph(rng, log, "dag")
    valid(topological_sort(g), g, "topological_sort", "order")
    h = {i: set() for i in range(len(g))}
    at = dict(zip(rng.sample(sorted(g), len(g)), h))
    for a in g:
        for b in g[a]: h[at[a]].add(at[b])
    valid(topological_sort(h), h, "topological_sort of integers", "order")


@scenario(quick=300, thorough=10000, weight=1)
def frames(rng, log):
    """ordering of the nodes of frames of any shape, with several labels between the same nodes"""
    s = STORE
    vs, fs = [f"v{i}" for i in range(rng.randrange(1, 6))], [f"f{i}" for i in range(rng.randrange(0, 5))]
    adj = {n: {} for n in vs + fs}
    cf = CF(storage=s, inp={n: {} for n in vs + fs}, out=adj, vs={v: set() for v in vs}, fs={f: set() for f in fs}, refinv={}, callinv={}, creator={}, consumers={}, refs={}, calls={})
    p = rng.choice([.1, .25, .5])
    for f in fs:
        for v in vs:
            for l in ("a", "b"):
                if rng.random() < p: cf._add_edge(v, f, l)
                if rng.random() < p: cf._add_edge(f, v, l)
    es = sorted(cf.edges())
    log(es)
    g = {n: set() for n in vs + fs}
    for a, b, l in es: g[a].add(b)
    before = {n: {l: set(x) for l, x in ls.items()} for n, ls in cf.out.items()}
    valid(cf.topsort_modulo_sccs(), g, "topsort_modulo_sccs", "frame order")
    some = rng.sample(sorted(g), rng.randrange(len(g) + 1))
    valid(cf.sort_nodes(some), g, f"sort_nodes({some})", "sort_nodes", nodes=some)
    eq(cf.out, before, "the frame", "mutated")
