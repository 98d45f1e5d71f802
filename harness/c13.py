"""navigation, histories and expansion of frames against the stored call graph and brute-force oracles"""
from cfworld import *
from c12 import frame, Skip


def stored(st):
    out = {}
    for r in st.call_storage.get_df().reset_index().to_dict("records"):
        c = out.setdefault(r["call_history_id"], {"in": {}, "out": {}, "op": r["op"]})
        c[r["direction"]][r["name"]] = r["ref_history_id"]
    return out


class G:
    """element graph of a frame: (node, elt) -> (node, elt), by edge"""
    def __init__(self, a):
        self.a, self.es, self.sets = a, edges(a), {**a.vs, **a.fs}
        self.links = set()
        for s, d, l in self.es:
            f = d if d in a.fs else s
            for h in a.fs[f]:
                c = a.calls[h]
                for n, r in (c.inputs if d == f else c.outputs).items():
                    if label(c, n) == l:
                        v = s if d == f else d
                        if r.hid in a.vs[v]:
                            self.links.add(((s, r.hid), (d, h), (s, d, l)) if d == f else ((s, h), (d, r.hid), (s, d, l)))

    def fwd(self, n, hs): return [(y, e) for x, y, e in self.links if x[0] == n and x[1] in hs]
    def back(self, n, hs): return [(x, e) for x, y, e in self.links if y[0] == n and y[1] in hs]

    def reach(self, init, forward, how):
        a = self.a
        L = self.links if forward else {(y, x, e) for x, y, e in self.links}
        res = {n: set(init.get(n, ())) for n in self.sets}
        while True:
            size = sum(map(len, res.values()))
            for n, s in self.sets.items():
                for y in s - res[n]:
                    into = [(x, e[2]) for x, z, e in L if z == (n, y)]
                    if n in a.vs or how == "weak": ok = any(x[1] in res[x[0]] for x, _ in into)
                    else:
                        c = a.calls[y]
                        labels = {l for s_, d_, l in self.es if (d_ if forward else s_) == n}
                        need = [(m, r.hid) for m, r in (c.inputs if forward else c.outputs).items() if label(c, m) in labels]
                        ok = bool(need) and all(any(x[1] == h and lab == label(c, m) and h in res[x[0]] for x, lab in into) for m, h in need)
                    if ok: res[n].add(y)
            if size == sum(map(len, res.values())): return res


@scenario(quick=150, thorough=5000, weight=2)
def navigation(rng, log):
    st = Storage()
    ints, lists = fill(rng, log, st, rng.randrange(1, 8))
    a = frame(rng, log, st, ints, lists)
    s0 = snap(a)
    g = G(a)
    es = g.es
    got = a.edges()
    eq(len(got), len(set(got)), "edges: an edge listed twice", "edges"); eq(set(got), es, "edges", "edges")
    for n in a.nodes:
        eq(a.in_edges(n), {e for e in es if e[1] == n}, f"in_edges({n})", "in_edges")
        eq(a.out_edges(n), {e for e in es if e[0] == n}, f"out_edges({n})", "out_edges")
        eq(a.in_neighbors(n), {e[0] for e in es if e[1] == n}, f"in_neighbors({n})", "in_neighbors")
        eq(a.out_neighbors(n), {e[1] for e in es if e[0] == n}, f"out_neighbors({n})", "out_neighbors")
    eq(a.sources, {v for v in a.vs if not any(e[1] == v for e in es)}, "sources", "sources")
    eq(a.sinks, {v for v in a.vs if not any(e[0] == v for e in es)}, "sinks", "sinks")
    eq(a.get_source_elts(), {n: {h for h in s if not g.back(n, {h})} for n, s in g.sets.items()}, "get_source_elts", "source elts")
    eq(a.get_sink_elts(), {n: {h for h in s if not g.fwd(n, {h})} for n, s in g.sets.items()}, "get_sink_elts", "sink elts")
    some = lambda n: {h for h in sorted(g.sets[n]) if rng.random() < .6}
    for n in sorted(a.nodes):
        hs = some(n)
        dr = rng.choice(["back", "forward", "both"])
        want = {}
        for on, go, nb in (("back", g.back, [e[0] for e in es if e[1] == n]), ("forward", g.fwd, [e[1] for e in es if e[0] == n])):
            if dr in (on, "both"):
                for m in nb: want.setdefault(m, set())
                for x, e in go(n, hs): want[x[0]].add(x[1])
        eq(a.get_adj_elts(n, hs, dr), want, f"get_adj_elts({n}, {dr})", "adjacent elts")
    for s, d, l in sorted(es):
        hs = some(d); eq(a.get_adj_elts_edge((s, d, l), hs, "back"), {x[1] for x, e in g.back(d, hs) if e == (s, d, l)}, f"get_adj_elts_edge({s},{d},{l}, back)", "adjacent elts")
        hs = some(s); eq(a.get_adj_elts_edge((s, d, l), hs, "forward"), {x[1] for x, e in g.fwd(s, hs) if e == (s, d, l)}, f"get_adj_elts_edge({s},{d},{l}, forward)", "adjacent elts")
    N = sorted(a.nodes)
    if N:
        start = rng.sample(N, rng.randrange(1, min(3, len(N)) + 1))
        for dr in ("forward", "back"):
            r = set(start)
            while True:
                more = r | {(e[1] if dr == "forward" else e[0]) for e in es if (e[0] if dr == "forward" else e[1]) in r}
                if more == r: break
                r = more
            eq(a.get_reachable_nodes(set(start), dr), r, f"get_reachable_nodes({start}, {dr})", "reachable nodes")
            how = rng.choice(["strong", "weak"])
            init = {n: some(n) for n in start}
            arg = {n: set(x) for n, x in init.items()}
            log("reach", dr, how, start)
            got = a.get_reachable_elts(arg, dr, how)
            eq(got, g.reach(init, dr == "forward", how), f"get_reachable_elts({start}, {dr}, {how})", "reachable elts")
            eq(arg, init, "the argument of get_reachable_elts", "mutated")
            sub = {n: g.sets[n] for n in start}
            part = G(a.select_nodes(r))
            want = part.reach(sub, dr == "forward", how)
            got = (a.downstream if dr == "forward" else a.upstream)(*start, how=how)
            eq({**got.vs, **got.fs}, want, f"{'downstream' if dr == 'forward' else 'upstream'}({start}, {how})", "streams")
        if rng.random() < .6: history(rng, log, a, es)
    same(a, s0, "navigation: the frame")


@scenario(quick=120, thorough=4000, weight=1)
def reachability(rng, log):
    """many starting points in expanded frames, some of whose variables hold several inputs of one call"""
    st = Storage()
    ints, lists = fill(rng, log, st, rng.randrange(2, 9))
    if not ints: raise Skip
    a = st.cf(list({r.hid: r for r in rng.sample(ints, min(len(ints), rng.randrange(1, 3)))}.values()))
    a = a.expand_back(recursive=True)
    if rng.random() < .4: a = a.expand_forward()
    for _ in range(rng.choice([0, 1, 1, 2])):
        V = sorted(a.vs)
        if len(V) < 2: break
        into = rng.sample(V, 2)
        twins = [(u, v) for f in sorted(a.fs) for u in sorted(a.in_neighbors(f)) for v in sorted(a.in_neighbors(f)) if u < v]
        if twins and rng.random() < .7: into = list(rng.choice(twins))
        b = a.copy()
        b.merge_into(*into, inplace=True)
        log("merge_into", into)
        a = b
    g = G(a)
    s0 = snap(a)
    N = sorted(a.nodes)
    for _ in range(6):
        ns = rng.sample(N, rng.randrange(1, min(4, len(N)) + 1))
        p = rng.choice([.3, .5, .8, 1])
        init = {n: {h for h in sorted(g.sets[n]) if rng.random() < p} for n in ns}
        dr, how = rng.choice(["forward", "back"]), rng.choice(["strong", "strong", "weak"])
        arg = {n: set(x) for n, x in init.items()}
        eq(a.get_reachable_elts(arg, dr, how), g.reach(init, dr == "forward", how), f"get_reachable_elts({init}, {dr}, {how})", "reachable elts")
        eq(arg, init, "the argument of get_reachable_elts", "mutated")
    same(a, s0, "reachability: the frame")


def history(rng, log, a, es):
    v = rng.choice(sorted(a.vs)) if a.vs else None
    if v is None or not a.vs[v]: return
    made = {o.hid: h for h, c in a.calls.items() for n, o in c.outputs.items()}
    hs = {h for h in sorted(a.vs[v]) if rng.random() < .5}
    def direct(v, h):
        out = set()
        c = a.creator.get(h)
        if c is None: return out
        for f in {e[0] for e in es if e[1] == v}:
            if c in a.fs[f]:
                out.add((f, c))
                for s, d, l in es:
                    if d == f:
                        out |= {(s, r.hid) for n, r in a.calls[c].inputs.items() if label(a.calls[c], n) == l and r.hid in a.vs[s]}
        return out
    for calls in (True, False):
        want = {(v, h) for h in hs}
        for h in hs: want |= direct(v, h)
        flat = lambda d: {(n, h) for n, x in d.items() for h in x}
        keep = lambda x: {y for y in x if calls or y[0] in a.vs}
        log("history", v, len(hs))
        eq(flat(a.get_direct_history(v, set(hs), include_calls=calls)), keep(want), f"direct history of {v}", "direct history")
        todo = {(v, h) for h in hs}
        seen = set(todo)
        while todo:
            n, h = todo.pop()
            if n not in a.vs: continue
            new = direct(n, h) - seen
            seen |= new; todo |= new
        eq(flat(a.get_total_history(v, set(hs), include_calls=calls)), keep(seen), f"total history of {v}", "total history")


@scenario(quick=200, thorough=6000, weight=3)
def expansion(rng, log):
    st = Storage()
    ints, lists = fill(rng, log, st, rng.randrange(1, 9))
    tab = stored(st)
    creator = {r: h for h, c in tab.items() for r in c["out"].values()}
    consumers = {}
    for h, c in tab.items():
        for r in c["in"].values(): consumers.setdefault(r, set()).add(h)
    a = frame(rng, log, st, ints, lists)
    for _ in range(rng.randrange(1, 3)):
        s0 = snap(a)
        src, snk = a.get_source_elts(), a.get_sink_elts()
        b, k, kw = expand(rng, log, a)
        same(a, s0, f"{k}: the operand")
        for n, x in {**a.vs, **a.fs}.items():
            check(n in b.nodes and x <= {**b.vs, **b.fs}[n], f"{k} removed elements of {n}", "removed")
        check(edges(a) <= edges(b), f"{k} removed edges {edges(a) - edges(b)}", "removed")
        new = set(b.calls) - set(a.calls)
        check(new <= set(tab), f"{k} added calls that are not stored", "calls")
        for h in set(b.calls):
            c = b.calls[h]
            eq({n: r.hid for n, r in c.inputs.items()}, tab[h]["in"], f"inputs of call {h}", "calls"); eq({n: r.hid for n, r in c.outputs.items()}, tab[h]["out"], f"outputs of call {h}", "calls")
        fresh = set(b.refs) - set(a.refs)
        check(fresh <= {r for h in b.calls for io in ("in", "out") for r in tab[h][io].values()}, f"{k} added refs of no call in the frame", "refs")
        vs = kw.get("varnames") or set(a.vs)
        skip = kw.get("skip_existing")
        one = k != "expand_all" and (not kw.get("recursive") or "varnames" in kw)
        up = lambda rs: {creator[r] for r in rs if r in creator}
        down = lambda rs: {h for r in rs for h in consumers.get(r, ())}
        fix_b = lambda: {h for h in up({r for v, rs in b.get_source_elts().items() if v in b.vs for r in rs})}
        fix_f = lambda: {h for h in down({r for v, rs in b.get_sink_elts().items() if v in b.vs for r in rs})}
        if k == "expand_back":
            first = up({r for v in vs for r in src[v]})
            if one: eq(new, first - set(a.calls), "expand_back: calls added", "expand_back")
            else:
                check(first <= set(b.calls), f"expand_back did not add {first - set(b.calls)}", "expand_back")
                if not skip:
                    for h in new: check(up(tab[h]["in"].values()) <= set(b.calls), f"recursive expand_back stopped at {h}", "expand_back")
                    eq(fix_b(), set(), "recursive expand_back: stored creators not connected", "expand_back")
                everything, todo = set(), up(a.refs)
                while todo:
                    h = todo.pop(); everything.add(h); todo |= up(tab[h]["in"].values()) - everything
                check(new <= everything, f"expand_back added calls that are not in the history of the frame: {new - everything}", "expand_back")
        elif k == "expand_forward":
            first = down({r for v in vs for r in snk[v]})
            if one: eq(new, first - set(a.calls), "expand_forward: calls added", "expand_forward")
            else:
                everything, todo = set(), down(a.refs)
                while todo:
                    h = todo.pop(); everything.add(h); todo |= down(tab[h]["out"].values()) - everything
                check(new <= everything, f"expand_forward added calls that do not depend on the frame: {new - everything}", "expand_forward")
                check(first <= set(b.calls), f"expand_forward did not add {first - set(b.calls)}", "expand_forward")
                if not skip: eq(fix_f(), set(), "recursive expand_forward: stored consumers not connected", "expand_forward")
        else:
            if not skip:
                eq(fix_b(), set(), "expand_all: stored creators not connected", "expand_all"); eq(fix_f(), set(), "expand_all: stored consumers not connected", "expand_all")
        a = b
    if rng.random() < .1 and k != "expand_back" and not one and not skip:
        # known finding: refs already connected to one of their consumers are not expanded forward to the others
        check(down(a.refs) <= set(a.calls), f"{k}: consumers of connected refs missing: {down(a.refs) - set(a.calls)}", "expand_from_sinks")
