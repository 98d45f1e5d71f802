"""Loop rule.  For every location a loop body changes, candidate invariants are generated from one
symbolic run of the body ("A == A0 plus the union over the elements done so far of one step's effect"),
plus the contract's own invariant templates; Houdini keeps the maximal inductive subset.  Nothing is
unrolled: the invariant is checked for an arbitrary element and an arbitrary intermediate state."""
from __future__ import annotations
import ast
import z3
from .core import *
from . import core


DEBUG = __import__('os').environ.get('LOOPDBG')


def reset_touched(v):
    if isinstance(v, RecV):
        return RecV({k: reset_touched(x) for k, x in v.f.items()})
    if isinstance(v, DictV):
        if getattr(v, "rec", None) is not None or isinstance(v.kty, Bot):
            return v
        return DictV(v.mem, (lambda k: reset_touched(v.at(k))) if is_container(v.vty) else v.at, v.kty, v.vty)
    return v


class Item:
    def __init__(self, kind, key):
        self.kind, self.key = kind, key

    def __repr__(self):
        return f"{self.kind}:{self.key}"

    def get(self, ip, st):
        k = self.key
        if self.kind == "local":
            return ip.content(st, st.envs[k[0]][k[1]])
        if self.kind == "root":
            return st.heap[k]
        if self.kind == "objf":
            return ip.content(st, st.heap[k[0]].fields[k[1]])
        if self.kind == "glob":
            return ip.content(st, st.heap[k])

    def set(self, ip, st, v):
        k = self.key
        if self.kind == "local":
            st.envs[k[0]][k[1]] = ip.box(st, v)
        elif self.kind == "root":
            st.heap[k] = v
        elif self.kind == "objf":
            c = st.heap[k[0]]
            f = dict(c.fields)
            f[k[1]] = ip.box(st, v)
            st.heap[k[0]] = ObjC(c.cls, f)
        elif self.kind == "glob":
            st.heap[k] = v


def find_items(ip, s0, outs, names):
    items = []
    keys = set()

    def add(kind, key):
        if (kind, key) not in keys:
            keys.add((kind, key))
            items.append(Item(kind, key))
    for s, fl in outs:
        for r in list(s.heap):
            if isinstance(r, tuple) and r[0] == "F" and r not in s0.heap:
                ip.froot(s0, r[1], r[2])
    for s, fl in outs:
        if fl not in (None, "continue"):
            continue
        for e, env in s0.envs.items():
            for n, v in env.items():
                w = s.envs.get(e, {}).get(n)
                if w is None and n not in s.envs.get(e, {}):
                    continue
                if isinstance(v, (Fn, Undef)) or isinstance(w, Undef):
                    continue
                if not same(v, w):
                    if isinstance(v, Ptr) and isinstance(w, Ptr) and v.root == w.root:
                        continue
                    if n in names or e == s0.cur:
                        add("local", (e, n))
        for r, c in s0.heap.items():
            w = s.heap.get(r)
            if w is c or r in (("HASH",), ("TX",)) or w is None:
                continue
            if isinstance(c, ObjC):
                for f, x in c.fields.items():
                    y = w.fields.get(f)
                    if not same(x, y):
                        add("objf", (r, f))
                for f in w.fields:
                    if f not in c.fields:
                        raise Unsup("field created in loop")
            elif isinstance(r, tuple) and r[0] == "G":
                if not same(c, w):
                    add("glob", r)
            elif not same(c, w):
                add("root", r)
    return items


def item_types(ip, s0, outs, items):
    tys = {}
    for it in items:
        v0 = it.get(ip, s0)
        if getattr(v0, "rec", None) is not None:
            v0 = ip.plain(v0)
        ty = tyof(v0)
        for s, fl in outs:
            if fl in (None, "continue"):
                v = it.get(ip, s)
                if getattr(v, "rec", None) is not None:
                    v = ip.plain(v)
                ty = join_ty(ty, tyof(v))
        tys[it] = ty
    return tys


def check_alias(ip, s0, outs, items):
    roots = {it.key for it in items if it.kind == "root"}
    for s, fl in outs:
        if fl not in (None, "continue"):
            continue
        holders = {}
        for it in items:
            if it.kind == "local":
                v = s.envs[it.key[0]][it.key[1]]
                if isinstance(v, Ptr) and not v.path:
                    if v.root in roots:
                        raise Unsup("loop-carried alias")


class Cand:
    def __init__(self, name, fn, item=None, leaf=None, exact=False):
        self.name, self.fn, self.item, self.leaf, self.exact = name, fn, item, leaf, exact


def eff_chain(v, ty, lname):
    """list of enclosing domain predicates for nested leaves: fn(ks)->Bool"""
    return None


def eff_leaves(v, ty):
    """leaves with the domain guard of all enclosing dicts / list bounds"""
    out = []

    def go(name, ktys, get, ty, touch, dom):
        if isinstance(ty, Sc):
            out.append(dict(name=name, ktys=ktys, kind="b" if ty.sort.eq(B) else "s", fn=lambda ks: term(get(ks), ty.sort), touch=touch, dom=dom, ty=ty))
        elif isinstance(ty, TupT):
            for i, t in enumerate(ty.ts):
                def g(ks, i=i, t=t):
                    x = get(ks)
                    if isinstance(x, Tup):
                        return x.items[i]
                    return unflat(flat(x, ty), ty).items[i]
                go(f"{name}.{i}", ktys, g, t, touch, dom)
        elif isinstance(ty, RecT):
            for k, t in ty.fields.items():
                go(f"{name}.{k}", ktys, lambda ks, k=k: get(ks).f[k], t, touch, dom)
        elif isinstance(ty, SetT):
            out.append(dict(name=name + ".mem", ktys=ktys + [ty.k], kind="m", fn=lambda ks: get(ks[:-1]).mem(ks[-1]), touch=None, dom=lambda ks: dom(ks[:-1]), ty=BOOL))
        elif isinstance(ty, DictT):
            out.append(dict(name=name + ".dom", ktys=ktys + [ty.k], kind="m", fn=lambda ks: get(ks[:-1]).mem(ks[-1]), touch=None, dom=lambda ks: dom(ks[:-1]), ty=BOOL))
            n = len(ktys)

            def tch(ks):
                r = get(ks[:n]).touched(ks[n])
                return z3.Or(touch(ks[:n]), r) if touch is not None else r
            go(name + ".at", ktys + [ty.k], lambda ks: get(ks[:n]).at(ks[n]), ty.v, tch,
               lambda ks: z3.And(dom(ks[:n]), get(ks[:n]).mem(ks[n])))
        elif isinstance(ty, ListT):
            out.append(dict(name=name + ".len", ktys=ktys, kind="len", fn=lambda ks: get(ks).ln, touch=touch, dom=dom, ty=INT))
            if isinstance(ty.e, (Sc, TupT)):
                out.append(dict(name=name + ".has", ktys=ktys + [ty.e], kind="m", fn=lambda ks: get(ks[:-1]).has(ks[-1]), touch=None, dom=lambda ks: dom(ks[:-1]), ty=BOOL))
            n = len(ktys)
            go(name + ".el", ktys + [INT], lambda ks: get(ks[:n]).at(ks[n]), ty.e, None,
               lambda ks: z3.And(dom(ks[:n]), 0 <= term(ks[n]), term(ks[n]) < get(ks[:n]).ln))
        elif isinstance(ty, (Bot, FnT)):
            pass
        else:
            raise Unsup(f"leaves of {ty}")
    go("", [], lambda ks: v, ty, None, lambda ks: z3.BoolVal(True))
    return out


def qf(ktys):
    bs, ks = [], []
    for t in ktys:
        c = kconsts(t)
        bs += c
        ks.append(unflat(c, t))
    return bs, ks


def forall(bs, f):
    return z3.ForAll(bs, f) if bs else f


def exists(bs, f):
    return z3.Exists(bs, f) if bs else f


def mk_cands(ip, items, tys, pre, step_outs, n0, gs, binders, ordered, base_pc, nbr=0):
    c1, need = mk_cands1(ip, items, tys, pre, step_outs, n0, gs, binders, ordered, base_pc, None)
    extra = any(len([f for f in s.pc[n0:] if not any(f.eq(g) for g in gs)]) > len(s.br) - nbr for s, fl in step_outs if fl in (None, "continue"))
    if extra:
        # the same candidates with the branch conditions only: facts about fresh symbols of the body do not survive a new run
        c2, _ = mk_cands1(ip, items, tys, pre, step_outs, n0, gs, binders, ordered, base_pc, nbr)
        for c in c2:
            c.name += " (branch conditions)"
        c1 = c1 + [c for c in c2 if " unchanged" not in c.name and " only " not in c.name and "/iter" not in c.name and not c.name.endswith("grows (branch conditions)")]
    return c1, need


def mk_cands1(ip, items, tys, pre, step_outs, n0, gs, binders, ordered, base_pc, nbr):
    """step_outs: normal outcomes of the body run from the pre state for a generic element `binders`"""
    cands = []
    paths = []
    for s, fl in step_outs:
        if fl in (None, "continue"):
            facts = [f for f in s.pc[n0:] if not any(f.eq(g) for g in gs)] if nbr is None else s.br[nbr:]
            paths.append((s, z3.And(*facts) if facts else z3.BoolVal(True)))
    if not paths:
        return cands, {}
    need = {}
    for it in items:
        ty = tys[it]
        p0 = coerce(pre[it], ty)
        posts = [(coerce(_pl(ip, it.get(ip, s)), ty), pc, same(it.get(ip, s), pre[it])) for s, pc in paths]
        L0 = eff_leaves(p0, ty)
        LP = [eff_leaves(v, ty) for v, _, _ in posts]
        for li, l0 in enumerate(L0):
            key = (it, l0["name"])
            need[key] = False
            k = l0["kind"]
            if k in ("m", "b"):
                def eff(leaf, ks):
                    return z3.And(leaf["dom"](ks), leaf["fn"](ks))
                bs, ks = qf(l0["ktys"])
                e0 = eff(l0, ks)
                step = z3.Or(*[z3.And(pc, eff(LP[pi][li], ks)) for pi, (_, pc, _) in enumerate(posts)])
                anyp = z3.Or(*[pc for _, pc, _ in posts])
                grows = ip.check(base_pc + gs + [anyp, e0], step, timeout=1000) == "unsat"
                shrinks = ip.check(base_pc + gs + [step], e0, timeout=1000) == "unsat"
                if grows and shrinks:
                    cands.append(Cand(f"{it}{l0['name']} unchanged", _same(it, ty, li, l0), it, l0["name"], True))
                    # also the union form in case a later element adds something
                    continue
                if grows:
                    cands.append(Cand(f"{it}{l0['name']} accumulates", _union(it, ty, li, l0, LP, posts, binders, eff), it, l0["name"], True))
                    cands.append(Cand(f"{it}{l0['name']} only grows", _grow(it, ty, li, l0, eff), it, l0["name"]))
                elif shrinks:
                    cands.append(Cand(f"{it}{l0['name']} filtered", _inter(it, ty, li, l0, LP, posts, binders, eff), it, l0["name"], True))
                    cands.append(Cand(f"{it}{l0['name']} only shrinks", _shrink(it, ty, li, l0, eff), it, l0["name"]))
                else:
                    cands.append(Cand(f"{it}{l0['name']} mixed", _mixed(it, ty, li, l0, LP, posts, binders, eff), it, l0["name"], True))
            elif k == "len":
                if ordered:
                    bs, ks = qf(l0["ktys"])
                    d = None
                    if len(posts) >= 1:
                        for dd in (0, 1):
                            if all(ip.check(base_pc + gs + [pc, l0["dom"](ks)], LP[pi][li]["fn"](ks) == l0["fn"](ks) + dd, timeout=800) == "unsat" for pi, (_, pc, _) in enumerate(posts)):
                                d = dd
                    if d is not None:
                        cands.append(Cand(f"{it}{l0['name']} +{d}/iter", _len(it, ty, li, l0, d), it, l0["name"], True))
                        continue
                cands.append(Cand(f"{it}{l0['name']} grows", _lenmono(it, ty, li, l0), it, l0["name"]))
            elif l0["name"].count(".el") and ordered and len(posts) == 1 and l0["ktys"] == [INT] and isinstance(ty, ListT):
                cands.append(Cand(f"{it}{l0['name']} prefix", _el(it, ty, li, l0, LP, posts, binders), it, l0["name"], True))
            elif l0["name"].count(".el"):
                cands.append(Cand(f"{it}{l0['name']} unchanged", _same_s(it, ty, li, l0), it, l0["name"], True))
            else:
                # scalar leaf
                if l0["touch"] is None:
                    tch = [(lambda ks, u=u: z3.BoolVal(not u)) for _, _, u in posts]
                else:
                    tch = [LP[pi][li]["touch"] for pi in range(len(posts))]
                cands.append(Cand(f"{it}{l0['name']} untouched keeps", _untouched(it, ty, li, l0, LP, posts, binders, tch), it, l0["name"]))
                cands.append(Cand(f"{it}{l0['name']} written", _written(it, ty, li, l0, LP, posts, binders, tch, False), it, l0["name"], True))
                cands.append(Cand(f"{it}{l0['name']} written by some", _written(it, ty, li, l0, LP, posts, binders, tch, True), it, l0["name"], True))
                if l0["ty"].sort.eq(I) and not l0["ktys"]:
                    cands.append(Cand(f"{it}{l0['name']} >=", lambda vals, done, idx, it=it, ty=ty: term(vals[it], I) >= term(p0_(pre, it), I), it, l0["name"]))
                    if ordered and len(posts) == 1:
                        dlt = z3.simplify(term(posts[0][0], I) - term(p0, I))
                        if z3.is_int_value(dlt):
                            cands.append(Cand(f"{it} counts", lambda vals, done, idx, it=it, p0=p0, c=dlt: term(vals[it], I) == term(p0, I) + c * idx, it, l0["name"], True))
    return cands, need


def p0_(pre, it):
    return pre[it]


def _pl(ip, v):
    return ip.plain(v) if getattr(v, "rec", None) is not None else v


def _leaf(vals, it, ty, li):
    return eff_leaves(vals[it], ty)[li]


def _same(it, ty, li, l0):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        return forall(bs, z3.And(l["dom"](ks), l["fn"](ks)) == z3.And(l0["dom"](ks), l0["fn"](ks)))
    return f


def _same_s(it, ty, li, l0):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        return forall(bs, z3.Implies(z3.And(l["dom"](ks)), l["fn"](ks) == l0["fn"](ks)))
    return f


def _rename(binders):
    nb = [z3.FreshConst(b.sort(), "y") for b in binders]
    return nb, list(zip(binders, nb))


def one_point(bs, f):
    """Exists(bs, And(.., b == t, ..)) with b not in t  ->  substitute"""
    return exists(bs, f)


def _stepf(LP, posts, li, eff, ks, ps, extra=None):
    ds = []
    for pi, (_, pc, _) in enumerate(posts):
        g = z3.And(pc, eff(LP[pi][li], ks))
        ds.append(g)
    return subst_t(z3.Or(*ds), ps)


def _union(it, ty, li, l0, LP, posts, binders, eff):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        nb, ps = _rename(binders)
        st = _stepf(LP, posts, li, eff, ks, ps)
        e0 = eff(l0, ks)
        return forall(bs, eff(l, ks) == z3.Or(e0, exists(nb, z3.And(done(nb), z3.Not(e0), st))))
    return f


def _inter(it, ty, li, l0, LP, posts, binders, eff):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        nb, ps = _rename(binders)
        st = _stepf(LP, posts, li, eff, ks, ps)
        return forall(bs, eff(l, ks) == z3.And(eff(l0, ks), forall(nb, z3.Implies(done(nb), st))))
    return f


def _mixed(it, ty, li, l0, LP, posts, binders, eff):
    # an element is in iff some done step puts it in, or it was in and no done step took it out
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        nb, ps = _rename(binders)
        st = _stepf(LP, posts, li, eff, ks, ps)
        e0 = eff(l0, ks)
        add = exists(nb, z3.And(done(nb), z3.Not(e0), st))
        dele = exists(nb, z3.And(done(nb), e0, z3.Not(st)))
        return forall(bs, eff(l, ks) == z3.Or(add, z3.And(e0, z3.Not(dele))))
    return f


def _grow(it, ty, li, l0, eff):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        return forall(bs, z3.Implies(eff(l0, ks), eff(l, ks)))
    return f


def _shrink(it, ty, li, l0, eff):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        return forall(bs, z3.Implies(eff(l, ks), eff(l0, ks)))
    return f


def _len(it, ty, li, l0, d):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        return forall(bs, z3.Implies(l["dom"](ks), l["fn"](ks) == l0["fn"](ks) + d * idx))
    return f


def _lenmono(it, ty, li, l0):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        return forall(bs, z3.Implies(z3.And(l["dom"](ks), l0["dom"](ks)), l["fn"](ks) >= l0["fn"](ks)))
    return f


def _el(it, ty, li, l0, LP, posts, binders):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        j = z3.FreshConst(I, "j")
        jv = T(j, INT)
        len0 = p_len(l0)
        st = subst_t(LP[0][li]["fn"]([T(len0, INT)]), [(binders[0], j - len0)])
        return z3.And(
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < len0), l["fn"]([jv]) == l0["fn"]([jv]))),
            z3.ForAll([j], z3.Implies(z3.And(len0 <= j, j < len0 + idx), l["fn"]([jv]) == st)))
    len_leaf = None

    def p_len(l0):
        return l0["len0"]
    # the pre list length is the first leaf of the list
    l0["len0"] = l0.get("len0")
    return f


def _untouched(it, ty, li, l0, LP, posts, binders, tch):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        nb, ps = _rename(binders)
        t = subst_t(z3.Or(*[z3.And(pc, tch[pi](ks)) for pi, (_, pc, _) in enumerate(posts)]), ps)
        return forall(bs, z3.Implies(z3.And(l["dom"](ks), z3.Not(exists(nb, z3.And(done(nb), t)))), z3.And(l["fn"](ks) == l0["fn"](ks))))
    return f


def _written(it, ty, li, l0, LP, posts, binders, tch, some):
    def f(vals, done, idx):
        l = _leaf(vals, it, ty, li)
        bs, ks = qf(l0["ktys"])
        nb, ps = _rename(binders)
        if not some:
            cs = [subst_t(z3.Implies(z3.And(pc, tch[pi](ks)), l["fn"](ks) == LP[pi][li]["fn"](ks)), ps) for pi, (_, pc, _) in enumerate(posts)]
            return forall(bs + nb, z3.Implies(z3.And(done(nb), l["dom"](ks)), z3.And(*cs)))
        t = subst_t(z3.Or(*[z3.And(pc, tch[pi](ks)) for pi, (_, pc, _) in enumerate(posts)]), ps)
        w = subst_t(z3.Or(*[z3.And(pc, tch[pi](ks), l["fn"](ks) == LP[pi][li]["fn"](ks)) for pi, (_, pc, _) in enumerate(posts)]), ps)
        return forall(bs, z3.Implies(z3.And(l["dom"](ks), exists(nb, z3.And(done(nb), t))), exists(nb, z3.And(done(nb), w))))
    return f


def templates(ip, items, tys, st0, mod, sorts=None, targets=(), it=None):
    """contract-supplied invariant templates instantiated over the loop-carried variables by type"""
    out = []
    import itertools as itt
    for tpl in ip.loop_templates:
        if isinstance(tpl, str):
            tpl = dict(expr="lambda: " + tpl, types=[])
        if "depth" in tpl and tpl["depth"] != ip.loop_depth:
            continue            # meant for loops nested this deep
        if "target" in tpl and tpl["target"] not in targets:
            continue            # meant for the loop over this variable
        lam = ast.parse(tpl["expr"], mode="eval").body
        params = [a.arg for a in lam.args.args]
        bound = {a.arg for x in ast.walk(lam) if isinstance(x, ast.Lambda) for a in x.args.args}
        if any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id not in bound and not _defined(ip, st0, x.value.id) for x in ast.walk(lam)):
            continue            # speaks of a variable that has no value here
        want = [ip.reg.parse_ty(t) for t in tpl["types"]]
        pool = []
        for w in want:
            pool.append([it for it in items if _compat(tys[it], w)] + [("live", e, n) for e, n in _live(ip, st0, w, items)])
        for combo in itt.product(*pool):
            if len(set(map(str, combo))) != len(combo) or combo and not any(isinstance(c, Item) for c in combo):
                continue
            if len(out) > 60:
                break

            box = [None]

            def fn(vals, done, idx, combo=combo, lam=lam, params=params, box=box):
                s = box[0]
                ip.push_frame(s, parent=s.cur)
                for p, c in zip(params, combo):
                    s.envs[s.cur][p] = vals[c] if isinstance(c, Item) else s.envs[c[1]][c[2]]
                def done_(ts):
                    if done is None or sorts is None or len(ts) != len(sorts) or any(not t.sort().eq(x) for t, x in zip(ts, sorts)):
                        raise Unsup("done() does not fit this loop")
                    return done(ts)
                sv, ip.done_fn = ip.done_fn, done_
                le, ip.loop_entry = ip.loop_entry, st0
                li, ip.loop_iter = ip.loop_iter, it
                try:
                    v = ip.spec_value(lam.body, s, ip.entry_state)
                    f = ip.truth(v, s)
                finally:
                    ip.done_fn = sv
                    ip.loop_entry = le
                    ip.loop_iter = li
                ip.pop_frame(s)
                return f
            fn.needs_state = True
            fn.box = box
            c = Cand(f"template {tpl['expr']} @ {combo}", fn)
            out.append(c)
    return out


def _defined(ip, st, name):
    e = st.cur
    while e is not None:
        if name in st.envs[e]:
            return not isinstance(st.envs[e][name], Undef)
        e = st.parents.get(e)
    return name in ip.ghosts or name in ip.reg.specfns


def _compat(a, b):
    return a == b or isinstance(a, SetT) and isinstance(b, SetT) and (a.k == b.k or b.k is ANY or isinstance(a.k, Sc) and isinstance(b.k, Sc) and a.k.sort.eq(b.k.sort))


def _live(ip, st, w, items):
    return []


def evaluable(c, *a):
    try:
        evalc(c, *a[:-1], a[-1].copy())
        return True
    except Unsup:
        return False


def evalc(c, vals, done, idx, st):
    if getattr(c.fn, "needs_state", False):
        c.fn.box[0] = st
        n = len(st.pc)
        return c.fn(vals, done, idx)
    return c.fn(vals, done, idx)


def havoc(ip, st, items, tys):
    vals = {}
    for it in items:
        v = mk(tys[it], f"h_{str(it)}")(ip.allb())
        for f in wf_facts(v, ip.allb()):
            st.assume(f)
        vals[it] = v
        it.set(ip, st, v)
    return vals


def vals_of(ip, st, items, tys):
    return {it: coerce(_pl(ip, it.get(ip, st)), tys[it]) for it in items}


def undef_temps(ip, s0, st, names):
    for n in names:
        if n not in s0.envs[s0.cur] and s0.parents.get(("nonlocal", s0.cur, n)) is None:
            st.envs[st.cur][n] = Undef()


def for_loop(ip, n, it, s0, mod):
    names = ip.assigned_names(n.body) | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    outer = ip.allb()
    ob0 = len(ip.obligs)

    def run(s, itx):
        r = []
        ip.loop_depth += 1
        try:
            for s1, fl in ip.assign_stmt(n.target, itx.elem, s, mod):
                r += ip.exec_block(n.body, s1, mod) if fl is None else [(s1, fl)]
        finally:
            ip.loop_depth -= 1
        return r

    # 1. step from the pre state: what is modified, and how
    def discover(s0, quick):
        nonlocal items, tys, outs, it1, n0, gs
        items, tys = [], {}
        ip.discovering = getattr(ip, "discovering", 0)
        for _ in range(3):
            it1 = it.fresh()
            s1 = s0.copy()
            for itm in items:
                v = reset_touched(coerce(_pl(ip, itm.get(ip, s0)), tys[itm]))
                itm.set(ip, s0, v)
                itm.set(ip, s1, v)
            n0 = len(s1.pc)
            s1.assume(it1.guard)
            gs = list(s1.pc[n0:])
            ip.binders.append(it1.binders)
            ip.discovering += quick
            try:
                outs = run(s1, it1)
            finally:
                ip.binders.pop()
                ip.discovering -= quick
            del ip.obligs[ob0:]
            new = find_items(ip, s0, outs, names)
            ntys = item_types(ip, s0, outs, new)
            if {str(i): repr(t) for i, t in ntys.items()} == {str(i): repr(t) for i, t in tys.items()}:
                break
            items, tys = new, ntys
    items = tys = outs = it1 = n0 = gs = None
    pre0 = s0
    s0 = s0.copy()
    quick = 1 if ip.manual_loops else 0
    discover(s0, quick)
    if quick and ip.discovering:
        # an enclosing loop only asks what this one changes: its effect is forgotten altogether
        check_alias(ip, s0, outs, items)
        res = [(s, None if fl == "break" else fl) for s, fl in outs if fl in ("return", "raise", "break")]
        e = s0.copy()
        havoc(ip, e, items, tys)
        undef_temps(ip, s0, e, names)
        return res + ip.exec_block(n.orelse, e, mod)
    targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    check_alias(ip, s0, outs, items)
    pre = {i: coerce(_pl(ip, i.get(ip, s0)), tys[i]) for i in items}
    tpls = templates(ip, items, tys, s0, mod, [b.sort() for b in it.binders], targets, it)

    # 2. init
    def nodone(xs):
        return z3.BoolVal(False)
    cands, need = [], {(i, "") : False for i in items}
    own = [c for c in tpls if "done(" in c.name] or ([] if any("done(" in str(t) for t in ip.loop_templates) else tpls)
    if not (ip.manual_loops and any(evaluable(c, pre, nodone, z3.IntVal(0), s0) for c in own)):      # else the contract states the whole invariant of this loop
        if quick and any(isinstance(x, (ast.For, ast.While)) for b in n.body for x in ast.walk(b)):
            s0 = pre0.copy()
            discover(s0, 0)
            pre = {i: coerce(_pl(ip, i.get(ip, s0)), tys[i]) for i in items}
            tpls = templates(ip, items, tys, s0, mod, [b.sort() for b in it.binders], targets, it)
            need = {(i, ""): False for i in items}
        cands, need = mk_cands(ip, items, tys, pre, outs, n0, gs, it1.binders, it.ordered, s0.pc, len(s0.br))
        for i in items:
            if isinstance(tys[i], ListT):
                for c in cands:
                    if c.item is i and "prefix" in c.name:
                        _set_len0(c, pre[i])
    cands += tpls
    ok = []
    for c in cands:
        s = s0.copy()
        try:
            f = evalc(c, pre, nodone, z3.IntVal(0), s)
        except Unsup:
            continue
        if ip.check(s.pc, f, timeout=1500) == "unsat":
            ok.append(c)
    cands = ok

    # 3. Houdini
    D = z3.Function(f"done!{next(core._ctr)}", *[o.sort() for o in outer], *[b.sort() for b in it.binders], B)
    while True:
        h = s0.copy()
        vals = havoc(ip, h, items, tys)
        itx = it.fresh()
        if it.ordered:
            idx = itx.binders[0]
            h.assume(z3.And(0 <= idx, idx < it.ln))
            done = lambda xs: z3.And(0 <= xs[0], xs[0] < idx)
            done2 = lambda xs: z3.And(0 <= xs[0], xs[0] <= idx)
            idx2 = idx + 1
        else:
            idx = z3.FreshConst(I, "n")
            h.assume(idx >= 0)
            idx2 = idx + 1
            ff = it.fresh()
            h.assume(forall(ff.binders, z3.Implies(D(*outer, *ff.binders), ff.guard)))
            h.assume(itx.guard)
            h.assume(z3.Not(D(*outer, *itx.binders)))
            done = lambda xs: D(*outer, *xs)
            done2 = lambda xs: z3.Or(D(*outer, *xs), z3.And(*[a == b for a, b in zip(xs, itx.binders)]))
        for c in cands:
            h.assume(evalc(c, vals, done, idx, h))
        del ip.obligs[ob0:]
        outs = run(h, itx)
        bad = set()
        for s, fl in outs:
            if fl not in (None, "continue"):
                continue
            pv = vals_of(ip, s, items, tys)
            for c in cands:
                if c in bad:
                    continue
                s2 = s.copy()
                f = evalc(c, pv, done2, idx2, s2)
                if ip.check(s2.pc, f, timeout=2000) != "unsat":
                    if DEBUG:
                        print("DROP", n.lineno, c.name[:150], getattr(s, "log", None))
                        if DEBUG != "1" and DEBUG in c.name:
                            z = z3.Solver(); z.add(*s2.pc, z3.Not(f)); open("/tmp/drop.smt2", "w").write(z.to_smt2())
                    bad.add(c)
        if not bad:
            break
        cands = [c for c in cands if c not in bad]
    # 4. outcomes
    exact = {(c.item, c.leaf) for c in cands if c.exact}
    lossy = [f"{i}{l}" for (i, l) in need if (i, l) not in exact]
    ip.stats["loops"].append(dict(line=n.lineno, kept=[c.name for c in cands], lossy=lossy))
    res = []
    for s, fl in outs:
        if fl in ("return", "raise", "break"):
            if lossy:
                s.abstract = s.abstract + lossy
            if fl == "break":
                undef_temps(ip, s0, s, names - set())  # locals of the iteration stay readable only if pre-existing
                res.append((s, None))
            elif fl == "raise":
                if ip.feasible(s):
                    res.append((s, fl))
            else:
                res.append((s, fl))
    e = s0.copy()
    vals = havoc(ip, e, items, tys)
    if it.ordered:
        idx = it.ln
        e.assume(it.ln >= 0)
        done = lambda xs: z3.And(0 <= xs[0], xs[0] < it.ln)
    else:
        idx = z3.FreshConst(I, "n")
        e.assume(idx >= 0)

        def done(xs):
            return subst_t(it.guard, list(zip(it.binders, xs)))
    for c in cands:
        e.assume(evalc(c, vals, done, idx, e))
    e.abstract = e.abstract + lossy
    undef_temps(ip, s0, e, names)
    res += ip.exec_block(n.orelse, e, mod)
    return res


def _set_len0(c, prev):
    # close over the pre-length for the list-prefix candidate
    fn = c.fn
    cell = {v: x for v, x in zip(fn.__code__.co_freevars, fn.__closure__)}
    cell["l0"].cell_contents["len0"] = prev.ln


def while_loop(ip, n, s0, mod):
    names = ip.assigned_names(n.body)
    ob0 = len(ip.obligs)
    s0 = s0.copy()

    def run(s):
        """-> (continuing outs, exit outs)"""
        ins, ex = [], []
        for s1, v in ip.ev(n.test, s, mod):
            if s1.exc:
                ex.append((s1, "raise"))
                continue
            a, b = ip.fork(s1, ip.truth(v, s1), n.lineno)
            if b is not None:
                ex.append((b, None))
            if a is not None:
                for s2, fl in ip.exec_block(n.body, a, mod):
                    if fl in (None, "continue"):
                        ins.append((s2, fl))
                    elif fl == "break":
                        ex.append((s2, "brk"))
                    else:
                        ex.append((s2, fl))
        return ins, ex
    items, tys = [], {}
    for _ in range(4):
        s1 = s0.copy()
        for itm in items:
            v = reset_touched(coerce(_pl(ip, itm.get(ip, s0)), tys[itm]))
            itm.set(ip, s0, v)
            itm.set(ip, s1, v)
        # discover modifications from a havocked state (a first iteration may not modify everything)
        if items:
            havoc(ip, s1, items, tys)
        ins, ex = run(s1)
        del ip.obligs[ob0:]
        new = find_items(ip, s1, ins, names)
        merged = list(items)
        for i in new:
            if str(i) not in {str(j) for j in merged}:
                merged.append(i)
        ntys = {}
        for i in merged:
            ty = tyof(_pl(ip, i.get(ip, s0)))
            for s, fl in ins:
                ty = join_ty(ty, tyof(_pl(ip, i.get(ip, s))))
            ntys[i] = ty
        if {str(i): repr(t) for i, t in ntys.items()} == {str(i): repr(t) for i, t in tys.items()}:
            break
        items, tys = merged, ntys
    check_alias(ip, s0, ins, items)
    pre = {i: coerce(_pl(ip, i.get(ip, s0)), tys[i]) for i in items}
    cands = []
    for i in items:
        for li, l0 in enumerate(eff_leaves(pre[i], tys[i])):
            if l0["kind"] in ("m", "b"):
                eff = lambda leaf, ks: z3.And(leaf["dom"](ks), leaf["fn"](ks))
                cands.append(Cand(f"{i}{l0['name']} only grows", _grow(i, tys[i], li, l0, eff), i, l0["name"]))
                cands.append(Cand(f"{i}{l0['name']} only shrinks", _shrink(i, tys[i], li, l0, eff), i, l0["name"]))
    cands += templates(ip, items, tys, s0, mod)
    ok = []
    for c in cands:
        s = s0.copy()
        try:
            f = evalc(c, pre, None, None, s)
        except Unsup as e:
            if DEBUG:
                print("UNSUP", n.lineno, c.name[:150], e)
            continue
        if ip.check(s.pc, f, timeout=1500) == "unsat":
            ok.append(c)
        elif DEBUG:
            print("INIT", n.lineno, c.name[:150])
    cands = ok
    while True:
        h = s0.copy()
        vals = havoc(ip, h, items, tys)
        for c in cands:
            h.assume(evalc(c, vals, None, None, h))
        del ip.obligs[ob0:]
        ins, ex = run(h)
        bad = set()
        for s, fl in ins:
            pv = vals_of(ip, s, items, tys)
            for c in cands:
                if c in bad:
                    continue
                s2 = s.copy()
                f = evalc(c, pv, None, None, s2)
                if ip.check(s2.pc, f, timeout=3000) != "unsat":
                    if DEBUG:
                        print("DROP", n.lineno, c.name[:150], getattr(s, "log", None))
                        if DEBUG != "1" and DEBUG in c.name:
                            z = z3.Solver(); z.add(*s2.pc, z3.Not(f)); open("/tmp/drop.smt2", "w").write(z.to_smt2())
                    bad.add(c)
        if not bad:
            break
        cands = [c for c in cands if c not in bad]
    ip.stats["loops"].append(dict(line=n.lineno, kept=[c.name for c in cands], lossy=["while"]))
    res = []
    for s, fl in ex:
        s.abstract = s.abstract + ["while loop: invariant is an over-approximation"]
        if fl == "brk":
            undef_temps(ip, s0, s, names)
            res.append((s, None))
        elif fl is None:
            undef_temps(ip, s0, s, names)
            res += ip.exec_block(n.orelse, s, mod)
        else:
            res.append((s, fl))
    return res
