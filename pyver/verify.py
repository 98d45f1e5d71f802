"""Obligation generation and discharge for one contract."""
from __future__ import annotations
import ast
import time
import traceback
import z3
from .core import *
from . import core
from .interp import Interp, State, ConstT, OpaqueT, Exc, close, is_container_val
from .repo import Repo


def hash_axioms(hashes):
    out = []
    for i in range(len(hashes)):
        for j in range(i):
            (t1, v1, b1), (t2, v2, b2) = hashes[i], hashes[j]
            # rename the binders of the second registration apart
            nb = [z3.FreshConst(b.sort(), "hb") for b in b2]
            ps = list(zip(b2, nb))
            t2s = subst_t(t2, ps)
            try:
                v2s = subst(v2, ps) if ps else v2
                eq = canon_eq(v1, v2s)
            except Unsup:
                continue
            f = (t1 == t2s) == eq
            out.append(close(list(b1) + nb, f))
        t1, v1, b1 = hashes[i]
        if b1:
            nb = [z3.FreshConst(b.sort(), "hb") for b in b1]
            ps = list(zip(b1, nb))
            out.append(close(list(b1) + nb, (t1 == subst_t(t1, ps)) == canon_eq(v1, subst(v1, ps))))
    return out


def canon_eq(a, b):
    """structural equality of hashed values; sorted lists of pairs are compared as sets"""
    sa, sb = getattr(a, "sorted_of", None), getattr(b, "sorted_of", None)
    if sa is not None and sb is not None and sa[2] and sb[2]:
        if sa[1] != sb[1]:
            ty = join_ty(sa[1], sb[1])
        else:
            ty = sa[1]
        ks = kconsts(ty)
        k = unflat(ks, ty)
        return z3.ForAll(ks, sa[0](k) == sb[0](k))
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return z3.And(*[canon_eq(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Tup) != isinstance(b, Tup) and (isinstance(a, (ListV, Tup)) and isinstance(b, (ListV, Tup))):
        return z3.BoolVal(False)
    if isinstance(a, ListV) and isinstance(b, ListV) and a.it is not None and b.it is not None and a.it.conc is not None and b.it.conc is not None:
        if len(a.it.conc) != len(b.it.conc):
            return z3.BoolVal(False)
        return z3.And(*[canon_eq(x, y) for x, y in zip(a.it.conc, b.it.conc)]) if a.it.conc else z3.BoolVal(True)
    return eqf(a, b)


class Result:
    def __init__(self, qual):
        self.qual = qual
        self.status = "ok"          # ok | unsupported | missing
        self.detail = ""
        self.obs = []               # dict(name, status, kind, time, backend, model)
        self.stats = {}
        self.wall = 0.0
        self.src = ""

    def as_dict(self):
        return dict(qual=self.qual, status=self.status, detail=self.detail, obs=self.obs, stats=self.stats, wall=self.wall, src=self.src)


def snapshot_roots(ip, st, reg):
    return dict(st.heap)


def covered(loc, mods):
    return any(loc == m or loc.startswith(m + ".") or loc.startswith(m + "[") for m in mods)


def frame_obligs(ip, st, entry, names, mods, exc, qual):
    """everything reachable at entry and not listed in `modifies` is unchanged"""
    out = []
    seen = set()

    def cmp_val(path, old, new):
        if same(old, new):
            return
        if isinstance(old, Ptr) and isinstance(new, Ptr):
            if old.root == new.root and not old.path:
                return go_cell(path, old)
            o, n = ip.deref(entry, old), ip.deref(st, new)
            if is_container_val(o) and is_container_val(n):
                out.append((path, eqv(o, n)))
                return
            out.append((path, z3.BoolVal(False)))
            return
        if isinstance(old, (UnkFn, T, str, int)) or old is None or isinstance(old, Tup) and not isinstance(new, Ptr):
            try:
                out.append((path, eqf(old, new)))
            except Unsup:
                out.append((path, z3.BoolVal(old is new)))
            return
        if isinstance(old, Opaque) and isinstance(new, Opaque) and old is new:
            return
        out.append((path, z3.BoolVal(old is new)))

    def eqv(o, n):
        if getattr(o, "rec", None) is not None or getattr(n, "rec", None) is not None:
            return ip.rec_eq(o, n, st)
        return eqf(o, n)

    def go_cell(path, ptr):
        if ptr.root in seen or covered(path, mods):
            seen.add(ptr.root)
            return
        seen.add(ptr.root)
        o, n = entry.heap[ptr.root], st.heap[ptr.root]
        if isinstance(o, ObjC):
            for f, x in o.fields.items():
                if covered(f"{path}.{f}", mods):
                    if isinstance(x, Ptr):
                        seen.add(x.root)
                    continue
                y = n.fields.get(f)
                cmp_val(f"{path}.{f}", x, y)
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.root == y.root:
                    go_cell(f"{path}.{f}", x)
            for f in n.fields:
                if f not in o.fields and not covered(f"{path}.{f}", mods):
                    out.append((f"{path}.{f} (created)", z3.BoolVal(False)))
            return
        if o is not n:
            out.append((path, eqv(o, n)))

    for nme, v in names.items():
        if isinstance(v, Ptr):
            if covered(nme, mods):
                seen.add(v.root)
            go_cell(nme, v) if not covered(nme, mods) else None
    for r, o in entry.heap.items():
        if isinstance(r, tuple) and r[0] == "F":
            n = st.heap.get(r)
            if n is o or n is None:
                continue
            if f"F:{r[1]}.{r[2]}" in mods:
                continue
            out.append((f"field {r[1]}.{r[2]} of existing objects", eqf(o, n)))
        if isinstance(r, tuple) and r[0] == "G" and f"{r[1]}.{r[2]}" not in mods:
            n = st.heap.get(r)
            if n is not o:
                cmp_val(f"{r[1]}.{r[2]}", o, n)
    return out


def verify(repo, reg, qual, budget=120, dump=False):
    """one run per None/object choice of the optional collaborators reachable from the parameters"""
    todo, seen, res = [{}], set(), None
    while todo:
        ch = todo.pop()
        key = tuple(sorted(ch.items()))
        if key in seen:
            continue
        seen.add(key)
        r, full = verify1(repo, reg, qual, budget, dump, dict(ch))
        fk = tuple(sorted(full.items()))
        seen.add(fk)
        for k in full:
            alt = dict(full)
            alt[k] = not alt[k]
            if tuple(sorted(alt.items())) not in seen:
                todo.append(alt)
        if res is None:
            res = r
        else:
            res = merge_results(res, r)
        if r.status != "ok":
            break
    return res


def merge_results(a, b):
    g = {o["name"]: o for o in a.obs}
    order = ["proved", "unknown", "refuted"]
    for o in b.obs:
        if o["name"] in g:
            x = g[o["name"]]
            x["paths"] += o["paths"]
            x["time"] += o["time"]
            if order.index(o["status"]) > order.index(x["status"]):
                x["status"], x["info"] = o["status"], o["info"]
        else:
            a.obs.append(o)
    if b.status != "ok":
        a.status, a.detail = b.status, b.detail
    for k, v in b.stats.items():
        if isinstance(v, list):
            a.stats[k] = a.stats.get(k, []) + [x for x in v if x not in a.stats.get(k, [])]
        elif isinstance(v, (int, float)):
            a.stats[k] = a.stats.get(k, 0) + v
    a.wall += b.wall
    return a


def verify1(repo, reg, qual, budget, dump, choice):
    r, ip = _verify(repo, reg, qual, budget, dump, choice)
    # a collaborator no path looked at needs no second run
    return r, {k: v for k, v in ip.optchoice.items() if k in ip.opt_used or not v}


def _verify(repo, reg, qual, budget, dump, choice):
    ct = reg.contracts[qual]
    res = Result(qual)
    t0 = time.time()
    ip = Interp(repo, reg)
    ip.optchoice = choice
    core._ctr = __import__("itertools").count()
    ip.deadline = t0 + (ct.budget or budget)
    ip.target = qual
    ip.force_inline = frozenset(ct.inline)
    ip.loop_templates = list(ct.loops)
    ip.faults = ct.faults
    ip.manual_loops, ip.use_order = ct.manual, ct.ordered
    obs = []
    try:
        if ct.lemma is not None:
            node, mod, cls = ct.lemma, repo.mods[ct.mod or "mandala.storage"], None
            res.src = "lemma"
        else:
            f = repo.find(qual)
            if f is None:
                res.status, res.detail = "missing", f"{qual} not found in /repo"
                return res, ip
            mod, node, cls = f
            res.src = f"{mod.name}:{node.lineno} {repo.digest(node)}"
        st = State()
        ip.push_frame(st)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        vals = {}
        for (cn, an), ty in reg.class_state.items():
            own = ct.types.get(f"{cn}.{an}")          # a contract may narrow the declared type of class state
            st.heap[("G", cn, an)] = ip.mkparam(own, f"{cn}_{an}", st) if own is not None else ip.mkparam(reg.parse_ty(ty), f"{cn}.{an}", st)
        for p in params:
            ty = ct.types.get(p)
            if ty is None:
                if p == "conn":
                    vals[p] = Opaque("conn")
                    continue
                raise Unsup(f"parameter {p} has no declared type")
            vals[p] = ip.mkparam(ty, p, st)
        frame = st.cur
        st.envs[frame].update(vals)
        for nm, ty in ct.types.items():
            if nm not in vals and "." not in nm:
                vals[nm] = ip.mkparam(ty, nm, st)
                st.envs[frame][nm] = vals[nm]
                ip.ghosts[nm] = vals[nm]
        for r in ct.requires:
            st.assume(ip.spec_formula(r, st, st))
        # touch specs once so that all field roots exist in the entry state
        for x in list(ct.ensures) + [c for c in ct.raises.values() if c]:
            s = st.copy()
            if not (ct.nested and "result" in vals):
                s.envs[frame]["result"] = None
            try:
                ip.spec_value(x, s, st)
            except (Unsup, KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception):
                pass
            for k, v in s.heap.items():
                if k not in st.heap and isinstance(k, tuple):
                    ip.froot(st, k[1], k[2]) if k[0] == "F" else None
        entry = st.copy()
        ip.entry_state = entry
        if ip.check(st.pc, timeout=1000) == "unsat":
            obs.append(dict(name=f"{qual}: precondition is satisfiable", goal=z3.BoolVal(False), pc=[], kind="cover", abstract=[], hashes=[], log=[]))
        fn = Fn(node, mod, cls=cls)
        args = [vals[x.arg] for x in a.posonlyargs + a.args]
        kw = {x.arg: vals[x.arg] for x in a.kwonlyargs}
        # run the body in its own frame
        s0 = st.copy()
        ip.push_frame(s0, parent=None)
        for p in params:
            s0.envs[s0.cur][p] = vals[p]
        if ct.nested:       # its own name and what it takes from the enclosing function
            s0.envs[s0.cur].update({k: v for k, v in vals.items() if k not in params})
            s0.envs[s0.cur][node.name] = Fn(node, mod, env=s0.cur)
        ip.callstack.append(id(node))
        ps_ = a.posonlyargs + a.args
        ip.clsstack.append((cls, vals.get(ps_[0].arg) if ps_ else None))
        ip.depth = 1
        outs = ip.exec_block(node.body, s0, mod)
        ip.depth = 0
        normal = 0
        for s, fl in outs:
            s.cur = frame
            if fl == "raise":
                exc = s.exc
                s.exc = None
                cond = None
                ok = False
                for k, c in ct.raises.items():
                    if ip.exc_matches(exc.cls, [k]):
                        ok, cond = True, c
                if not ok:
                    obs.append(ob(ip, s, f"{qual}: raises nothing but {sorted(ct.raises) or 'nothing'} ({exc.cls} at line {exc.line})", z3.BoolVal(False), "raise"))
                else:
                    if cond is not None:
                        s2 = s.copy()
                        f = in_old(ip, cond, s2, entry)
                        obs.append(ob(ip, s2, f"{qual}: {exc.cls} only when {cond}", f, "raise"))
                    for x in ct.exsures:
                        s2 = s.copy()
                        f = ip.spec_formula(x, s2, entry)
                        obs.append(ob(ip, s2, f"{qual}: on exception: {x}", f, "exsures"))
                    for loc, f in frame_obligs(ip, s, entry, vals, ct.modifies, True, qual):
                        obs.append(ob(ip, s, f"{qual}: frame on exception: {loc} unchanged", f, "frame"))
                continue
            normal += 1
            result = s.ret if fl == "return" else None
            s.ret = None
            if isinstance(result, Opaque) and result.kind == "iter" and isinstance(ct.returns, (SetT, ListT)):
                result = ip.box(s, ip.to_set(result, s) if isinstance(ct.returns, SetT) else ip.to_list(result, s))
            if isinstance(ct.returns, BagT):
                l = ip.to_list(result, s)
                i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
                same = eqf(l.at(T(i, INT)), l.at(T(j, INT)))
                obs.append(ob(ip, s, f"{qual}: the returned elements are pairwise distinct", close([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.ln), z3.Not(same))), "type"))
                result = ip.box(s, ip.to_set(result, s))
            if ct.returns is not None and isinstance(result, Ptr):
                shared = shared_roots(ip, s, result, entry)     # callers take the result for a value of its own
                obs.append(ob(ip, s, f"{qual}: the result shares no container with the caller's values", z3.BoolVal(not shared), "frame"))
            if ct.returns is not None:
                chk = check_type(ip, s, result, ct.returns)
                if chk is not None:
                    obs.append(ob(ip, s, f"{qual}: returns {ct.returns}", chk, "type"))
                    if z3.is_false(chk):
                        continue
                if isinstance(ct.returns, Sc) and isinstance(result, (T, FStr, str, int, Tup)) and not (isinstance(result, T) and result.ty == ct.returns):
                    try:
                        result = coerce(result, ct.returns)
                    except Unsup:
                        pass
            if not (ct.nested and "result" in vals):
                s.envs[frame]["result"] = result
            for k, c in ct.raises.items():
                if c is not None:
                    s2 = s.copy()
                    f = in_old(ip, c, s2, entry)
                    obs.append(ob(ip, s2, f"{qual}: returns normally only when not ({c})", z3.Not(f), "raise"))
            for x in ct.ensures:
                s2 = s.copy()
                if not ip.applicable(x, s2):
                    continue
                try:
                    f = ip.spec_formula(x, s2, entry, result=result)
                except TypeErr as ex:
                    f = z3.BoolVal(False)
                obs.append(ob(ip, s2, f"{qual}: ensures {x.strip()}", f, "post"))
            for loc, f in frame_obligs(ip, s, entry, vals, ct.modifies, False, qual):
                obs.append(ob(ip, s, f"{qual}: frame: {loc} unchanged", f, "frame"))
        obs = ip.obligs + obs
        res.stats["paths"] = len(outs)
        res.stats["normal_paths"] = normal
        if not obs:
            obs.append(dict(name=f"{qual}: at least one obligation", goal=z3.BoolVal(False), pc=[], kind="cover", abstract=[], hashes=[], log=[]))
        # vacuity: some normal path must be satisfiable
        if normal and ct.ensures:
            alive = False
            for s, fl in outs:
                if fl != "raise":
                    if ip.check(s.pc + hash_axioms(s.hashes), timeout=800) != "unsat":
                        alive = True
                        break
            obs.append(dict(name=f"{qual}: a normal return is reachable (vacuity)", goal=z3.BoolVal(alive), pc=[], kind="cover", abstract=[], hashes=[], log=[]))
    except Unsup as ex:
        res.status, res.detail = "unsupported", str(ex)
        if dump:
            traceback.print_exc()
    except (z3.Z3Exception, KeyError, TypeError, AttributeError, IndexError, ValueError, RecursionError, AssertionError) as ex:
        res.status, res.detail = "unsupported", f"engine: {type(ex).__name__}: {ex}"
        if dump:
            traceback.print_exc()
    groups = {}
    failed = False
    for o in obs:
        g = groups.setdefault(o["name"], dict(name=o["name"], kind=o["kind"], paths=0, status="proved", time=0.0, info=""))
        g["paths"] += 1
        if g["status"] != "proved":
            continue                    # this obligation failed on another path already
        r, t, model = discharge(ip, o, ct, 1500 if failed else None)
        failed = failed or r != "proved"
        g["time"] += t
        order = ["proved", "unknown", "refuted"]
        if order.index(r) > order.index(g["status"]):
            g["status"] = r
            g["info"] = (f"path {o['log']}\n" if o["log"] else "") + (model or "") + (f"\nabstracted: {o['abstract']}" if o["abstract"] else "")
            if dump == "smt":
                s = z3.Solver()
                fs = o["pc"] + hash_axioms(o["hashes"]) + [z3.Not(o["goal"])]
                s.add(*background(fs)); s.add(*fs)
                open(f"/tmp/ob_{len(groups)}.smt2", "w").write(s.to_smt2())
    res.obs = list(groups.values())
    res.stats.update(checks=ip.stats["checks"], solver_time=round(ip.stats["time"], 3), inlined=sorted(ip.stats["inlined"]),
                     modular=sorted(ip.stats["modular"]), assumed=sorted(ip.stats["assumed"]), loops=ip.stats["loops"])
    res.wall = time.time() - t0
    return res, ip


def shared_roots(ip, st, v, entry):
    """the mutable values of the caller that the result is, or has as a part"""
    if not isinstance(v, Ptr):
        return set()
    c = ip.deref(st, v)
    if isinstance(c, ObjC):
        if v.root in entry.heap:
            return {v.root}
        return set().union(*[shared_roots(ip, st, x, entry) for x in c.fields.values()])
    return {v.root} if v.root in entry.heap or isinstance(v.root, tuple) else set()


class TypeErr(Exception):
    pass


def in_old(ip, cond, s2, entry):
    """evaluate a condition in the entry state (result: formula in s2's context)"""
    s = entry.copy()
    s.pc = s2.pc
    s.cur = s2.cur
    n = len(s.pc)
    f = ip.spec_formula(cond, s, entry)
    return f


def check_type(ip, st, v, ty):
    """None if the value statically has the type; otherwise a formula"""
    c = ip.deref(st, v) if isinstance(v, Ptr) else v
    if isinstance(ty, ConstT):
        return None if is_conc(c) and c == ty.v else z3.BoolVal(False) if not isinstance(c, T) else eqf(c, ty.v)
    if isinstance(ty, CellT):
        return None if isinstance(c, ObjC) else z3.BoolVal(False)
    if isinstance(ty, SetT):
        return None if isinstance(c, SetV) else z3.BoolVal(False)
    if isinstance(ty, DictT):
        return None if isinstance(c, DictV) else z3.BoolVal(False)
    if isinstance(ty, ListT):
        return None if isinstance(c, (ListV,)) else z3.BoolVal(False)
    if isinstance(ty, RecT):
        f = getattr(c, "rec", None) if not isinstance(c, RecV) else c.f
        if f is None or set(f) != set(ty.fields):
            return z3.BoolVal(False)
        fs = [check_type(ip, st, f[k], t) for k, t in ty.fields.items()]
        fs = [x for x in fs if x is not None]
        return None if not fs else z3.And(*fs)
    if isinstance(ty, TupT):
        if isinstance(c, Tup) and len(c.items) == len(ty.ts):
            fs = [check_type(ip, st, x, t) for x, t in zip(c.items, ty.ts)]
            fs = [f for f in fs if f is not None]
            return None if not fs else z3.And(*fs)
        return z3.BoolVal(False) if not isinstance(c, T) else None
    if isinstance(ty, Sc):
        if ty is ANY:
            return None
        if isinstance(c, T) and c.ty == ty:
            return None
        if ty is STR:
            if isinstance(c, (str, FStr)):
                return None
            if isinstance(c, T) and c.ty is ANY:
                return None
            return z3.BoolVal(False)
        if ty is BOOL:
            if isinstance(c, bool) or isinstance(c, T) and c.t.sort().eq(B):
                return None
            return z3.BoolVal(False)
        if ty is INT:
            if isinstance(c, int) or isinstance(c, T) and c.t.sort().eq(I):
                return None
            return z3.BoolVal(False)
        if isinstance(ty, Obj):
            if ty.cls.startswith("?") and c is None:
                return None
            if isinstance(c, T):
                return None
            return z3.BoolVal(False)
    return None


def ob(ip, st, name, goal, kind):
    return dict(name=name, pc=list(st.pc), goal=goal, kind=kind, abstract=list(st.abstract), hashes=list(st.hashes), log=list(st.log))


def consts_of(fs, sort):
    seen, out, stack = set(), {}, list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort().eq(sort):
                out[e.decl().name()] = e
            stack.extend(e.children())
    return list(out.values())


def discharge(ip, o, ct, tmo=None):
    t0 = time.time()
    g = o["goal"]
    if z3.is_true(z3.simplify(g)):
        return "proved", 0.0, None
    if o["kind"] == "cover":
        return ("proved" if z3.is_true(g) else "refuted"), 0.0, None
    fs = o["pc"] + hash_axioms(o["hashes"])
    if ct.mentions:
        # ground terms for the solver to instantiate with (adds no facts: `mention` is a fresh predicate)
        if z3.is_quantifier(g) and g.is_forall():
            g = z3.substitute_vars(g.body(), *[z3.FreshConst(g.var_sort(i), "sk") for i in reversed(range(g.num_vars()))])
        fs = fs + [pure("mention", [U], B)(term(f(c), U)) for srt, f in ct.mentions for c in consts_of(fs + [g], srt)]
    try:
        dl, ip.deadline = ip.deadline, max(ip.deadline or 0, time.time() + 15)
        r, m = ip.check(fs, g, timeout=tmo or ct.timeout or 8000, want_model=True)
        ip.deadline = dl
    except Unsup:
        return "unknown", time.time() - t0, None
    except z3.Z3Exception as ex:
        return "unknown", time.time() - t0, str(ex)
    if r == "unsat":
        return "proved", time.time() - t0, None
    if r == "sat":
        mt = str(m)[:1500]
        return ("unknown" if o["abstract"] else "refuted"), time.time() - t0, mt
    return "unknown", time.time() - t0, None
