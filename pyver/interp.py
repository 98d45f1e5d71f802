"""Forward symbolic execution of the real function bodies (parsed from /repo on every run)."""
from __future__ import annotations
import ast
import itertools
import os
import sys
import time
import z3
from .core import *
from . import core

MAXPATHS = 600
BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "AssertionError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "AttributeError": "Exception",
    "OperationalError": "DatabaseError", "IntegrityError": "DatabaseError", "DatabaseError": "Exception",
    "StopIteration": "Exception", "FileNotFoundError": "OSError", "OSError": "Exception", "KeyboardInterrupt": "BaseException",
    "FuncQueryException": "Exception", "MethodError": "Exception",
}


class Exc:
    def __init__(self, cls, val=None, line=None):
        self.cls, self.val, self.line = cls, val, line

    def __repr__(self):
        return f"{self.cls}@{self.line}"


RL = 3000          # z3 resource units per nominal millisecond


class State:
    __slots__ = ("envs", "parents", "cur", "heap", "pc", "exc", "ret", "hashes", "narrow", "abstract", "log", "npc", "br")

    def __init__(self):
        self.envs, self.parents, self.cur = {}, {}, None
        self.heap, self.pc = {}, []
        self.exc = None
        self.ret = None
        self.hashes = []
        self.narrow = {}
        self.abstract = []
        self.log = []
        self.br = []

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.parents = dict(self.parents)
        s.cur = self.cur
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.exc, s.ret = self.exc, self.ret
        s.hashes = list(self.hashes)
        s.narrow = dict(self.narrow)
        s.abstract = list(self.abstract)
        s.log = list(self.log)
        s.br = list(self.br)
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)


def consts_in(f):
    return syms_of([f])


def exists_elem(it, k, kty):
    """formula: some element of the iteration space equals k"""
    if it.conc is not None:
        return z3.Or(*[eqf(coerce(x, kty), k) for x in it.conc]) if it.conc else z3.BoolVal(False)
    it = it.fresh()
    ts, ks = flat(it.elem, kty), flat(k, kty)
    bs = list(it.binders)
    ps, rest = [], []
    for t, kk in zip(ts, ks):
        hit = next((b for b in bs if b.eq(t) and not any(p[0].eq(b) for p in ps)), None)
        if hit is not None and kk.sort().eq(hit.sort()):
            ps.append((hit, kk))
        else:
            rest.append((t, kk))
    g = z3.And(it.guard, *[t == kk for t, kk in rest]) if rest else it.guard
    g = subst_t(g, ps)
    bs = [b for b in bs if not any(p[0].eq(b) for p in ps)]
    return z3.Exists(bs, g) if bs else g


class Interp:
    def __init__(self, repo, registry, timeout=4000):
        self.repo, self.reg = repo, registry
        self.timeout = timeout
        self.spec = 0
        self.binders = []           # stack of lists of z3 consts
        self.obligs = []
        self.field_init = {}
        self.root_ids = itertools.count()
        self.env_ids = itertools.count()
        self.uid = itertools.count(1)
        self.old_state = None
        self.loop_entry = self.loop_iter = None
        self.target = None          # qualname under verification
        self.depth = 0
        self.stats = {"checks": 0, "time": 0.0, "inlined": set(), "modular": set(), "assumed": set(), "loops": []}
        self.callstack = []
        self.result = None
        self.loop_templates = []
        self.faults = set()
        self.defids = []
        self.defs = []          # definitional axioms of fresh symbols: hold on every path
        self.manual_loops, self.loop_depth, self.use_order = False, 0, False
        self.deadline = None
        self.done_fn = None
        self.ghosts = {}
        self.sorted_lists = []
        self.defaults = {}
        self.optchoice = {}
        self.opt_of, self.opt_used, self.feas = {}, set(), {}
        self.clsstack = []
        self.entry_state = None
        self.objrefs, self.obj_facts = {}, []
        from .lib import Lib
        self.lib = Lib(self)

    # ------------------------------------------------------------ solver
    def check(self, facts, goal=None, timeout=None, want_model=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsup("function time budget exhausted")
        if goal is not None:
            known = {akey(f) for f in conjs(facts) if z3.is_quantifier(f)}
            if all(z3.is_quantifier(g) and akey(g) in known for g in conjs([goal])):     # already known, up to the names of bound variables
                return ("unsat", None) if want_model else "unsat"
        fs = list(facts) + ([z3.Not(goal)] if goal is not None else [])
        t0 = time.time()
        res, model = "unknown", None
        to = timeout or self.timeout
        bg = background(fs)
        # resource limits, not wall time: the verdict must not depend on the machine's load
        small = timeout is not None and timeout <= 3000
        for attempt, (mbqi, share) in enumerate(((False, 0.1), (None, 1), (False, 0.5)) if small and goal is not None else ((False, 0.5),) if small else ((False, 0.1), (None, 3), (False, 0.5), (True, 1.0), (False, 0.5))):
            if mbqi is None:
                if goal is not None and cvc5_unsat(bg + fs, 1000 * share if not small else 400):
                    self.stats["cvc5"] = self.stats.get("cvc5", 0) + 1
                    self.last_back = "cvc5"
                    res = "unsat"
                    break
                continue
            self.last_back = "z3"
            s = z3.Solver()
            s.set("rlimit", max(1, int(to * share * RL)))
            s.set("timeout", int(to * share * 10) + 2000)
            if not mbqi:
                s.set("smt.mbqi", False)
            if attempt == 4:
                s.set("smt.random_seed", 7)
            s.add(*bg)
            s.add(*fs)
            r = s.check()
            self.stats["checks"] += 1
            if os.environ.get("ZSTAT"):
                st_ = {k: v for k, v in s.statistics()} if False else None
                rl = s.statistics().get_key_value("rlimit count") if "rlimit count" in s.statistics().keys() else 0
                sys.stderr.write(f"Z {r} att{attempt} rl={rl} t={time.time()-t0:.2f} to={to}\n")
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat and mbqi:
                res, model = "sat", s.model()
                break
        self.stats["time"] += time.time() - t0
        return (res, model) if want_model else res

    def feasible(self, st, extra=None):
        fs = st.pc + ([extra] if extra is not None else [])
        if extra is not None and z3.is_false(z3.simplify(extra)):
            return False
        key = tuple(f.get_id() for f in fs)
        if key not in self.feas:
            # the formulas are kept, so their ids are not reused
            self.feas[key] = (self.check(fs, timeout=120) != "unsat", fs)

        return self.feas[key][0]

    # ------------------------------------------------------------ allocation
    def allb(self):
        return [b for bs in self.binders for b in bs]

    def fresh(self, ty, name, st, wf=True):
        v = mk(ty, name)(self.allb())
        if wf:
            for f in wf_facts(v, self.allb()):
                st.assume(f)
        return v

    def alloc(self, st, content):
        r = f"c{next(self.root_ids)}"
        st.heap[r] = content
        return Ptr(r)

    def box(self, st, v):
        """containers produced by evaluation live in a cell"""
        if isinstance(v, (SetV, DictV, ListV, ObjC, RecV)):
            return self.alloc(st, v)
        return v

    def field_root(self, cls, field):
        for c in self.mro(cls):
            d = self.reg.classes.get(c)
            if d and field in d["fields"]:
                return c, d["fields"][field]
        return None

    def mro(self, cls):
        m = self.repo.mro(cls)
        d = self.reg.classes.get(cls)
        if d and d.get("bases"):
            for b in d["bases"]:
                m = m + [x for x in self.mro(b) if x not in m]
        return m

    def subclasses(self, cls):
        return self.repo.subclasses(cls)

    def is_def(self, f):
        while len(self.defids) < len(self.defs):
            self.defids.append(self.defs[len(self.defids)].get_id())
        return f.get_id() in self.defids

    def froot(self, st, cls, field):
        r = self.field_root(cls, field)
        if r is None:
            raise Unsup(f"no declared field {cls}.{field}")
        root = ("F", r[0], field)
        if root not in self.field_init:
            b = mk(r[1], f"{r[0]}.{field}")
            v = DictV(lambda k: z3.BoolVal(True), lambda k: b([term(k, U)]), ANY, r[1])
            self.field_init[root] = (v, wf_facts(DictV(v.mem, v.at, ANY, r[1])))
            self.defs += self.field_init[root][1]
        if root not in st.heap:
            v, facts = self.field_init[root]
            st.heap[root] = v
            for f in facts:
                st.assume(f)
        return root, r[1]

    # ------------------------------------------------------------ deref / store
    def deref(self, st, v):
        if isinstance(v, Ptr):
            if v.root not in st.heap and isinstance(v.root, tuple):
                self.froot(st, v.root[1], v.root[2])
            c = st.heap[v.root]
            for k in v.path:
                if isinstance(c, ListV):
                    c = c.at(k)
                elif isinstance(c, DictV):
                    c = c.at(k)
                elif isinstance(c, RecV):
                    c = c.f[k]
                else:
                    raise Unsup("bad path")
            return c
        return v

    def store(self, st, ptr, content, touch=False):
        def upd(c, path):
            if not path:
                return content
            k = path[0]
            if isinstance(c, RecV):
                return RecV({**c.f, k: upd(c.f[k], path[1:])})
            if isinstance(c, DictV):
                ks = flat(k, c.kty) if not isinstance(c.kty, Bot) else None
                if ks is None:
                    raise Unsup("store through empty dict")
                inner = upd(c.at(k), path[1:])
                vty = c.vty
                try:
                    ity = tyof(inner)
                    if is_container(ity):
                        vty = join_ty(c.vty, ity)
                        if vty != c.vty:
                            c = coerce(c, DictT(c.kty, vty))
                            inner = coerce(inner, vty)
                        elif ity != vty:
                            inner = coerce(inner, vty)
                except Unsup:
                    raise
                old = c

                def hit(x):
                    return z3.And(*[a == b for a, b in zip(flat(x, old.kty), ks)])
                return DictV(old.mem, lambda x: ite(hit(x), inner, old.at(x)), old.kty, vty,
                             (lambda x: z3.Or(hit(x), old.touched(x))) if touch and len(path) == 1 else old.touched,
                             order=old.order)
            if isinstance(c, ListV):
                i = term(k, I)
                inner = upd(c.at(k), path[1:])
                old = c
                return ListV(old.ln, lambda x: ite(term(x, I) == i, inner, old.at(x)), old.ety)
            raise Unsup("store path")
        st.heap[ptr.root] = upd(st.heap[ptr.root], ptr.path)

    def objref(self, st, p):
        """a reference to a heap object as a value in a container"""
        if p.path:
            raise Unsup("nested object stored in a container")
        t = z3.Const(f"objref!{p.root}", U)
        if t.decl().name() not in self.objrefs:
            for q in self.objrefs.values():
                self.obj_facts.append(t != z3.Const(f"objref!{q.root}", U))
            self.obj_facts.append(t != NONE)
            self.objrefs[t.decl().name()] = p
        for f in self.obj_facts:
            if not any(f.eq(x) for x in st.pc):
                st.assume(f)
        return T(t, ANY)

    def unref(self, v):
        if self.objrefs and isinstance(v, T) and v.t.sort().eq(U):
            t = v.t if z3.is_const(v.t) else z3.simplify(v.t)
            if z3.is_const(t) and t.decl().name() in self.objrefs:
                return self.objrefs[t.decl().name()]
        return v

    def content(self, st, v, ty=None):
        """value to embed in a container: cells are copied in (move semantics)"""
        if isinstance(v, Ptr):
            c = self.deref(st, v)
            if isinstance(c, ObjC):
                return self.objref(st, v)
            if getattr(c, "rec", None) is not None:
                return RecV({k: self.content(st, x) for k, x in c.rec.items()})
            return self.deep(st, c)
        if isinstance(v, DictV) and getattr(v, "rec", None) is not None:
            return RecV({k: self.content(st, x) for k, x in v.rec.items()})
        if isinstance(v, FStr):
            return T(fstr_term(v), STR)
        if isinstance(v, Tup):
            return Tup([self.content(st, x) for x in v.items])
        if isinstance(v, (Opaque, Iter)):
            raise Unsup(f"opaque {getattr(v, 'kind', '')} stored in a container")
        return v

    def deep(self, st, c):
        return c

    # ------------------------------------------------------------ names
    def lookup(self, st, name, mod):
        e = st.cur
        while e is not None:
            if name in st.envs[e]:
                v = st.envs[e][name]
                if isinstance(v, Undef):
                    raise Unsup(f"use of loop-local {name} after loop")
                return v
            e = st.parents.get(e)
        if self.spec and name in self.reg.specfns:
            return Fn(self.reg.specfns[name], None, None, name=name)
        if mod is None and name in self.ghosts:
            return self.ghosts[name]
        if mod is not None:
            r = self.repo.lookup(mod.name, name)
            if r is not None:
                return self.global_value(r, name, st)
        if name in BUILTIN_EXC or mod is None and name in self.reg.classes:
            return ClassV(name)
        return BuiltinV(name)

    def global_value(self, r, name, st):
        if r[0] == "func":
            return Fn(r[2], r[1])
        if r[0] == "class":
            return ClassV(r[2].name)
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            if r[2] in BUILTIN_EXC:
                return ClassV(r[2])
            return BuiltinV(r[2] if r[1] in (None, "typing", "collections") else f"{r[1]}.{r[2]}" if r[1] else r[2])
        if r[0] == "assign":
            try:
                return ast.literal_eval(r[2])
            except Exception:
                pass
            if isinstance(r[2], ast.Call) and isinstance(r[2].func, ast.Name) and r[2].func.id in ("TypeVar",):
                return BuiltinV(name)
            return BuiltinV(f"global:{name}")
        raise Unsup(f"name {name}")

    # ------------------------------------------------------------ truth / bool
    def truth(self, v, st):
        v = self.deref(st, v) if isinstance(v, Ptr) else v
        if v is None:
            return z3.BoolVal(False)
        if is_conc(v):
            return z3.BoolVal(bool(v))
        if isinstance(v, T):
            if v.t.sort().eq(B):
                return v.t
            if v.t.sort().eq(I):
                return v.t != 0
            if isinstance(v.ty, Obj):
                return z3.BoolVal(True) if not v.ty.cls.startswith("?") else v.t != NONE
            if v.ty is STR:
                return v.t != lit("")
            f = pure("truthy", [U], B)
            return z3.And(v.t != NONE, v.t != lit(""), f(v.t))
        if isinstance(v, Tup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (SetV, DictV)):
            if isinstance(v.kty, Bot):
                return z3.BoolVal(False)
            ks = kconsts(v.kty)
            return z3.Exists(ks, v.mem(unflat(ks, v.kty)))
        if isinstance(v, ListV):
            return v.ln > 0
        if isinstance(v, (ObjC, Fn, Bound, BuiltinV, ClassV, UnkFn, Opaque)):
            return z3.BoolVal(True)
        if isinstance(v, FStr):
            return fstr_term(v) != lit("")
        raise Unsup(f"truth of {type(v).__name__}")

    def fork(self, st, cond, line=None):
        """-> (state if true | None, state if false | None)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy(), st.copy()
        a.assume(cond)
        b.assume(z3.Not(cond))
        a.br.append(cond)
        b.br.append(z3.Not(cond))
        a.log.append(f"L{line}:T")
        b.log.append(f"L{line}:F")
        ra = a if self.feasible(a) else None
        rb = b if self.feasible(b) else None
        if ra is None and rb is not None:
            return None, rb
        return ra, rb

    def raise_(self, st, cls, line=None, val=None):
        s = st
        s.exc = Exc(cls, val, line)
        return (s, None)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, mod):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsup(f"expression {type(e).__name__} at line {getattr(e, 'lineno', '?')}")
        return m(e, st, mod)

    def seq(self, es, st, mod):
        """evaluate expressions left to right -> [(st, [vals])] (exc states pass through with None)"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                if s.exc:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, mod):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def one(self, e, st, mod):
        """evaluate, requiring a single normal outcome"""
        r = self.ev(e, st, mod)
        if len(r) != 1 or r[0][0].exc:
            raise Unsup(f"branching expression in spec: {ast.unparse(e)}")
        return r[0][1]

    def bind(self, rs, f):
        out = []
        for s, v in rs:
            if s.exc:
                out.append((s, None))
            else:
                out.extend(f(s, v))
        return out

    def ev_Constant(self, e, st, mod):
        return [(st, e.value)]

    def ev_Name(self, e, st, mod):
        return [(st, self.lookup(st, e.id, mod))]

    def ev_NamedExpr(self, e, st, mod):
        def f(s, v):
            self.assign(e.target, v, s, mod)
            return [(s, v)]
        return self.bind(self.ev(e.value, st, mod), f)

    def ev_Tuple(self, e, st, mod):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsup("starred tuple")
        return [(s, None if s.exc else Tup(vs)) for s, vs in self.seq(e.elts, st, mod)]

    def mklist(self, st, vs):
        vs = [self.content(st, v) for v in vs]
        if not vs:
            return ListV(z3.IntVal(0), None, BOT, has=lambda e: z3.BoolVal(False), it=Iter([], None, None, conc=[]))
        ty = tyof(vs[0])
        for v in vs[1:]:
            ty = join_ty(ty, tyof(v))
        cv = [coerce(v, ty) for v in vs]

        def at(i):
            if isinstance(i, int):
                return cv[i]
            t = term(i, I)
            if z3.is_int_value(t) and 0 <= t.as_long() < len(cv):
                return cv[t.as_long()]
            r = cv[-1]
            for j in range(len(cv) - 2, -1, -1):
                r = ite(t == j, cv[j], r)
            return r
        has = (lambda e: z3.Or(*[eqf(c, e) for c in cv])) if isinstance(ty, (Sc, TupT)) else None
        return ListV(z3.IntVal(len(cv)), at, ty, has=has, it=Iter([], None, None, conc=cv))

    def ev_List(self, e, st, mod):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsup("starred list")
        # a list of values the solver knows nothing of can only be handed to a modelled call
        return [(s, None if s.exc else Opaque("olist", items=vs) if any(isinstance(v, Opaque) and v.kind == "vrow" for v in vs) else self.box(s, self.mklist(s, vs)))
                for s, vs in self.seq(e.elts, st, mod)]

    def mkset(self, st, vs):
        if not vs:
            return SetV(lambda k: z3.BoolVal(False), BOT, it=Iter([], None, None, conc=[]))
        vs = [self.content(st, v) for v in vs]
        ty = tyof(vs[0])
        for v in vs[1:]:
            ty = join_ty(ty, tyof(v))
        cv = [coerce(v, ty) for v in vs]
        return SetV(lambda k: z3.Or(*[eqf(c, k) for c in cv]), ty)

    def ev_Set(self, e, st, mod):
        return [(s, None if s.exc else self.box(s, self.mkset(s, vs))) for s, vs in self.seq(e.elts, st, mod)]

    def empty_dict(self):
        return DictV(lambda k: z3.BoolVal(False), None, BOT, BOT, lambda k: z3.BoolVal(True))

    def dict_set(self, st, d, k, v):
        v = self.content(st, v)
        k = self.content(st, k)
        kty = join_ty(d.kty, tyof(k)) if not isinstance(d.kty, Bot) else tyof(k)
        vty = join_ty(d.vty, tyof(v))
        if isinstance(d.vty, Obj) and isinstance(vty, Sc) and vty.sort.eq(U) and not isinstance(vty, Obj):
            vty = ANY
        d = coerce(d, DictT(kty, vty))
        v = coerce(v, vty)
        ks = flat(k, kty)

        def hit(x):
            return z3.And(*[a == b for a, b in zip(flat(x, kty), ks)])
        return DictV(lambda x: z3.Or(hit(x), d.mem(x)), lambda x: ite(hit(x), v, d.at(x)), kty, vty,
                     lambda x: z3.Or(hit(x), d.touched(x)))

    def dict_merge(self, a, b):
        if isinstance(b.kty, Bot):
            return a
        if isinstance(a.kty, Bot):
            return DictV(b.mem, b.at, b.kty, b.vty)
        ty = join_ty(DictT(a.kty, a.vty), DictT(b.kty, b.vty))
        a, b = coerce(a, ty), coerce(b, ty)
        return DictV(lambda k: z3.Or(b.mem(k), a.mem(k)), lambda k: ite(b.mem(k), b.at(k), a.at(k)), ty.k, ty.v,
                     lambda k: z3.Or(b.mem(k), a.touched(k)))

    def ev_Dict(self, e, st, mod):
        acc = [(st, self.empty_dict())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, d in acc:
                if s.exc:
                    nxt.append((s, d))
                    continue
                if k is None:
                    for s2, m in self.ev(v, s, mod):
                        nxt.append((s2, None if s2.exc else self.dict_merge(d, self.deref(s2, m))))
                else:
                    for s2, vs in self.seq([k, v], s, mod):
                        if s2.exc:
                            nxt.append((s2, None))
                        elif isinstance(d, DictV) and (isinstance(d.kty, Bot) or getattr(d, "rec", None) is not None) and isinstance(vs[0], str):
                            nxt.append((s2, self.rec_add(s2, d, vs[0], vs[1])))
                        else:
                            nxt.append((s2, self.dict_set(s2, self.plain(d), vs[0], vs[1])))
            acc = nxt
        return [(s, None if s.exc else self.box(s, d)) for s, d in acc]

    # records: dict literals with constant string keys keep their per-key types
    def rec_add(self, st, d, k, v):
        rec = dict(getattr(d, "rec", None) or {})
        rec[k] = v
        r = DictV(lambda x: z3.Or(*[term(x, U) == lit(q) for q in rec]), None, STR, ANY)
        r.rec = rec
        return r

    def plain(self, d):
        """record -> ordinary dict (only if all values share a type)"""
        if getattr(d, "rec", None) is None:
            return d
        r = self.empty_dict()
        for k, v in d.rec.items():
            r = self.dict_set(self.st_tmp, r, k, v) if False else self._dset_plain(r, k, v)
        return r

    def _dset_plain(self, d, k, v):
        class S:
            heap = {}
        if isinstance(v, Ptr):
            raise Unsup("record with container values used as a plain dict")
        return self.dict_set(S(), d, k, v)

    def ev_JoinedStr(self, e, st, mod):
        acc = [(st, [])]
        for p in e.values:
            nxt = []
            for s, parts in acc:
                if s.exc:
                    nxt.append((s, parts))
                elif isinstance(p, ast.Constant):
                    nxt.append((s, parts + [p.value]))
                else:
                    try:
                        r = self.ev(p.value, s.copy(), mod)
                    except Unsup:
                        if self.msgctx:
                            nxt.append((s, parts + ["?"]))
                            continue
                        raise
                    for s2, v in r:
                        if s2.exc:
                            nxt.append((s2, parts))
                            continue
                        v = self.deref(s2, v) if isinstance(v, Ptr) else v
                        if isinstance(v, (str, int)) and not isinstance(v, bool) and p.format_spec is None and p.conversion == -1:
                            origin = None
                            if isinstance(p.value, ast.Attribute):
                                origin = self._origin(p.value, s2, mod)
                            nxt.append((s2, parts + ([str(v)] if origin is None else [(v, origin)])))
                        elif isinstance(v, Opaque) and v.kind == "placeholders":
                            nxt.append((s2, parts + [(v, None)]))
                        else:
                            origin = self._origin(p.value, s2, mod) if isinstance(p.value, ast.Attribute) else None
                            if isinstance(v, FStr):
                                nxt.append((s2, parts + list(v.parts)))
                                continue
                            if p.format_spec is not None or p.conversion != -1:
                                v = T(pure("fmt!" + (ast.unparse(p.format_spec) if p.format_spec else str(p.conversion)), [term(v).sort()], U)(term(v)), STR) if not self.msgctx else "?"
                            try:
                                term(v)
                            except Unsup:
                                if not self.msgctx and origin is None:
                                    raise
                                v = "?"
                            nxt.append((s2, parts + [(v, origin)]))
            acc = nxt
        out = []
        for s, parts in acc:
            if s.exc:
                out.append((s, None))
            elif all(isinstance(p, str) for p in parts):
                out.append((s, "".join(parts)))
            else:
                out.append((s, FStr(parts)))
        return out
    msgctx = False

    def _origin(self, node, st, mod):
        try:
            r = self.ev(node.value, st.copy(), mod)
            if len(r) == 1 and isinstance(r[0][1], Ptr):
                return (r[0][1].root, node.attr)
        except Unsup:
            pass
        return None

    def ev_IfExp(self, e, st, mod):
        out = []
        for s, c in self.ev(e.test, st, mod):
            if s.exc:
                out.append((s, None))
                continue
            cond = self.truth(c, s)
            out += self.branch(s, cond, lambda x: self.ev(e.body, x, mod), lambda x: self.ev(e.orelse, x, mod), e.lineno, test=e.test, mod=mod)
        return out

    def branch(self, st, cond, fa, fb, line, test=None, mod=None):
        """conditional expression: merge if both sides are pure and mergeable, otherwise fork"""
        if self.spec:
            c = z3.simplify(cond)
            if z3.is_true(c):
                return fa(st)
            if z3.is_false(c):
                return fb(st)
        n, hk = len(st.pc), dict(st.heap)
        a, b = (st.copy(), st.copy())
        a.assume(cond)
        b.assume(z3.Not(cond))
        a.br.append(cond)
        b.br.append(z3.Not(cond))
        if self.spec:
            fa_ok = fb_ok = True
        else:
            fa_ok, fb_ok = self.feasible(a), self.feasible(b)
        if not fa_ok and fb_ok:
            return fb(b)
        if fa_ok and not fb_ok:
            if test is not None:
                self.narrow(test, a, mod, True)
            return fa(a)
        if test is not None:
            self.narrow(test, a, mod, True)
            self.narrow(test, b, mod, False)
        na, nb = len(a.pc), len(b.pc)
        ra, rb = fa(a), fb(b)
        if len(ra) == 1 and len(rb) == 1 and not ra[0][0].exc and not rb[0][0].exc:
            sa, va = ra[0]
            sb, vb = rb[0]
            if self.same_heap(hk, sa) and self.same_heap(hk, sb):
                try:
                    va2 = self.deref(sa, va) if isinstance(va, Ptr) and va.root not in hk else va
                    vb2 = self.deref(sb, vb) if isinstance(vb, Ptr) and vb.root not in hk else vb
                    if isinstance(va2, Ptr) or isinstance(vb2, Ptr):
                        if not same(va2, vb2):
                            if self.spec or (is_container_val(self.deref(sa, va2)) and is_container_val(self.deref(sb, vb2)) and self.pure_read):
                                va2, vb2 = self.deref(sa, va2), self.deref(sb, vb2)
                            else:
                                raise Unsup("ptr merge")
                    v = ite(cond, va2, vb2)
                    for f in sa.pc[na:]:
                        st.assume(f if self.is_def(f) else z3.Implies(cond, f))
                    for f in sb.pc[nb:]:
                        st.assume(f if self.is_def(f) else z3.Implies(z3.Not(cond), f))
                    for r, c in list(sa.heap.items()) + list(sb.heap.items()):
                        if r not in st.heap:
                            st.heap[r] = c
                    return [(st, self.box(st, v))]
                except Unsup:
                    pass
        import os
        if self.spec:
            raise Unsup("unmergeable spec branch")
        return ra + rb
    pure_read = False

    def same_heap(self, old, st):
        return all(st.heap.get(r) is c for r, c in old.items())

    def ev_BoolOp(self, e, st, mod):
        def go(vals, s):
            if len(vals) == 1:
                return self.ev(vals[0], s, mod)
            out = []
            for s1, v in self.ev(vals[0], s, mod):
                if s1.exc:
                    out.append((s1, None))
                    continue
                c = self.truth(v, s1)
                isb = isinstance(v, bool) or isinstance(v, T) and v.t.sort().eq(B)
                if isinstance(e.op, ast.And):
                    out += self.branch(s1, c, lambda x: go(vals[1:], x), lambda x, v=v, isb=isb: [(x, False if isb else v)], e.lineno, test=vals[0], mod=mod)
                else:
                    out += self.branch(s1, c, lambda x, v=v, isb=isb: [(x, True if isb else v)], lambda x: go(vals[1:], x), e.lineno, test=vals[0], mod=mod)
            return out
        return go(e.values, st)

    def ev_UnaryOp(self, e, st, mod):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                t = z3.simplify(self.truth(v, s)) if False else self.truth(v, s)
                if z3.is_true(t):
                    return [(s, False)]
                if z3.is_false(t):
                    return [(s, True)]
                return [(s, T(z3.Not(t), BOOL))]
            if isinstance(e.op, ast.USub):
                if is_conc(v):
                    return [(s, -v)]
                return [(s, T(-term(v), v.ty))]
            raise Unsup("unary op")
        return self.bind(self.ev(e.operand, st, mod), f)

    def ev_Compare(self, e, st, mod):
        out = []
        for s, vs in self.seq([e.left] + e.comparators, st, mod):
            if s.exc:
                out.append((s, None))
                continue
            fs = []
            o = self.deref(s, vs[1])
            o0 = self.deref(s, vs[0])
            if len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq) and isinstance(o0, Opaque) and (o0.kind, "__eq__") in self.reg.opaque_methods:
                out += self.reg.opaque_methods[(o0.kind, "__eq__")](self, s, o0, [vs[1]], {}, e)
                continue
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(o, ObjC) and self.repo.method(o.cls, "__contains__"):
                for s2, r in self.call_method(s, vs[1], "__contains__", [vs[0]], {}, e):
                    if s2.exc:
                        out.append((s2, None))
                        continue
                    f = self.truth(r, s2)
                    out.append((s2, (not f if isinstance(f, bool) else T(z3.Not(f), BOOL)) if isinstance(e.ops[0], ast.NotIn) else f if isinstance(f, bool) else T(f, BOOL)))
                continue
            for op, a, b in zip(e.ops, vs, vs[1:]):
                fs.append(self.cmp(op, a, b, s))
            if all(isinstance(f, bool) for f in fs):
                out.append((s, all(fs)))
            else:
                fs = [z3.BoolVal(f) if isinstance(f, bool) else f for f in fs]
                out.append((s, T(z3.And(*fs) if len(fs) > 1 else fs[0], BOOL)))
        return out

    def cmp(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return (not r if isinstance(r, bool) else z3.Not(r)) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return (not r if isinstance(r, bool) else z3.Not(r)) if isinstance(op, ast.NotIn) else r
        pa, pb = a, b
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, Opaque) and a.kind == "iter":
            a = self.to_set(a, st)
        if isinstance(b, Opaque) and b.kind == "iter":
            b = self.to_set(b, st)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(op, (ast.Eq, ast.NotEq)) and (isinstance(a, (ClassV, BuiltinV)) or isinstance(b, (ClassV, BuiltinV))):
                r = self.is_(a, b, st)
                r = z3.BoolVal(r) if isinstance(r, bool) else r
                return z3.Not(r) if isinstance(op, ast.NotEq) else r
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind == "typeof":
                r = clsof(a.t) == clsof(b.t)
                return z3.Not(r) if isinstance(op, ast.NotEq) else r
            if isinstance(a, Opaque) and a.kind == "series" or isinstance(b, Opaque):
                raise Unsup("opaque compare")
            raise Unsup("opaque compare")
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.root == pb.root and not pa.path and not pb.path:
                r = z3.BoolVal(True)
            elif isinstance(a, ObjC) or isinstance(b, ObjC):
                raise Unsup("object equality")
            elif getattr(a, "rec", None) is not None or getattr(b, "rec", None) is not None:
                r = self.rec_eq(a, b, st)
            else:
                r = eqf(a, b)
            if is_conc(a) and is_conc(b):
                return (a == b) if isinstance(op, ast.Eq) else (a != b)
            return z3.Not(r) if isinstance(op, ast.NotEq) else r
        if isinstance(a, SetV) and isinstance(b, SetV):
            kt = join_ty(a.kty, b.kty)
            if isinstance(kt, Bot):
                return True
            a, b = coerce(a, SetT(kt)), coerce(b, SetT(kt))
            ks = kconsts(kt)
            k = unflat(ks, kt)
            sub = lambda x, y: z3.ForAll(ks, z3.Implies(x.mem(k), y.mem(k)))
            if isinstance(op, ast.LtE):
                return sub(a, b)
            if isinstance(op, ast.GtE):
                return sub(b, a)
            if isinstance(op, ast.Lt):
                return z3.And(sub(a, b), z3.Not(sub(b, a)))
            return z3.And(sub(b, a), z3.Not(sub(a, b)))
        if is_conc(a) and is_conc(b):
            import operator as o
            return {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)](a, b)
        x, y = term(a), term(b)
        if x.sort().eq(U) or y.sort().eq(U):
            f = pure("lt", [U, U], B)
            x, y = term(a, U), term(b, U)
            return {ast.Lt: lambda: f(x, y), ast.Gt: lambda: f(y, x), ast.LtE: lambda: z3.Not(f(y, x)), ast.GtE: lambda: z3.Not(f(x, y))}[type(op)]()
        if not x.sort().eq(y.sort()):
            x, y = term(a, R), term(b, R)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def rec_eq(self, a, b, st):
        ra, rb = getattr(a, "rec", None), getattr(b, "rec", None)
        ra = a.f if isinstance(a, RecV) else ra
        rb = b.f if isinstance(b, RecV) else rb
        if ra is None or rb is None:
            raise Unsup("record equality")
        if set(ra) != set(rb):
            return z3.BoolVal(False)
        return z3.And(*[eqf(self.deref(st, ra[k]), self.deref(st, rb[k])) for k in ra])

    def is_(self, a, b, st):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, T) and x.t.sort().eq(U) and not (isinstance(x.ty, Obj) and not x.ty.cls.startswith("?")) and x.ty is not STR:
                return x.t == NONE
            if isinstance(x, UnkFn) and x.t is not None:
                return x.t == NONE
            return False
        if is_conc(a) and is_conc(b):
            return a is b or a == b and type(a) is type(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if not a.path and not b.path:
                return a.root == b.root
            raise Unsup("identity of nested containers")
        if isinstance(a, (ClassV, BuiltinV)) and isinstance(b, (ClassV, BuiltinV)):
            return a.name == b.name
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o, x = (a, b) if isinstance(a, Opaque) else (b, a)
            if o.kind == "typeof" and isinstance(x, (ClassV, BuiltinV)):
                return clsof(o.t) == cls_const(x.name)
            return False
        if isinstance(a, (T, ClassV, BuiltinV)) and isinstance(b, (T, ClassV, BuiltinV)):
            ta = term(a, U) if not isinstance(a, BuiltinV) else z3.Const(f"class!{a.name}", U)
            tb = term(b, U) if not isinstance(b, BuiltinV) else z3.Const(f"class!{b.name}", U)
            return ta == tb
        if isinstance(a, T) and is_conc(b) or isinstance(b, T) and is_conc(a):
            return eqf(a, b)
        if isinstance(a, Ptr) != isinstance(b, Ptr):
            p, x = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(x, T) and x.t.sort().eq(U) and not p.path and isinstance(self.deref(st, p), ObjC):
                return self.objref(st, p).t == x.t
            return False
        raise Unsup("is")

    def contains(self, a, b, st):
        b0 = b
        b = self.deref(st, b)
        a = self.content(st, a) if not isinstance(b, ObjC) else a
        if isinstance(b, Opaque) and b.kind == "iter":
            b = ListV(None, None, tyof(b.it.elem) if b.it.conc is None else ANY, has=lambda e: exists_elem(b0.it, e, tyof(b0.it.elem)))
        if isinstance(b, (SetV, DictV)):
            if isinstance(b.kty, Bot):
                return False
            return b.mem(a)
        if isinstance(b, ListV):
            if isinstance(b.ety, Bot):
                return False
            return b.has(coerce(a, b.ety))
        if isinstance(b, RecV):
            return a in b.f if isinstance(a, str) else z3.Or(*[eqf(a, k) for k in b.f])
        if isinstance(b, Tup):
            return z3.Or(*[eqf(x, a) for x in b.items]) if b.items else False
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, Opaque):
            return self.lib.contains(a, b, st)
        if isinstance(b, T) and b.ty is ANY and isinstance(a, (T, str, FStr)):
            return pure("map_has", [U, U], B)(b.t, term(a, U))
        if isinstance(b, (str, FStr)) or isinstance(b, T) and b.ty is STR:
            return pure("substr", [U, U], B)(term(a, U), term(b, U))
        raise Unsup(f"in {type(b).__name__}")

    def ev_BinOp(self, e, st, mod):
        out = []
        for s, vs in self.seq([e.left, e.right], st, mod):
            if s.exc:
                out.append((s, None))
                continue
            out.append((s, self.box(s, self.binop(e.op, vs[0], vs[1], s))))
        return out

    def binop(self, op, a, b, st):
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, Opaque) and a.kind == "iter" and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            a = self.to_set(a, st)
        if isinstance(b, Opaque) and b.kind == "iter" and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            b = self.to_set(b, st)
        if isinstance(a, SetV) and isinstance(b, SetV):
            kt = join_ty(a.kty, b.kty)
            if isinstance(kt, Bot):
                return a
            a, b = coerce(a, SetT(kt)), coerce(b, SetT(kt))
            if isinstance(op, ast.BitOr):
                return SetV(lambda k: z3.Or(a.mem(k), b.mem(k)), kt)
            if isinstance(op, ast.BitAnd):
                return SetV(lambda k: z3.And(a.mem(k), b.mem(k)), kt)
            if isinstance(op, ast.Sub):
                return SetV(lambda k: z3.And(a.mem(k), z3.Not(b.mem(k))), kt)
            if isinstance(op, ast.BitXor):
                return SetV(lambda k: z3.Xor(a.mem(k), b.mem(k)), kt)
        if isinstance(a, DictV) and isinstance(b, DictV) and isinstance(op, ast.BitOr):
            return self.dict_merge(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(a, ListV) and isinstance(b, ListV) and isinstance(op, ast.Add):
            return self.list_concat(a, b)
        if is_conc(a) and is_conc(b):
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow}.get(type(op))
            if f:
                return f(a, b)
        if isinstance(op, ast.Add) and (isinstance(a, (str, FStr)) or isinstance(b, (str, FStr)) or isinstance(a, T) and a.ty is STR):
            def parts(x):
                return list(x.parts) if isinstance(x, FStr) else [x] if isinstance(x, str) else [(x, None)]
            return FStr(parts(a) + parts(b))
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            x, y = term(a), term(b)
            if x.sort().eq(I) and y.sort().eq(I):
                r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y}[type(op)]()
                return T(r, INT)
            if x.sort().eq(R) or y.sort().eq(R):
                x, y = term(a, R), term(b, R)
                return T({ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y}[type(op)](), REAL)
        if isinstance(op, ast.Div):
            return T(term(a, R) / term(b, R), REAL)
        if isinstance(op, (ast.Mod, ast.FloorDiv)) and isinstance(b, int) and not isinstance(b, bool) and b > 0 and isinstance(a, T) and a.t.sort().eq(I):
            return T(a.t % b if isinstance(op, ast.Mod) else a.t / b, INT)     # Euclidean = floor for a positive divisor
        if isinstance(op, ast.Pow) and all(isinstance(x, (int, float)) or isinstance(x, T) and x.ty in (INT, REAL) for x in (a, b)):
            return T(z3.Function("py.pow", R, R, R)(term(a, R), term(b, R)), REAL)      # value left open: over-approximates
        raise Unsup(f"binop {type(op).__name__} on {type(a).__name__},{type(b).__name__}")

    def list_concat(self, a, b):
        if isinstance(a.ety, Bot):
            return b
        if isinstance(b.ety, Bot):
            return a
        e = join_ty(a.ety, b.ety)
        a, b = coerce(a, ListT(e)), coerce(b, ListT(e))
        sc = isinstance(e, (Sc, TupT))
        return ListV(a.ln + b.ln, lambda i: ite(term(i, I) < a.ln, a.at(i), b.at(T(term(i, I) - a.ln, INT))), e,
                     has=(lambda x: z3.Or(a.has(x), b.has(x))) if sc else None)

    # ------------------------------------------------------------ attribute / subscript
    def cls_of(self, st, v):
        if isinstance(v, T):
            nc = st.narrow.get(v.t.get_id())
            if nc is not None and nc[0].eq(v.t):
                return nc[1]
            if isinstance(v.ty, Obj):
                return v.ty.cls.lstrip("?")
        return None

    def ev_Attribute(self, e, st, mod):
        return self.bind(self.ev(e.value, st, mod), lambda s, v: self.getattr(s, v, e.attr, e))

    def getattr(self, st, v, name, e=None):
        line = getattr(e, "lineno", None)
        v = self.unref(v)
        if isinstance(v, Ptr):
            c = self.deref(st, v)
            if isinstance(c, ObjC):
                if name in c.fields:
                    if (v.root, name) in self.opt_of and not v.path:
                        self.opt_used.add(self.opt_of[(v.root, name)])
                    return [(st, c.fields[name])]
                m = self.repo.method(c.cls, name)
                gm = self.reg.find_contract(c.cls, name, self)
                if m is None and gm is None:
                    if (c.cls, name) in self.reg.opaque_attrs:
                        return [(st, Opaque(self.reg.opaque_attrs[(c.cls, name)], owner=v))]
                    if f"{c.cls}.{name}" in self.reg.models:
                        return [(st, Bound(v, (name, c.cls)))]
                    raise Unsup(f"attribute {c.cls}.{name}")
                if m is not None and m[3] == "property":
                    return self.call_fn(Fn(m[2], m[1], cls=m[0]), [v], {}, st, e, recv_cls=c.cls)
                if m is not None and m[3] == "assign":
                    try:
                        return [(st, ast.literal_eval(m[2]))]
                    except Exception:
                        raise Unsup("class attribute")
                if m is not None and m[3] == "static":
                    return [(st, Fn(m[2], m[1], cls=m[0]))]
                return [(st, Bound(v, (name, c.cls)))]
            return [(st, Bound(v, (name, None)))]
        if isinstance(v, T):
            cls = self.cls_of(st, v)
            if isinstance(v.ty, Obj) and v.ty.cls.startswith("?") and not self.spec:
                a, b = self.fork(st, v.t != NONE, line)
                out = self.getattr(a, T(v.t, Obj(cls)), name, e) if a is not None else []
                return out + ([self.raise_(b, "AttributeError", line)] if b is not None else [])
            if cls is not None and (cls, name) in self.reg.class_consts:
                return [(st, self.reg.class_consts[(cls, name)])]
            if cls is None:
                if v.ty is STR and not self.spec and not hasattr(str, name):
                    return [self.raise_(st, "AttributeError", line)]
                if v.ty is STR or v.ty is ANY:
                    if self.spec or v.ty is ANY:
                        # declared 'duck' field?
                        d = self.reg.duck.get(name)
                        if d:
                            cls = d
                    if cls is None:
                        return [(st, Bound(v, (name, None)))]
                else:
                    return [(st, Bound(v, (name, None)))]
            fr = self.field_root(cls, name)
            if fr is not None:
                root, ty = self.froot(st, cls, name)
                if is_container(ty):
                    return [(st, Ptr(root, [v]))]
                return [(st, st.heap[root].at(v))]
            m = self.repo.method(cls, name)
            if m is not None and m[3] == "property":
                return self.call_fn(Fn(m[2], m[1], cls=m[0]), [v], {}, st, e, recv_cls=cls)
            return [(st, Bound(v, (name, cls)))]
        if isinstance(v, ClassV):
            if (v.name, name) in self.reg.class_state:
                root = ("G", v.name, name)
                if root in st.heap:
                    return [(st, st.heap[root])]
            m = self.repo.method(v.name, name)
            if m is not None:
                if m[3] in ("static", "method"):
                    return [(st, Fn(m[2], m[1], cls=m[0]))]
                if m[3] == "class":
                    return [(st, Bound(v, (name, v.name)))]
                if m[3] == "assign":
                    try:
                        lv = ast.literal_eval(m[2])
                        if isinstance(lv, (list,)):
                            return [(st, self.box(st, self.mklist(st, lv)))]
                        return [(st, lv)]
                    except Exception:
                        pass
            if name == "__name__":
                return [(st, v.name)]
            if (v.name, name) in self.reg.class_consts:
                return [(st, self.reg.class_consts[(v.name, name)])]
            return [(st, BuiltinV(f"{v.name}.{name}"))]
        if isinstance(v, ModV):
            r = self.repo.lookup(v.name, name) if v.name in self.repo.mods else None
            if r is not None:
                return [(st, self.global_value(r, name, st))]
            if name in BUILTIN_EXC:
                return [(st, ClassV(name))]
            return [(st, BuiltinV(f"{v.name}.{name}"))]
        if isinstance(v, BuiltinV):
            if (v.name, name) in self.reg.class_consts:
                return [(st, self.reg.class_consts[(v.name, name)])]
            return [(st, BuiltinV(f"{v.name}.{name}"))]
        if isinstance(v, Opaque):
            return self.lib.getattr(st, v, name, e)
        if v is None:
            if self.spec:
                return [(st, None)]
            return [self.raise_(st, "AttributeError", line)]
        return [(st, Bound(v, (name, None)))]

    def setattr(self, st, v, name, val):
        if isinstance(v, Ptr):
            c = self.deref(st, v)
            if isinstance(c, ObjC) and not v.path:
                f = dict(c.fields)
                ty = self.reg.classes.get(c.cls, {}).get("fields", {}).get(name)
                if ty is not None and isinstance(val, Ptr) and not val.path and isinstance(getattr(self.deref(st, val), "kty", None), Bot):
                    st.heap[val.root] = coerce(self.plain(self.deref(st, val)), ty)     # an empty literal
                f[name] = val
                st.heap[v.root] = ObjC(c.cls, f)
                return
        if isinstance(v, T):
            cls = self.cls_of(st, v)
            if cls and self.field_root(cls, name):
                root, ty = self.froot(st, cls, name)
                cv = coerce(self.content(st, val), ty)
                self.store(st, Ptr(root, [v]), cv, touch=True)
                return
        if isinstance(v, ClassV):
            st.heap[("G", v.name, name)] = val
            return
        raise Unsup(f"setattr {name}")

    def ev_Subscript(self, e, st, mod):
        def f(s, v):
            c = self.deref(s, v)
            if isinstance(e.slice, ast.Slice):
                return self.slice(s, c, e.slice, mod)
            return self.bind(self.ev(e.slice, s, mod), lambda s2, k: self.getitem(s2, v, k, e.lineno))
        return self.bind(self.ev(e.value, st, mod), f)

    def slice(self, st, c, sl, mod):
        if isinstance(c, (Tup, str)):
            lo = ast.literal_eval(sl.lower) if sl.lower else None
            hi = ast.literal_eval(sl.upper) if sl.upper else None
            stp = ast.literal_eval(sl.step) if sl.step else None
            if isinstance(c, str):
                return [(st, c[slice(lo, hi, stp)])]
            return [(st, Tup(c.items[slice(lo, hi, stp)]))]
        if isinstance(c, ListV):
            if sl.step is not None:
                stp = ast.literal_eval(sl.step)
                if stp == -1 and sl.lower is None and sl.upper is None:
                    return [(st, self.box(st, ListV(c.ln, lambda i: c.at(T(c.ln - 1 - term(i, I), INT)), c.ety, has=c.has if isinstance(c.ety, (Sc, TupT)) else None)))]
            if sl.lower is None and sl.upper is None and sl.step is None:
                return [(st, self.box(st, c))]
            if sl.step is None and sl.lower is None and isinstance(sl.upper, ast.UnaryOp):
                return [(st, self.box(st, ListV(z3.If(c.ln > 0, c.ln - 1, z3.IntVal(0)), c.at, c.ety)))]
        if isinstance(c, (T, FStr)):
            return [(st, T(pure("strslice", [U, U], U)(term(c, U), lit(ast.unparse(sl.lower or ast.Constant(None)) + ":" + ast.unparse(sl.upper or ast.Constant(None)))), STR))]
        raise Unsup("slice")

    def getitem(self, st, v, k, line=None, default=True):
        c = self.deref(st, v)
        if default and isinstance(v, Ptr) and not v.path and v.root in self.defaults and not self.spec and isinstance(c, (DictV, RecV)):
            # a missing key of a defaultdict is inserted first
            mem = self.contains(k, v, st)
            a, b = self.fork(st, z3.BoolVal(mem) if isinstance(mem, bool) else mem, line)
            out = self.getitem(a, v, k, line, False) if a is not None else []
            if b is not None:
                class N:
                    lineno = line
                for s, fl in self.setitem(b, v, k, self.lib.call(b, self.defaults[v.root], [], {}, None, None)[0][1], N):
                    out += self.getitem(s, v, k, line, False)
            return out
        if isinstance(c, RecV):
            if not isinstance(k, str):
                raise Unsup("symbolic key into a record")
            if k not in c.f:
                return [self.raise_(st, "KeyError", line)]
            if is_container_val(c.f[k]) and isinstance(v, Ptr):
                return [(st, Ptr(v.root, list(v.path) + [k]))]
            return [(st, c.f[k])]
        if isinstance(c, DictV):
            rec = getattr(c, "rec", None)
            if rec is not None:
                if isinstance(k, str):
                    if k in rec:
                        return [(st, rec[k])]
                    return [self.raise_(st, "KeyError", line)]
                c = self.plain(c)
            if isinstance(c.kty, Bot):
                return [self.raise_(st, "KeyError", line)]
            kk = self.content(st, k)
            kk = coerce(kk, c.kty)

            def get(s):
                if is_container(c.vty):
                    if isinstance(v, Ptr):
                        return Ptr(v.root, list(v.path) + [kk])
                    return c.at(kk)
                r = c.at(kk)
                return r
            if self.spec:
                return [(st, get(st))]
            out = []
            a, b = self.fork(st, c.mem(kk), line)
            if a is not None:
                out.append((a, get(a)))
            if b is not None:
                out.append(self.raise_(b, "KeyError", line))
            return out
        if isinstance(c, ListV):
            if isinstance(k, int) and c.it is not None and c.it.conc is not None and -len(c.it.conc) <= k < len(c.it.conc):
                return [(st, c.it.conc[k])]
            if isinstance(c.ety, Bot):
                return [self.raise_(st, "IndexError", line)]
            i = term(k, I)
            if isinstance(k, int) and k < 0:
                i = c.ln + k
                ok = c.ln >= -k
            else:
                ok = z3.And(0 <= i, i < c.ln)

            def get(s):
                iv = T(i, INT)
                if is_container(c.ety) and isinstance(v, Ptr):
                    return Ptr(v.root, list(v.path) + [iv])
                return c.at(iv)
            if self.spec:
                return [(st, get(st))]
            out = []
            a, b = self.fork(st, ok, line)
            if a is not None:
                out.append((a, get(a)))
            if b is not None:
                # negative symbolic indices are out of the subset
                out.append(self.raise_(b, "IndexError", line))
            return out
        if isinstance(c, Tup):
            if isinstance(k, int):
                if -len(c.items) <= k < len(c.items):
                    return [(st, c.items[k])]
                return [self.raise_(st, "IndexError", line)]
        if isinstance(c, ObjC):
            return self.call_method(st, v, "__getitem__", [k], {}, None)
        if isinstance(c, T) and self.cls_of(st, c):
            return self.call_method(st, c, "__getitem__", [k], {}, None)
        if isinstance(c, T) and c.ty is ANY and self.spec and isinstance(k, (T, str, FStr)):
            if isinstance(k, T) and k.ty is INT:
                return [(st, T(pure("seq_at", [U, I], U)(c.t, k.t), ANY))]
            return [(st, T(pure("map_at", [U, U], U)(c.t, term(k, U)), ANY))]
        if isinstance(c, T) and isinstance(k, int) and c.ty is ANY:
            core_t = pure(f"item{k}", [U], U)(c.t)
            return [(st, T(core_t, ANY))]
        if isinstance(c, Opaque):
            return self.lib.getitem(st, c, k, line)
        if isinstance(c, BuiltinV) and c.name.endswith("IndexSlice"):
            return [(st, k)]
        if isinstance(c, (BuiltinV, ClassV)):
            return [(st, c)]
        raise Unsup(f"subscript of {type(c).__name__}")

    def ev_Lambda(self, e, st, mod):
        f = Fn(e, mod, env=st.cur, name="<lambda>")
        return [(st, f)]

    def ev_Slice(self, e, st, mod):
        if e.lower is None and e.upper is None and e.step is None:
            return [(st, Opaque("slice"))]
        raise Unsup("slice value")

    def ev_Starred(self, e, st, mod):
        raise Unsup("starred")

    # ------------------------------------------------------------ iteration spaces
    def iter_of(self, st, v, line=None):
        """-> Iter for the elements of v"""
        p = v
        c = self.deref(st, v)
        if isinstance(c, Opaque) and c.kind == "iter":
            return c.it
        if isinstance(c, Tup):
            return Iter([], None, None, conc=list(c.items))
        if isinstance(c, SetV):
            if isinstance(c.kty, Bot):
                return Iter([], None, None, conc=[])
            ks = kconsts(c.kty, "x")
            k = unflat(ks, c.kty)
            return Iter(ks, c.mem(k), k)
        if isinstance(c, RecV):
            return Iter([], None, None, conc=list(c.f))
        if isinstance(c, DictV):
            if getattr(c, "rec", None) is not None:
                return Iter([], None, None, conc=list(c.rec))
            if isinstance(c.kty, Bot):
                return Iter([], None, None, conc=[])
            if isinstance(c.order, Iter):
                o = c.order.fresh()
                return Iter(o.binders, o.guard, o.elem.items[0], ordered=True, ln=o.ln)
            ks = kconsts(c.kty, "x")
            k = unflat(ks, c.kty)
            return Iter(ks, c.mem(k), k)
        if isinstance(c, ListV):
            if isinstance(c.ety, Bot):
                return Iter([], None, None, conc=[])
            if c.it is not None:
                return c.it
            i = z3.FreshConst(I, "i")
            iv = T(i, INT)
            el = Ptr(p.root, list(p.path) + [iv]) if is_container(c.ety) and isinstance(p, Ptr) else c.at(iv)
            return Iter([i], z3.And(0 <= i, i < c.ln), el, ordered=True, ln=c.ln)
        if isinstance(c, Opaque):
            return self.lib.iter_of(st, c)
        if isinstance(c, str):
            return Iter([], None, None, conc=list(c))
        if isinstance(c, ObjC):
            raise Unsup(f"iteration over {c.cls}")
        if isinstance(c, T) and self.cls_of(st, c) == "ListRef":
            # the sequence protocol: c[0], c[1], ... (ListRef.__getitem__ has a contract)
            if not self.spec:
                self.oblig(st, f"{self.target}: iterating a list ref that is in memory", self.truth(self.one_field(st, c, "in_memory"), st), kind="pre")
            it = self.iter_of(st, self.one_field(st, c, "obj"))
            return Iter(it.binders, it.guard, T(it.elem.t, Obj("Ref")), ordered=True, ln=it.ln)
        if isinstance(c, T) and c.ty is ANY:
            # an untyped value iterated over is viewed as a sequence
            i = z3.FreshConst(I, "i")
            ln = pure("len", [U], I)(c.t)
            st.assume(close(self.allb(), ln >= 0))
            return Iter([i], z3.And(0 <= i, i < ln), T(pure("seq_at", [U, I], U)(c.t, i), ANY), ordered=True, ln=ln)
        raise Unsup(f"iteration over {type(c).__name__}")

    def one_field(self, st, c, name):
        root, ty = self.froot(st, self.cls_of(st, c) or "Ref", name)
        return st.heap[root].at(c)

    def map_view(self, c):
        """an untyped value used as a mapping with text keys"""
        return DictV(lambda k: pure("map_has", [U, U], B)(c.t, term(k, U)), lambda k: T(pure("map_at", [U, U], U)(c.t, term(k, U)), ANY), STR, ANY)

    def box_any(self, st, c):
        """a container stored where untyped values are kept: a fresh object with that view"""
        u = z3.FreshConst(U, "boxed")
        if isinstance(c, ListV):
            i = z3.FreshConst(I, "i")
            n = pure("len", [U], I)(u)
            st.assume(n == c.ln)
            if not isinstance(c.ety, Bot):
                at = pure("seq_at", [U, I], U)(u, i)
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), at == term(c.at(T(i, INT)), U)), patterns=[at]))
        elif isinstance(c, DictV) and not getattr(c, "rec", None):
            k = z3.FreshConst(U, "k")
            has, at = pure("map_has", [U, U], B)(u, k), pure("map_at", [U, U], U)(u, k)
            kk = T(k, STR)
            if isinstance(c.kty, Bot):
                st.assume(z3.ForAll([k], z3.Not(has), patterns=[has]))
            else:
                st.assume(z3.ForAll([k], has == (c.mem(kk) if z3.is_expr(c.mem(kk)) else z3.BoolVal(c.mem(kk))), patterns=[has]))
                st.assume(z3.ForAll([k], z3.Implies(has, at == term(c.at(kk), U)), patterns=[at]))
        else:
            raise Unsup(f"{type(c).__name__} stored among untyped values")
        return T(u, ANY)

    def field_order(self, st, p, c):
        """insertion order of a dict-valued field of an immutable object (declared in reg.ordered_fields)"""
        if not (self.use_order and isinstance(p, Ptr) and isinstance(p.root, tuple) and p.root[0] == "F" and len(p.path) == 1 and (p.root[1], p.root[2]) in self.reg.ordered_fields and isinstance(c, DictV) and c.order is None):
            return c
        o = term(p.path[0], U)
        nm = f"{p.root[1]}.{p.root[2]}"
        n, key, pos = pure(f"{nm}!len", [U], I)(o), pure(f"{nm}!key", [U, I], U), pure(f"{nm}!pos", [U, U], I)
        k, i, j = z3.FreshConst(U, "k"), z3.FreshConst(I, "i"), z3.FreshConst(I, "i")
        st.assume(n >= 0)
        m = c.mem(T(k, c.kty))
        st.assume(z3.ForAll([k], z3.Implies(m, z3.And(0 <= pos(o, k), pos(o, k) < n, key(o, pos(o, k)) == k)), patterns=[m]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(c.mem(T(key(o, i), c.kty)), pos(o, key(o, i)) == i)), patterns=[key(o, i)]))
        kk = T(key(o, j), c.kty)
        d = DictV(c.mem, c.at, c.kty, c.vty, c.touched, c.card)
        d.order = Iter([j], z3.And(0 <= j, j < n), Tup([kk, c.at(kk)]), ordered=True, ln=n)
        return d

    def dict_items(self, st, p, which):
        c = self.field_order(st, p, self.deref(st, p))
        if isinstance(c, RecV):
            vs = [(k, Ptr(p.root, list(p.path) + [k]) if is_container_val(x) and isinstance(p, Ptr) else x) for k, x in c.f.items()]
            return Iter([], None, None, conc=[Tup([k, v]) if which == "items" else k if which == "keys" else v for k, v in vs])
        if getattr(c, "rec", None) is not None:
            if which == "items":
                return Iter([], None, None, conc=[Tup([k, v]) for k, v in c.rec.items()])
            return Iter([], None, None, conc=list(c.rec.values()) if which == "values" else list(c.rec))
        if isinstance(c.kty, Bot):
            return Iter([], None, None, conc=[])
        if isinstance(c.order, Iter) and not is_container(c.vty):
            o = c.order.fresh()
            k, v = o.elem.items
            return Iter(o.binders, o.guard, {"items": Tup([k, v]), "values": v, "keys": k}[which], ordered=True, ln=o.ln, uniq=which != "values")
        ks = kconsts(c.kty, "x")
        k = unflat(ks, c.kty)
        if is_container(c.vty) and isinstance(p, Ptr):
            v = Ptr(p.root, list(p.path) + [k])
        else:
            v = c.at(k)
        el = {"items": Tup([k, v]), "values": v, "keys": k}[which]
        return Iter(ks, c.mem(k), el, uniq=which != "values")

    def it_opaque(self, it):
        return Opaque("iter", it=it)

    def to_set(self, v, st):
        it = self.iter_of(st, v)
        if it.conc is not None:
            return self.mkset(st, it.conc)
        el = self.content(st, it.elem)
        ty = tyof(el)
        it2 = Iter(it.binders, it.guard, el, it.ordered, it.ln, it.uniq)
        return SetV(lambda k: exists_elem(it2, k, ty), ty)

    def to_list(self, v, st):
        c = self.deref(st, v)
        if isinstance(c, ListV):
            return c
        it = self.iter_of(st, v)
        if it.conc is not None:
            return self.mklist(st, it.conc)
        el = self.content(st, it.elem)
        ty = tyof(el)
        if it.ordered:
            i = it.binders[0]

            def at(j):
                return subst(el, [(i, term(j, I))])
            it2 = Iter(it.binders, it.guard, el, True, it.ln)
            out = ListV(it.ln, at, ty, has=(lambda e: exists_elem(it2, e, ty)) if isinstance(ty, (Sc, TupT)) else None)
            if isinstance(el, Tup) and el.items:
                for r, has, kty, ix in self.sorted_lists:
                    k = r.at(T(i, INT))
                    if it.ln is not None and r.ln.eq(it.ln) and tyof(el.items[0]) == kty and all(a.eq(b) for a, b in zip(flat(k, kty), flat(el.items[0], kty))):
                        out.sorted_map = (has, kty, ix)
            return out
        # arbitrary order: an enumeration
        it2 = Iter(it.binders, it.guard, el, False, None, it.uniq)
        if not isinstance(ty, (Sc, TupT)) or it.mono:
            # enumeration through a witness function from positions to elements
            outer = self.allb()
            ln = self.fresh(INT, "enum.len", st).t
            st.assume(close(outer, ln >= 0))
            ws = [z3.Function(f"en!{next(core._ctr)}", *[o.sort() for o in outer], I, b.sort()) for b in it.binders]
            wat = lambda i: [(b, w(*outer, term(i, I))) for b, w in zip(it.binders, ws)]
            i = z3.FreshConst(I, "i")
            st.assume(close(outer + [i], z3.Implies(z3.And(0 <= i, i < ln), subst_t(it.guard, wat(T(i, INT))))))
            f = it2.fresh()
            ix = z3.Function(f"ei!{next(core._ctr)}", *[o.sort() for o in outer], *[b.sort() for b in it.binders], I)
            p = ix(*outer, *f.binders)
            st.assume(close(outer + f.binders, z3.Implies(f.guard, z3.And(0 <= p, p < ln, *[w(*outer, p) == b for w, b in zip(ws, f.binders)]))))
            if it.mono:
                j = z3.FreshConst(I, "j")
                st.assume(close(outer + [i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), ws[0](*outer, i) < ws[0](*outer, j))))
            return ListV(ln, lambda j: subst(el, wat(j)), ty, has=(lambda e: exists_elem(it2, e, ty)) if isinstance(ty, (Sc, TupT)) else None, it=it2)
        r = self.fresh(ListT(ty), "enum", st, wf=False)
        st.assume(close(self.allb(), r.ln >= 0))
        has = (lambda e: exists_elem(it2, e, ty)) if isinstance(ty, (Sc, TupT)) else None
        if has is not None:
            i = z3.FreshConst(I, "i")
            st.assume(close(self.allb() + [i], z3.Implies(z3.And(0 <= i, i < r.ln), has(r.at(T(i, INT))))))
            f = it2.fresh()
            st.assume(close(self.allb() + f.binders, z3.Implies(f.guard, r.ln > 0)))
            if it2.uniq:
                j = z3.FreshConst(I, "j")
                st.assume(close(self.allb() + [i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.ln), z3.Not(eqf(r.at(T(i, INT)), r.at(T(j, INT)))))))
        return ListV(r.ln, r.at, ty, has=has, it=it2)

    def comp(self, gens, elts, st, mod, cont):
        """evaluate a comprehension: builds Iter (elem = evaluated elts) and calls cont(st, it)."""
        out = []

        def unpack(target, val, s):
            self.assign(target, val, s, mod)

        def rec(gi, s, bound, guards, conc_sofar):
            """s: evaluation state with binders pushed; yields list of (state, Iter|None)"""
            raise NotImplementedError

        # concrete unrolling when the (single) generator is concrete
        if len(gens) == 1:
            r = []
            for s0, src in self.ev(gens[0].iter, st, mod):
                if s0.exc:
                    r.append((s0, None))
                    continue
                it = self.iter_of(s0, src, gens[0].iter.lineno)
                if it.conc is not None:
                    r += self.comp_conc(gens[0], it.conc, elts, s0, mod, cont)
                else:
                    r += self.comp_sym(gens, it, elts, s0, mod, cont)
            return r
        r = []
        for s0, src in self.ev(gens[0].iter, st, mod):
            if s0.exc:
                r.append((s0, None))
                continue
            it = self.iter_of(s0, src)
            if it.conc is not None:
                raise Unsup("nested comprehension over concrete sequence")
            r += self.comp_sym(gens, it, elts, s0, mod, cont)
        return r

    def comp_conc(self, gen, conc, elts, st, mod, cont):
        acc = [(st, [])]
        saved = st.cur
        for x in conc:
            nxt = []
            for s, vs in acc:
                if s.exc:
                    nxt.append((s, vs))
                    continue
                self.push_frame(s, parent=s.cur)
                self.assign(gen.target, x, s, mod)
                cands = [(s, True)]
                for cnd in gen.ifs:
                    n2 = []
                    for s2, keep in cands:
                        if s2.exc or not keep:
                            n2.append((s2, keep))
                            continue
                        for s3, cv in self.ev(cnd, s2, mod):
                            if s3.exc:
                                n2.append((s3, False))
                                continue
                            a, b = self.fork(s3, self.truth(cv, s3), gen.iter.lineno)
                            if a is not None:
                                n2.append((a, True))
                            if b is not None:
                                n2.append((b, False))
                    cands = n2
                for s2, keep in cands:
                    if s2.exc or not keep:
                        self.pop_frame(s2)
                        nxt.append((s2, vs))
                        continue
                    for s3, ev in self.seq(elts, s2, mod):
                        self.pop_frame(s3)
                        nxt.append((s3, vs + [tuple(ev)]))
            acc = nxt
        out = []
        for s, vs in acc:
            if s.exc:
                out.append((s, None))
            else:
                out += cont(s, Iter([], None, None, conc=vs))
        return out

    def comp_sym(self, gens, it, elts, st, mod, cont):
        base = st.copy()
        hk = dict(st.heap)
        pushed = 0
        s = st.copy()
        self.push_frame(s, parent=s.cur)
        binders, guards = [], []
        outs = []
        n0 = len(s.pc)
        cur = [(s, None)]
        gen_facts_start = len(st.pc)
        guard_marks = []
        ordered = None
        try:
            for gi, g in enumerate(gens):
                if gi == 0:
                    gi_it = it.fresh()
                else:
                    r = self.ev(g.iter, s, mod)
                    r2 = [x for x in r if not x[0].exc]
                    for x in r:
                        if x[0].exc:
                            self.pop_frame(x[0])
                            outs.append((x[0], None))
                    if len(r2) != 1:
                        raise Unsup("branching generator source")
                    s, src = r2[0]
                    gi_it = self.iter_of(s, src)
                    if gi_it.conc is not None:
                        raise Unsup("nested comprehension over concrete sequence")
                    gi_it = gi_it.fresh()
                if gi_it.ordered and len(gens) == 1 and not g.ifs:
                    ordered = gi_it
                mono = gi_it.ordered and len(gens) == 1 and bool(g.ifs)
                self.binders.append(gi_it.binders)
                pushed += 1
                binders += gi_it.binders
                guards.append(gi_it.guard)
                s.assume(gi_it.guard)
                guard_marks.append(gi_it.guard)
                self.assign(g.target, gi_it.elem, s, mod)
                for c in g.ifs:
                    r = self.ev(c, s, mod)
                    for x in r:
                        if x[0].exc:
                            self.pop_frame(x[0])
                            outs.append((x[0], None))
                    r2 = [x for x in r if not x[0].exc]
                    if len(r2) == 0:
                        raise Unsup("comprehension filter never evaluates")
                    if len(r2) == 1:
                        s, cv = r2[0]
                        cf = self.truth(cv, s)
                    else:
                        # merge branches of the filter: conditions select the branch, the rest are facts on it
                        alts, known = [], []
                        for x, v in r2:
                            t = self.truth(v, x)
                            cs = conjs(x.br[len(s.br):])
                            known += [z3.Implies(z3.And(*cs), f) for f in x.pc[len(s.pc):] if not any(f.eq(c) for c in cs)]
                            alts.append(z3.And(*cs, t))
                        cf = z3.Or(*alts)
                        for f in known:
                            s.assume(f)
                    self.narrow(c, s, mod, True)
                    guards.append(cf)
                    s.assume(cf)
                    guard_marks.append(cf)
            nb = len(s.pc)
            res = self.seq(elts, s, mod)
            normal = []
            for s2, vs in res:
                if s2.exc:
                    self.pop_frame(s2)
                    outs.append((s2, None))
                    continue
                if not self.same_heap(hk, s2):
                    raise Unsup("side effect in comprehension")
                normal.append((s2, [self.content_deep(s2, v) for v in vs]))
            if not normal:
                # every element raises: normal continuation only if the space is empty
                normal = []
            guard = z3.And(*guards)
            if len(normal) > 1:
                vals = normal[-1][1]
                for s2, vs in reversed(normal[:-1]):
                    cond = z3.And(*s2.pc[nb:]) if len(s2.pc) > nb else z3.BoolVal(True)
                    vals = [ite(cond, a, b) for a, b in zip(vs, vals)]
            elif normal:
                vals = normal[0][1]
            # facts valid for every element
            fin = base
            for s2, _ in normal[:1] if len(normal) == 1 else []:
                # a fact known before a later generator or filter holds whatever that one says
                gd, sofar = conjs(guard_marks), []
                for f in s2.pc[n0:]:
                    if any(f.eq(g) for g in gd):
                        sofar.append(f)
                    else:
                        fin.assume(f if self.is_def(f) else close(self.allb_from(binders), z3.Implies(z3.And(*sofar), f)))
                fin.hashes = s2.hashes
                fin.abstract = s2.abstract
            if len(normal) > 1:
                common = [f for f in s.pc[n0:nb] if not any(f.eq(g) for g in guard_marks)]
                for f in common:
                    fin.assume(close(self.allb_from(binders), z3.Implies(guard, f)))
                alt = z3.Or(*[z3.And(*s2.pc[nb:]) if len(s2.pc) > nb else z3.BoolVal(True) for s2, _ in normal])
                fin.assume(close(self.allb_from(binders), z3.Implies(guard, alt)))
                for s2, _ in normal:
                    fin.hashes = s2.hashes if len(s2.hashes) > len(fin.hashes) else fin.hashes
            if not normal:
                fin.assume(close(self.allb_from(binders), z3.Not(guard)))
                vals = None
            for r_, c_ in (normal[0][0].heap.items() if normal else []):
                if isinstance(r_, tuple) and r_ not in fin.heap:
                    fin.heap[r_] = c_
        finally:
            for _ in range(pushed):
                self.binders.pop()
        outs2 = [(x, None) for x, _ in outs if self.spec == 0 and self.feasible(x)]
        if vals is None:
            return outs2 + cont(fin, Iter([], None, None, conc=[]))
        # relativize hash registrations made under binders
        elem = tuple(vals)
        iters = Iter(binders, guard, Tup(elem), ordered=bool(ordered), ln=ordered.ln if ordered else None,
                     uniq=False)
        iters.src_uniq = it.uniq or it.ordered
        iters.mono = mono
        return outs2 + cont(fin, iters)

    def allb_from(self, binders):
        """binders currently in scope at the point of use (outer binders stay free: they are closed by
        the enclosing comprehension) followed by the given ones"""
        return list(binders)

    def content_deep(self, st, v):
        if isinstance(v, Ptr):
            return self.content(st, v)
        if isinstance(v, Tup):
            return Tup([self.content_deep(st, x) for x in v.items])
        if isinstance(v, FStr):
            return T(fstr_term(v), STR)
        return v

    def first(self, it):
        """Iter with 1-tuple elems -> Iter with the bare element"""
        if it.conc is not None:
            return Iter([], None, None, conc=[x[0] for x in it.conc])
        r = Iter(it.binders, it.guard, it.elem.items[0], it.ordered, it.ln, it.uniq)
        r.mono = it.mono
        # uniqueness: element is exactly the tuple of binders
        try:
            if is_container(tyof(r.elem)):
                raise Unsup("container")
            ts = flat(r.elem, tyof(r.elem))
            r.uniq = it.src_uniq and all(any(b.eq(t) for t in ts) for b in it.binders)
        except Unsup:
            r.uniq = False
        return r

    def ev_GeneratorExp(self, e, st, mod):
        return self.comp(e.generators, [e.elt], st, mod, lambda s, it: [(s, self.it_opaque(self.first(it)))])

    def ev_ListComp(self, e, st, mod):
        return self.comp(e.generators, [e.elt], st, mod,
                         lambda s, it: [(s, self.box(s, self.to_list(self.it_opaque(self.first(it)), s)))])

    def ev_SetComp(self, e, st, mod):
        return self.comp(e.generators, [e.elt], st, mod,
                         lambda s, it: [(s, self.box(s, self.to_set(self.it_opaque(self.first(it)), s)))])

    def ev_DictComp(self, e, st, mod):
        def cont(s, it):
            return [(s, self.box(s, self.dict_from(s, it)))]
        return self.comp(e.generators, [e.key, e.value], st, mod, cont)

    def dict_from(self, s, it):
        """dict from an Iter of (k, v) pairs"""
        if it.conc is not None:
            d = self.empty_dict()
            for x in it.conc:
                k, v = x.items if isinstance(x, Tup) else x
                if isinstance(k, str) and (isinstance(d.kty, Bot) or getattr(d, "rec", None) is not None):
                    d = self.rec_add(s, d, k, v)
                else:
                    d = self.dict_set(s, self.plain(d), k, v)
            return d
        k, v = [self.content(s, x) for x in it.elem.items]
        kty, vty = tyof(k), tyof(v)
        kts = flat(k, kty)
        bs = it.binders
        r = self._dict_from(s, it, k, v, kty, vty, kts, bs)
        if it.ordered and len(bs) == 1 and it.ln is not None and not self.spec and not self.allb():
            # insertion order, when every position has its own key
            o = it.fresh()
            k2 = flat(self.content(s, o.elem.items[0]), kty)
            if self.check(s.pc + [it.guard, o.guard, bs[0] != o.binders[0]] + [a == b for a, b in zip(kts, k2)], timeout=300) == "unsat":
                r.order = it
        return r

    def _dict_from(self, s, it, k, v, kty, vty, kts, bs):
        if len(kts) >= len(bs) and all(any(b.eq(t) for t in kts) for b in bs):
            # key determines the binders: direct definition
            pos = [(b, next(i for i, t in enumerate(kts) if t.eq(b))) for b in bs]

            def ps(x):
                xs = flat(x, kty)
                return [(b, xs[i]) for b, i in pos]
            extra = [(i, t) for i, t in enumerate(kts) if not any(t.eq(b) for b in bs)]

            def mem(x):
                g = subst_t(it.guard, ps(x))
                xs = flat(x, kty)
                more = [subst_t(t, ps(x)) == xs[i] for i, t in extra]
                return z3.And(g, *more) if more else g
            return DictV(mem, lambda x: subst(v, ps(x)), kty, vty)
        # general: a witness function picks the (last) element producing each key
        outer = self.allb()
        ws = [z3.Function(f"w!{next(core._ctr)}", *[o.sort() for o in outer], *keysorts(kty), b.sort()) for b in bs]
        itk = Iter(bs, it.guard, k)

        def wit(x):
            return [(b, w(*outer, *flat(x, kty))) for b, w in zip(bs, ws)]
        xs = kconsts(kty)
        x = unflat(xs, kty)
        dom = lambda y: exists_elem(itk, y, kty)
        wp = wit(x)
        s.assume(close(outer + xs, z3.Implies(dom(x), z3.And(subst_t(it.guard, wp), *[subst_t(a, wp) == b for a, b in zip(kts, xs)]))))
        return DictV(dom, lambda y: subst(v, wit(y)), kty, vty)

    # ------------------------------------------------------------ frames
    def push_frame(self, st, parent=None):
        i = next(self.env_ids)
        st.envs[i] = {}
        st.parents[i] = parent
        st.parents[("caller", i)] = st.cur
        st.cur = i
        return i

    def pop_frame(self, st):
        st.cur = st.parents[("caller", st.cur)]

    # ------------------------------------------------------------ assignment
    def assign(self, target, v, st, mod):
        if isinstance(target, ast.Name):
            e = st.cur
            nl = st.parents.get(("nonlocal", e, target.id))
            st.envs[nl if nl is not None else e][target.id] = v
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            c = self.deref(st, v) if isinstance(v, Ptr) else v
            if isinstance(c, Tup):
                if len(c.items) != len(target.elts):
                    raise Unsup("unpack arity")
                for t, x in zip(target.elts, c.items):
                    self.assign(t, x, st, mod)
                return
            if isinstance(c, tuple):
                for t, x in zip(target.elts, c):
                    self.assign(t, x, st, mod)
                return
            if isinstance(c, T) and c.ty is ANY and self.spec == 0:
                f = tupbox(len(target.elts))
                for i, t in enumerate(target.elts):
                    self.assign(t, T(core._tup[len(target.elts)][1][i](c.t), ANY), st, mod)
                return
            if isinstance(c, ListV) and c.it is not None and c.it.conc is not None and len(c.it.conc) == len(target.elts):
                for t, x in zip(target.elts, c.it.conc):
                    self.assign(t, x, st, mod)
                return
            raise Unsup("unpack")
        raise Unsup(f"assign to {type(target).__name__}")

    def narrow(self, test, st, mod, truth):
        """after `isinstance(x, C)` is known true, remember x's class"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, mod, not truth)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and truth:
            for v in test.values:
                self.narrow(v, st, mod, True)
            return
        if not truth:
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            try:
                sp = self.spec
                self.spec = 1
                try:
                    r = self.ev(test.args[0], st.copy(), mod)
                    c = self.ev(test.args[1], st.copy(), mod)
                finally:
                    self.spec = sp
            except Unsup:
                return
            if len(r) == 1 and isinstance(r[0][1], T) and r[0][1].t.sort().eq(U) and isinstance(c[0][1], ClassV):
                t = r[0][1].t
                oc = st.narrow.get(t.get_id())
                cname = c[0][1].name
                if oc and oc[0].eq(t) and cname in self.mro(oc[1]):
                    return
                if isinstance(r[0][1].ty, Obj) and cname in self.mro(r[0][1].ty.cls):
                    return
                st.narrow[t.get_id()] = (t, cname)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, mod):
        """-> [(st, flow)] flow in None,'return','break','continue','raise'"""
        cur = [(st, None)]
        for s in stmts:
            nxt = []
            for x, fl in cur:
                if fl is not None:
                    nxt.append((x, fl))
                else:
                    nxt += self.exec(s, x, mod)
            cur = nxt
            if len(cur) > MAXPATHS:
                raise Unsup("too many paths")
        return cur

    def exec(self, n, st, mod):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsup(f"statement {type(n).__name__} at line {n.lineno}")
        return m(n, st, mod)

    def fl(self, rs, f=None):
        out = []
        for s, v in rs:
            if s.exc:
                out.append((s, "raise"))
            elif f is None:
                out.append((s, None))
            else:
                out += f(s, v)
        return out

    def ex_Expr(self, n, st, mod):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        if self.is_noise(n.value):
            return [(st, None)]
        return self.fl(self.ev(n.value, st, mod))

    def is_noise(self, e):
        """logging / printing: no modelled effect"""
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == "print":
                return True
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging", "warnings"):
                return True
            if isinstance(f, ast.Attribute) and ast.unparse(f) in ("sess._times.append", "time.sleep"):
                return True
        return False

    def ex_Pass(self, n, st, mod):
        return [(st, None)]

    def ex_Import(self, n, st, mod):
        for a in n.names:
            st.envs[st.cur][a.asname or a.name.split(".")[0]] = ModV(a.name)
        return [(st, None)]

    def ex_ImportFrom(self, n, st, mod):
        for a in n.names:
            t = self.repo._resolve(mod, n.level, n.module)
            r = self.repo.lookup(t, a.name) if t in self.repo.mods else None
            st.envs[st.cur][a.asname or a.name] = self.global_value(r, a.name, st) if r else BuiltinV(a.name)
        return [(st, None)]

    def ex_Nonlocal(self, n, st, mod):
        for name in n.names:
            e = st.parents.get(st.cur)
            while e is not None and name not in st.envs[e]:
                e = st.parents.get(e)
            st.parents[("nonlocal", st.cur, name)] = e
        return [(st, None)]

    def ex_Global(self, n, st, mod):
        raise Unsup("global")

    def ex_FunctionDef(self, n, st, mod):
        st.envs[st.cur][n.name] = Fn(n, mod, env=st.cur)
        return [(st, None)]

    def ex_Return(self, n, st, mod):
        if n.value is None:
            st.ret = None
            return [(st, "return")]

        def f(s, v):
            s.ret = v
            return [(s, "return")]
        return self.fl(self.ev(n.value, st, mod), f)

    def ex_Break(self, n, st, mod):
        return [(st, "break")]

    def ex_Continue(self, n, st, mod):
        return [(st, "continue")]

    def ex_Assert(self, n, st, mod):
        def f(s, v):
            a, b = self.fork(s, self.truth(v, s), n.lineno)
            out = []
            if a is not None:
                self.narrow(n.test, a, mod, True)
                out.append((a, None))
            if b is not None:
                b.exc = Exc("AssertionError", None, n.lineno)
                out.append((b, "raise"))
            return out
        return self.fl(self.ev(n.test, st, mod), f)

    def ex_Raise(self, n, st, mod):
        if n.exc is None:
            e = st.envs[st.cur].get("__exc__")
            if e is None:
                raise Unsup("bare raise")
            st.exc = e
            return [(st, "raise")]
        x = n.exc
        if isinstance(x, ast.Call):
            sv = self.ev(x.func, st, mod)
            cls = sv[0][1]
            if isinstance(cls, ClassV):
                st.exc = Exc(cls.name, None, n.lineno)
                return [(st, "raise")]
        elif isinstance(x, ast.Name):
            v = self.lookup(st, x.id, mod)
            if isinstance(v, ClassV):
                st.exc = Exc(v.name, None, n.lineno)
                return [(st, "raise")]
            if isinstance(v, Opaque) and v.kind == "exc":
                st.exc = v.exc
                return [(st, "raise")]
        raise Unsup("raise form")

    def ex_Assign(self, n, st, mod):
        def f(s, v):
            out = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, fl in out:
                    nxt += self.assign_stmt(t, v, s1, mod) if fl is None else [(s1, fl)]
                out = nxt
            return out
        return self.fl(self.ev(n.value, st, mod), f)

    def ex_AnnAssign(self, n, st, mod):
        if n.value is None:
            return [(st, None)]
        return self.fl(self.ev(n.value, st, mod), lambda s, v: self.assign_stmt(n.target, v, s, mod))

    def assign_stmt(self, t, v, st, mod):
        if isinstance(v, Opaque) and v.kind == "iter":
            pass
        if isinstance(t, ast.Name):
            self.assign(t, v, st, mod)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            c = self.deref(st, v) if isinstance(v, Ptr) else v
            if isinstance(c, ListV) and len(t.elts) <= 6 and not any(isinstance(x, ast.Starred) for x in t.elts):
                if self.check(st.pc, c.ln == len(t.elts)) == "unsat":
                    # containers in the list are read from it: sharing between the list and the targets is not tracked
                    if is_container(c.ety) and isinstance(v, Ptr) and any(isinstance(x, ast.Name) for x in t.elts):
                        raise Unsup("unpacking a list of containers into names")
                    c = Tup([self.box(st, c.at(T(z3.IntVal(i), INT))) for i in range(len(t.elts))])
            if isinstance(c, Tup) and len(c.items) == len(t.elts):
                cur = [(st, None)]
                for tt, x in zip(t.elts, c.items):
                    nxt = []
                    for s, fl in cur:
                        nxt += self.assign_stmt(tt, x, s, mod) if fl is None else [(s, fl)]
                    cur = nxt
                return cur
            self.assign(t, v, st, mod)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            def f(s, o):
                self.setattr(s, o, t.attr, v)
                return [(s, None)]
            return self.fl(self.ev(t.value, st, mod), f)
        if isinstance(t, ast.Subscript):
            def g(s, vs):
                return self.setitem(s, vs[0], vs[1], v, t)
            out = []
            for s, vs in self.seq([t.value, t.slice], st, mod):
                out += [(s, "raise")] if s.exc else g(s, vs)
            return out
        raise Unsup("assignment target")

    def setitem(self, st, o, k, v, node):
        c = self.deref(st, o)
        if isinstance(c, RecV):
            if not isinstance(k, str):
                raise Unsup("symbolic key into a record")
            self.store(st, o, RecV({**c.f, k: self.content(st, v)})) if o.path else st.heap.__setitem__(o.root, RecV({**c.f, k: self.content(st, v)}))
            return [(st, None)]
        if isinstance(c, DictV):
            if getattr(c, "rec", None) is not None and not o.path:
                if isinstance(k, str):
                    st.heap[o.root] = self.rec_add(st, c, k, v)
                    return [(st, None)]
                c = self.plain(c)
            if isinstance(c.kty, Bot) and isinstance(k, str) and isinstance(o, Ptr) and not o.path and False:
                st.heap[o.root] = self.rec_add(st, c, k, v)
                return [(st, None)]
            if isinstance(c.vty, Sc):
                vc = self.content(st, v)
                if isinstance(vc, (ListV, DictV)):
                    v = self.box_any(st, vc)
            d = self.dict_set(st, c, k, v)
            if o.path:
                self.retype(st, o, d)
            else:
                st.heap[o.root] = d
            self.forward(st, v, Ptr(o.root, list(o.path) + [coerce(self.content(st, k), d.kty)]))
            return [(st, None)]
        if isinstance(c, ListV):
            i = term(k, I)
            a, b = self.fork(st, z3.And(0 <= i, i < c.ln), node.lineno)
            out = []
            if a is not None:
                vv = coerce(self.content(a, v), c.ety)
                n = ListV(c.ln, lambda x: ite(term(x, I) == i, vv, c.at(x)), c.ety)
                self.store(a, o, n) if o.path else a.heap.__setitem__(o.root, n)
                out.append((a, None))
            if b is not None:
                b.exc = Exc("IndexError", None, node.lineno)
                out.append((b, "raise"))
            return out
        if isinstance(c, ObjC):
            return self.fl(self.call_method(st, o, "__setitem__", [k, v], {}, node))
        if isinstance(c, Opaque):
            return self.lib.setitem(st, c, k, v, node)
        raise Unsup(f"setitem on {type(c).__name__}")

    def retype(self, st, ptr, content):
        """store with possible element type refinement of enclosing containers"""
        self.store(st, ptr, content)

    def forward(self, st, v, loc):
        """a fresh container cell was moved into `loc`: make locals that hold it alias the new place"""
        if isinstance(v, Ptr) and not v.path and isinstance(v.root, str) and is_container_val(st.heap.get(v.root)):
            for env in st.envs.values():
                for n, x in env.items():
                    if isinstance(x, Ptr) and x.root == v.root and not x.path:
                        env[n] = loc
            for r, c in list(st.heap.items()):
                if isinstance(c, ObjC):
                    for n, x in c.fields.items():
                        if isinstance(x, Ptr) and x.root == v.root:
                            raise Unsup("object field shared with container element")

    def ex_AugAssign(self, n, st, mod):
        ld = ast.copy_location(ast.parse(ast.unparse(n.target), mode="eval").body, n)
        ast.fix_missing_locations(ld)
        for x in ast.walk(ld):
            x.lineno = n.lineno
        out = []
        for s, vs in self.seq([ld, n.value], st, mod):
            if s.exc:
                out.append((s, "raise"))
                continue
            o, b = vs
            c = self.deref(s, o)
            if isinstance(o, Ptr) and isinstance(c, (SetV, DictV, ListV)):
                if isinstance(c, ListV) and isinstance(n.op, ast.Add):
                    r = self.list_concat(c, self.to_list(b, s))
                else:
                    if isinstance(c, SetV):
                        b2 = self.deref(s, b)
                        b = b2
                    r = self.binop(n.op, c, b, s)
                if o.path:
                    self.store(s, o, r)
                else:
                    s.heap[o.root] = r
                out.append((s, None))
                continue
            r = self.box(s, self.binop(n.op, o, b, s))
            out += self.assign_stmt(n.target, r, s, mod)
        return out

    def ex_Delete(self, n, st, mod):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, fl in cur:
                if fl is not None:
                    nxt.append((s, fl))
                    continue
                if isinstance(t, ast.Name):
                    s.envs[s.cur].pop(t.id, None)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.seq([t.value, t.slice], s, mod):
                        if s2.exc:
                            nxt.append((s2, "raise"))
                        else:
                            nxt += self.fl(self.dict_del(s2, vs[0], vs[1], t.lineno))
                else:
                    raise Unsup("del form")
            cur = nxt
        return cur

    def dict_del(self, st, o, k, line, default=None, has_default=False):
        c = self.deref(st, o)
        if isinstance(c, ObjC):
            return self.call_method(st, o, "__delitem__", [k], {}, None)
        if isinstance(c, Opaque):
            return self.lib.delitem(st, c, k, line)
        if not isinstance(c, DictV):
            raise Unsup(f"del on {type(c).__name__}")
        if isinstance(c, RecV):
            raise Unsup("del on a record")
        rec = getattr(c, "rec", None)
        if rec is not None:
            if isinstance(k, str) and not o.path:
                if k in rec:
                    d = dict(rec)
                    v = d.pop(k)
                    r = DictV(lambda x: z3.Or(*[term(x, U) == lit(q) for q in d]) if d else z3.BoolVal(False), None, STR, ANY)
                    r.rec = d
                    st.heap[o.root] = r
                    return [(st, v)]
                return [self.raise_(st, "KeyError", line)] if not has_default else [(st, default)]
            c = self.plain(c)
        if isinstance(c.kty, Bot):
            return [(st, default)] if has_default else [self.raise_(st, "KeyError", line)]
        k = coerce(self.content(st, k), c.kty)
        ks = flat(k, c.kty)
        a, b = self.fork(st, c.mem(k), line)
        out = []
        if a is not None:
            hit = lambda x: z3.And(*[p == q for p, q in zip(flat(x, c.kty), ks)])
            d = DictV(lambda x: z3.And(z3.Not(hit(x)), c.mem(x)), c.at, c.kty, c.vty, c.touched)
            v = c.at(k)
            if o.path:
                self.store(a, o, d)
            else:
                a.heap[o.root] = d
            out.append((a, self.box(a, v)))
        if b is not None:
            if has_default:
                out.append((b, default))
            else:
                out.append(self.raise_(b, "KeyError", line))
        return out

    def ex_If(self, n, st, mod):
        def f(s, v):
            a, b = self.fork(s, self.truth(v, s), n.lineno)
            out = []
            if a is not None:
                self.narrow(n.test, a, mod, True)
                out += self.exec_block(n.body, a, mod)
            if b is not None:
                self.narrow(n.test, b, mod, False)
                out += self.exec_block(n.orelse, b, mod)
            return self.join(out)
        return self.fl(self.ev(n.test, st, mod), f)

    def join(self, outs):
        return outs

    def exc_matches(self, cls, handler_names):
        c = cls
        while c is not None:
            if c in handler_names:
                return True
            nxt = BUILTIN_EXC.get(c)
            if nxt is None and c in self.repo.classes:
                b = self.repo.bases(c)
                nxt = b[0] if b else None
            c = nxt
        return False

    def ex_Try(self, n, st, mod):
        out = []
        for s, fl in self.exec_block(n.body, st, mod):
            if fl == "raise":
                done = False
                for h in n.handlers:
                    names = []
                    if h.type is None:
                        names = ["BaseException"]
                    else:
                        hv = self.ev(h.type, s_noexc(s), mod)[0][1]
                        names = [x.name for x in (hv.items if isinstance(hv, Tup) else [hv])]
                        names = [x.split(".")[-1] for x in names]
                    if self.exc_matches(s.exc.cls, names):
                        e = s.exc
                        s.exc = None
                        if h.name:
                            s.envs[s.cur][h.name] = Opaque("exc", exc=e)
                        s.envs[s.cur]["__exc__"] = e
                        out += self.exec_block(h.body, s, mod)
                        done = True
                        break
                if not done:
                    out.append((s, fl))
            elif fl is None:
                out += self.exec_block(n.orelse, s, mod)
            else:
                out.append((s, fl))
        if not n.finalbody:
            return out
        res = []
        for s, fl in out:
            exc, ret = s.exc, s.ret
            s.exc = None
            for s2, fl2 in self.exec_block(n.finalbody, s, mod):
                if fl2 is None:
                    s2.exc, s2.ret = exc, ret
                    res.append((s2, fl))
                else:
                    res.append((s2, fl2))
        return res

    def ex_With(self, n, st, mod):
        def go(items, s):
            if not items:
                return self.exec_block(n.body, s, mod)
            it = items[0]

            def f(s1, cm):
                res = []
                for s2, v in self.lib.enter(s1, cm, n):
                    if s2.exc:
                        res.append((s2, "raise"))
                        continue
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, s2, mod)
                    for s3, fl in go(items[1:], s2):
                        res += self.lib.exit(s3, fl, cm, n)
                return res
            return self.fl(self.ev(it.context_expr, s, mod), f)
        return go(n.items, st)

    # ------------------------------------------------------------ loops
    def assigned_names(self, body):
        names = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, (ast.FunctionDef,)):
                    names.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
        return names

    def ex_For(self, n, st, mod):
        out = []
        for s, src in self.ev(n.iter, st, mod):
            if s.exc:
                out.append((s, "raise"))
                continue
            it = self.iter_of(s, src, n.lineno)
            if it.conc is not None and len(it.conc) > 4 and all(type(x) is int for x in it.conc) and isinstance(n.iter, ast.Call):
                # a long constant range: by invariant, as any other loop
                i, c0, dd = z3.FreshConst(I, "i"), it.conc[0], it.conc[1] - it.conc[0]
                if [c0 + dd * j for j in range(len(it.conc))] == list(it.conc):
                    it = Iter([i], z3.And(0 <= i, i < len(it.conc)), T(c0 + dd * i, INT), ordered=True, ln=z3.IntVal(len(it.conc)))
            if it.conc is not None:
                out += self.unroll(n, it.conc, s, mod)
            else:
                from .loops import for_loop
                out += for_loop(self, n, it, s, mod)
        return out

    def unroll(self, n, conc, st, mod):
        cur, done = [(st, None)], []
        for x in conc:
            nxt = []
            for s, _ in cur:
                r = self.assign_stmt(n.target, x, s, mod)
                for s1, fl in r:
                    for s2, fl2 in (self.exec_block(n.body, s1, mod) if fl is None else [(s1, fl)]):
                        if fl2 in (None, "continue"):
                            nxt.append((s2, None))
                        elif fl2 == "break":
                            done.append((s2, None))
                        else:
                            done.append((s2, fl2))
            cur = nxt
        res = []
        for s, _ in cur:
            res += self.exec_block(n.orelse, s, mod)
        return res + done

    def ex_While(self, n, st, mod):
        from .loops import while_loop
        return while_loop(self, n, st, mod)

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st, mod):
        if self.spec:
            r = self.spec_call(e, st, mod)
            if r is not None:
                return r
        fname = ast.unparse(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else ""
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return [(st, Opaque("super"))]
        # positional (incl. *args) and keyword (incl. **kw)
        out = []
        for s, fv in self.ev(e.func, st, mod):
            if s.exc:
                out.append((s, None))
                continue
            acc = [(s, [])]
            for a in e.args:
                nxt = []
                for s1, vs in acc:
                    if s1.exc:
                        nxt.append((s1, vs))
                        continue
                    if isinstance(a, ast.Starred):
                        for s2, v in self.ev(a.value, s1, mod):
                            if s2.exc:
                                nxt.append((s2, vs))
                                continue
                            it = self.deref(s2, v)
                            conc = None
                            if isinstance(it, Tup):
                                conc = list(it.items)
                            elif isinstance(it, (ListV, Opaque)):
                                q = self.iter_of(s2, v)
                                conc = q.conc
                            if conc is None:
                                nxt.append((s2, vs + [Opaque("star", v=v)]))
                            else:
                                nxt.append((s2, vs + conc))
                    else:
                        for s2, v in self.ev(a, s1, mod):
                            nxt.append((s2, vs + [v]))
                acc = nxt
            acc2 = [(s1, vs, {}) for s1, vs in acc]
            for k in e.keywords:
                nxt = []
                for s1, vs, kw in acc2:
                    if s1.exc:
                        nxt.append((s1, vs, kw))
                        continue
                    for s2, v in self.ev(k.value, s1, mod):
                        if s2.exc:
                            nxt.append((s2, vs, kw))
                            continue
                        kw2 = dict(kw)
                        if k.arg is None:
                            d = self.deref(s2, v)
                            rec = getattr(d, "rec", None)
                            if isinstance(d, DictV) and isinstance(d.kty, Bot):
                                pass
                            elif rec is None:
                                kw2["**"] = v
                            else:
                                kw2.update(rec)
                        else:
                            kw2[k.arg] = v
                        nxt.append((s2, vs, kw2))
                acc2 = nxt
            for s1, vs, kw in acc2:
                if s1.exc:
                    out.append((s1, None))
                else:
                    out += self.apply(s1, fv, vs, kw, e, mod)
        return out

    def apply(self, st, fv, args, kw, e, mod):
        if isinstance(fv, Fn):
            if fv.cls is not None and fv.name == "__init__":
                pass
            return self.call_fn(fv, args, kw, st, e)
        if isinstance(fv, Bound):
            name, cls = fv.fn
            return self.call_method(st, fv.recv, name, args, kw, e, cls=cls, mod=mod)
        if isinstance(fv, BuiltinV):
            return self.lib.call(st, fv.name, args, kw, e, mod)
        if isinstance(fv, ClassV):
            return self.construct(st, fv.name, args, kw, e)
        if isinstance(fv, Opaque):
            return self.lib.call_opaque(st, fv, args, kw, e, mod)
        if isinstance(fv, UnkFn):
            return self.lib.call_unknown(st, fv, args, kw, e, mod)
        if isinstance(fv, Ptr) and isinstance(self.deref(st, fv), ObjC):
            return self.call_method(st, fv, "__call__", args, kw, e, mod=mod)
        if isinstance(fv, T) and self.reg.callable_any is not None:
            return self.lib.call_unknown(st, UnkFn("any", fv.t), args, kw, e, mod)
        raise Unsup(f"call of {type(fv).__name__}: {ast.unparse(e) if e is not None else ''}")

    def qual(self, fn, recv_cls=None):
        if fn.cls:
            return f"{fn.cls}.{fn.name}"
        return fn.name

    def call_method(self, st, recv, name, args, kw, e, cls=None, mod=None):
        c = self.deref(st, recv) if isinstance(recv, Ptr) else recv
        if isinstance(c, ObjC):
            cls = c.cls
        if cls is None and isinstance(recv, T):
            cls = self.cls_of(st, recv)
        if isinstance(recv, ClassV):
            cls = recv.name
        if cls is not None:
            ct = self.reg.find_contract(cls, name, self)
            m = self.repo.method(cls, name)
            if m is None and ct is None and f"{cls}.{name}" in self.reg.models:
                return self.reg.models[f"{cls}.{name}"](self, st, [recv] + args, kw, e)
            if ct is not None and (ct.ghost or m is None):
                return self.apply_contract(ct, [recv] + args, kw, st, e, None)
            if m is not None and m[3] != "assign":
                return self.call_fn(Fn(m[2], m[1], cls=m[0]), [recv] + args, kw, st, e, recv_cls=cls)
            if isinstance(c, ObjC) and name in c.fields:
                return self.apply(st, c.fields[name], args, kw, e, mod)
            if cls in self.repo.classes and isinstance(c, T):
                return self.lib.method(st, recv, c, name, args, kw, e, mod)
            raise Unsup(f"method {cls}.{name}")
        return self.lib.method(st, recv, c, name, args, kw, e, mod)

    def decorators(self, node):
        return [d.id if isinstance(d, ast.Name) else getattr(d, "attr", ast.unparse(d)) for d in getattr(node, "decorator_list", [])]

    def nested_contract(self, node):
        """the contract of a function defined inside another; what it takes from there are its ghost parameters"""
        if self._nested is None:
            self._nested = {}
            for q, c in self.reg.contracts.items():
                if c.nested:
                    f = self.repo.find(q)
                    if f is not None:
                        self._nested[id(f[1])] = c
        return self._nested.get(id(node))
    _nested = None

    def call_fn(self, fn, args, kw, st, e, recv_cls=None):
        node = fn.node
        q = self.qual(fn)
        line = getattr(e, "lineno", None)
        if fn.mod is not None and q in self.reg.models:
            return self.reg.models[q](self, st, args, kw, e)
        # contract?
        ct = None
        if fn.mod is not None and fn.env is None:
            if recv_cls and recv_cls != fn.cls:
                ct = self.reg.contracts.get(f"{recv_cls}.{fn.name}")
            ct = ct or self.reg.contracts.get(q)
        elif fn.mod is not None and isinstance(node, ast.FunctionDef):
            ct = self.nested_contract(node)
            if ct is not None and self.depth == 0:
                ct = None
        if "transaction" in self.decorators(node):
            if kw.get("conn", None) is None:
                kw = dict(kw)
                kw.pop("conn", None)
                params = [a.arg for a in node.args.args]
                if "conn" in params and params.index("conn") < len(args):
                    # wrapper passes conn= a second time: Python raises TypeError
                    return [self.raise_(st, "TypeError", line)]
                kw["conn"] = Opaque("conn")
        if ct is not None and not (self.spec and not ct.pure) and not (q == self.target and self.depth == 0):
            if ct.use != "inline" and q not in self.force_inline:
                return self.apply_contract(ct, args, kw, st, e, node)
        if ct is None and self.spec and fn.mod is not None and q in self.reg.spec_ok:
            pass
        return self.inline(fn, args, kw, st, e)
    force_inline = frozenset()

    def bind_params(self, node, args, kw, st, fn):
        """-> dict name->val, or ('exc', cls) when Python would raise TypeError"""
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(isinstance(x, Opaque) and x.kind == "star" for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, Opaque) and x.kind == "star")
            if i == len(params) and a.vararg and i == len(args) - 1:
                for p, v in zip(params, args):
                    out[p] = v
                out[a.vararg.arg] = args[i].v
                args = args[:i]
            else:
                raise Unsup("star argument")
        if len(args) > len(params):
            if a.vararg is None:
                return ("exc", "TypeError")
            out[a.vararg.arg] = Tup(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None and a.vararg.arg not in out:
            out[a.vararg.arg] = Tup([])
        for p, v in zip(params, args):
            out[p] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        starkw = None
        for k, v in kw.items():
            if k == "**":
                starkw = v
                continue
            if k in params or k in kwonly:
                if k in out:
                    return ("exc", "TypeError")
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return ("exc", "TypeError")
        if a.kwarg is not None:
            if starkw is not None:
                if extra:
                    raise Unsup("mixed ** call")
                out[a.kwarg.arg] = starkw
            else:
                d = self.empty_dict()
                for k, v in extra.items():
                    d = self.rec_add(st, d, k, v)
                out[a.kwarg.arg] = self.alloc(st, d)
        elif starkw is not None:
            raise Unsup("** call")
        defs = a.defaults
        for p, d in zip(params[len(params) - len(defs):], defs):
            if p not in out:
                out[p] = self.default(d, st, fn)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.default(d, st, fn)
        for p in params + kwonly:
            if p not in out:
                return ("exc", "TypeError")
        return out

    def default(self, d, st, fn):
        r = self.ev(d, st, fn.mod)
        if len(r) != 1:
            raise Unsup("default")
        return r[0][1]

    def inline(self, fn, args, kw, st, e):
        node = fn.node
        q = self.qual(fn)
        line = getattr(e, "lineno", None)
        if len(self.callstack) > 14 or self.callstack.count(id(node)) > 0:
            raise Unsup(f"recursion through {q}")
        if isinstance(node, (ast.AsyncFunctionDef,)):
            raise Unsup("async")
        if not isinstance(node, ast.Lambda):
            for d in self.decorators(node):
                if d not in ("staticmethod", "property", "abstractmethod", "transaction", "classmethod"):
                    raise Unsup(f"decorator {d}")
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                raise Unsup("generator function")
        if fn.mod is not None and fn.env is None and self.depth > 0:
            self.stats["inlined"].add(q)
        b = self.bind_params(node, args, kw, st, fn)
        if isinstance(b, tuple):
            return [self.raise_(st, b[1], line)]
        self.push_frame(st, parent=fn.env)
        st.envs[st.cur].update(b)
        self.callstack.append(id(node))
        self.depth += 1
        ps_ = node.args.posonlyargs + node.args.args
        self.clsstack.append((fn.cls, b.get(ps_[0].arg) if ps_ else None))
        try:
            if isinstance(node, ast.Lambda):
                rs = self.ev(node.body, st, fn.mod)
                for s, v in rs:
                    self.pop_frame(s)
                return rs
            if fn.mod is None:      # spec function
                body = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return):
                    rs = self.ev(body[0].value, st, None)
                    for s, v in rs:
                        self.pop_frame(s)
                    return rs
            rs = self.exec_block(node.body, st, fn.mod)
        finally:
            self.callstack.pop()
            self.clsstack.pop()
            self.depth -= 1
        out = []
        for s, fl in rs:
            self.pop_frame(s)
            if fl == "raise":
                out.append((s, None))
            elif fl == "return":
                v = s.ret
                s.ret = None
                out.append((s, v))
            else:
                out.append((s, None))
        return out

    def construct(self, st, cls, args, kw, e, clsof_t=None):
        if cls in BUILTIN_EXC:
            return [(st, Opaque("exc", exc=Exc(cls, None, getattr(e, "lineno", None))))]
        hook = self.reg.builtins.get(f"new:{cls}")
        if hook is not None:
            r = hook(self, st, args, kw, e)
            if r is not None:
                return r
        ct = self.reg.contracts.get(f"{cls}.__init__")
        d = None
        for c in self.mro(cls):
            if c in self.reg.classes:
                d = self.reg.classes[c]
                break
        if d is None and ct is None:
            raise Unsup(f"construction of {cls}")
        cell = self.alloc(st, ObjC(cls, {}))
        m = self.repo.method(cls, "__init__")
        if m is None:
            rs = [(st, None)]
        else:
            rs = self.call_fn(Fn(m[2], m[1], cls=m[0]), [cell] + list(args), kw, st, e)
        out = []
        for s, v in rs:
            if s.exc:
                out.append((s, None))
            elif d["kind"] == "term":
                out.append((s, self.materialize(s, cell, clsof_t=cls_const(cls) if clsof_t is None else clsof_t, cls=cls)))
            else:
                out.append((s, cell))
        return out

    def materialize(self, st, cell, clsof_t, cls):
        """turn a freshly initialised static object into an object term"""
        bs = self.allb()
        n = mk(Obj(cls), f"new_{cls}")(bs)
        uid = next(self.uid)
        birth = pure("birth", [U], I)
        st.assume(birth(n.t) == uid)
        st.assume(n.t != NONE)
        st.assume(clsof(n.t) == clsof_t)
        for j, b in enumerate(bs):
            inv = z3.Function(f"inv!{uid}!{j}", U, b.sort())
            st.assume(inv(n.t) == b)
        for f, v in st.heap[cell.root].fields.items():
            if self.field_root(cls, f) is None:
                continue
            root, ty = self.froot(st, cls, f)
            if v is None and is_container(ty):
                continue            # a field set later: nothing is known of it until then
            cv = coerce(self.content(st, v), ty) if not isinstance(ty, FnT) else v
            if isinstance(ty, FnT):
                continue
            st.assume(eqf(st.heap[root].at(n), cv))
        return n

    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(self, ct, args, kw, st, e, node):
        line = getattr(e, "lineno", None)
        if node is None:
            node = ct.signature()
        b = self.bind_params(node, args, kw, st, Fn(node, None))
        if isinstance(b, tuple):
            return [self.raise_(st, b[1], line)]
        self.stats["assumed" if ct.assumed else "modular"].add(ct.qual)
        pre = st.copy()
        # ghost parameters: the caller picks the value, here the variable of the same name in scope
        ghosts = {}
        nm_ = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]}
        for k in ct.types:
            if k not in b and k not in nm_ and "." not in k:
                g = ghosts[k] = self.lookup(st, k, None)
                if ct.nested and isinstance(g, Ptr) and not g.path and is_container(ct.types[k]) and not isinstance(st.heap[g.root], ObjC):
                    st.heap[g.root] = coerce(self.plain(st.heap[g.root]) if getattr(st.heap[g.root], "rec", None) is not None else st.heap[g.root], ct.types[k])
        self.push_frame(st, parent=None)
        st.envs[st.cur].update(ghosts)
        for k, v in b.items():
            ty = ct.types.get(k)
            if isinstance(v, Opaque) and v.kind == "iter" and isinstance(ty, (ListT, SetT)):
                v = self.box(st, self.to_list(v, st) if isinstance(ty, ListT) else self.to_set(v, st))
            if isinstance(ty, Sc) and not isinstance(v, (Ptr, Opaque, Fn, UnkFn, Bound)) and not isinstance(v, T):
                try:
                    v = coerce(v, ty)
                except Unsup:
                    pass
            st.envs[st.cur][k] = v
        frame = st.cur
        # preconditions
        sp_env = dict(st.envs[frame])
        outs = []
        for i, r in enumerate(ct.requires):
            f = self.spec_formula(r, st, st)
            if not self.spec:
                self.oblig(st, f"{self.target}: requires[{i}] of {ct.qual} at line {line}", f, kind="pre")
            st.assume(close(self.allb(), f) if False else f)
        live = [st]
        if not self.spec:
            for ex, cond in list(ct.raises.items()) + [("OperationalError", "fault")] * (ct.qual in self.faults):
                nxt = []
                for s in live:
                    f = z3.FreshConst(B, "raises") if cond in (None, "fault") else self.spec_formula(cond, s, s)
                    a, n = self.fork(s, f, line)
                    if a is not None:
                        o_ = a.copy()
                        for mloc in ct.modifies:
                            self.write_loc(a, mloc, None, ct)
                        for x in (ct.exsures if cond != "fault" else []):
                            a.assume(self.spec_formula(x, a, o_))
                        self.pop_frame(a)
                        outs.append(self.raise_(a, ex, line))
                    if n is not None:
                        nxt.append(n)
                live = nxt
        for s in live:
            old = s.copy()
            # assignment-style ensures
            ens = []
            assigned = {}
            for x in ct.ensures:
                t = ast.parse(x.strip(), mode="eval").body
                if self.applicable(t, s):
                    ens.append(t)
            resv = None
            mods = list(ct.modifies)
            direct = set()
            if not self.spec or True:
                for t in ens:
                    tgt = self.assign_target(t)
                    if tgt == "result" and resv is None and "result" not in names_in(t.comparators[0]):
                        pass
            # havoc / direct assignment of modified locations
            plan = []
            for mloc in mods:
                t0 = next((t for t in ens if self.assign_target(t) == mloc and id(t) not in direct), None)
                if t0 is not None and "result" not in names_in(t0.comparators[0]) and not any(m in reads_outside_old(t0.comparators[0]) for m in mods):
                    direct.add(id(t0))
                    plan.append((mloc, t0.comparators[0]))
                else:
                    plan.append((mloc, None))
            newvals = []
            for mloc, ex in plan:
                if ex is not None:
                    newvals.append((mloc, self.spec_value(ex, s, old)))
                else:
                    newvals.append((mloc, None))
            for mloc, v in newvals:
                self.write_loc(s, mloc, v, ct)
            # result
            rt = next((t for t in ens if self.assign_target(t) == "result" and "result" not in names_in(t.comparators[0])), None)
            if rt is not None:
                direct.add(id(rt))
                v = self.spec_value(rt.comparators[0], s, old)
                v = self.deref(s, v) if isinstance(v, Ptr) and is_container_val(self.deref(s, v)) else v
                res = self.box(s, v)
            elif ct.returns is None:
                res = None
            else:
                res = self.mkparam(ct.returns, f"ret_{ct.name}", s)
            if not (ct.nested and "result" in ct.types):
                s.envs[frame]["result"] = res
            for t in ens:
                if id(t) in direct:
                    continue
                f = self.spec_formula(t, s, old, result=res)
                s.assume(f)
            s.cur = frame
            self.pop_frame(s)
            outs.append((s, res))
        return outs

    def applicable(self, t, st):
        """`a.f == e` says nothing when the optional collaborator a is None"""
        if isinstance(t, str):
            t = ast.parse(t.strip(), mode="eval").body
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Attribute):
            b = t.left.value
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name) and b.id != "result":
                return self.none_free(t.left.value, st)
        return True

    def none_free(self, t, st):
        if isinstance(t, ast.Attribute) and not self.none_free(t.value, st):
            return False
        if isinstance(t, ast.Name) and isinstance(self.lookup(st, t.id, None), T):
            return True
        return self.one_spec(t, st) is not None

    def assign_target(self, t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)) and isinstance(t.left, (ast.Name, ast.Attribute)):
            return ast.unparse(t.left)
        return None

    def write_loc(self, st, loc, v, ct):
        if loc.startswith("F:"):
            # a field of any object of the class: nothing is known of it but what the postconditions say
            cls, f = loc[2:].split(".")
            root, ty = self.froot(st, cls, f)
            b, bs = mk(ty, f"{cls}.{f}"), self.allb()
            h = DictV(lambda k: z3.BoolVal(True), lambda k: b([term(k, U)] + bs), ANY, ty)
            st.heap[root] = h
            for x in wf_facts(DictV(h.mem, h.at, ANY, ty)):
                st.assume(close(bs, x) if bs else x)
            return
        t = ast.parse(loc, mode="eval").body
        if isinstance(t, ast.Attribute):
            o = self.one_spec(t.value, st)
            cur = None
            if o is None:
                return
            if isinstance(o, ClassV) and (o.name, t.attr) in self.reg.class_state:
                self.setattr(st, o, t.attr, v if v is not None else self.mkparam(self.reg.parse_ty(self.reg.class_state[(o.name, t.attr)]), t.attr, st))
                return
            if isinstance(o, Ptr) and isinstance(self.deref(st, o), ObjC):
                c = self.deref(st, o)
                cur = c.fields.get(t.attr)
                fr = self.field_root(c.cls, t.attr)
                ty = fr[1] if fr else None
                if v is None:
                    if ty is None:
                        raise Unsup(f"modifies {loc}")
                    nv = self.mkparam(ty, t.attr, st)
                else:
                    nv = v
                if isinstance(cur, Ptr) and is_container(ty):
                    st.heap[cur.root] = coerce(self.deref(st, nv) if isinstance(nv, Ptr) else nv, ty)
                    return
                if v is None and isinstance(cur, Ptr) and isinstance(nv, Ptr) and not cur.path and not nv.path and self.only_ref(st, o, t.attr, cur):
                    self.overwrite(st, cur, nv)        # nothing else refers to the replaced cell: replace its content
                    return
                self.setattr(st, o, t.attr, self.box(st, nv) if not isinstance(nv, Ptr) else nv)
                return
            if isinstance(o, T):
                fr = self.field_root(self.cls_of(st, o), t.attr)
                nv = v if v is not None else self.fresh(fr[1], t.attr, st)
                self.setattr(st, o, t.attr, nv)
                return
        elif isinstance(t, ast.Name):
            p = self.lookup(st, t.id, None)
            if isinstance(p, Ptr):
                c = self.deref(st, p)
                nv = v if v is not None else self.fresh(tyof(c), t.id, st)
                nv = self.deref(st, nv) if isinstance(nv, Ptr) else nv
                if p.path:
                    self.store(st, p, nv)
                else:
                    st.heap[p.root] = nv
                return
        raise Unsup(f"modifies {loc}")

    def overwrite(self, st, cur, nv):
        f = dict(st.heap[cur.root].fields)
        for k, x in st.heap[nv.root].fields.items():
            y = f.get(k)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and not x.path and not y.path and not isinstance(st.heap[x.root], ObjC):
                st.heap[y.root] = st.heap[x.root]
            else:
                f[k] = x
        st.heap[cur.root] = ObjC(st.heap[cur.root].cls, f)

    def only_ref(self, st, owner, field, p):
        """no variable and no other field holds the cell p"""
        if not (isinstance(st.heap[p.root], ObjC) and isinstance(owner, Ptr)):
            return False
        def free(x):
            if isinstance(x, Ptr):
                return x.root != p.root
            if isinstance(x, Tup):
                return all(map(free, x.items))
            return isinstance(x, (T, str, int, bool, float, type(None), ClassV, Fn, Opaque, DictV, SetV, ListV, BuiltinV, ModV, Undef))
        if not all(free(x) for env in st.envs.values() for x in env.values()):
            return False
        for r, c in st.heap.items():
            if isinstance(c, ObjC):
                for f, x in c.fields.items():
                    if isinstance(x, Ptr) and x.root == p.root and not (r == owner.root and f == field):
                        return False
        return True

    def one_spec(self, t, st):
        self.spec += 1
        try:
            return self.one(t, st, None)
        finally:
            self.spec -= 1

    def mkparam(self, ty, name, st):
        if isinstance(ty, OptCellT):
            ch = False if any(name.endswith(x) for x in self.reg.optnone) else self.optchoice.setdefault(name, True)
            if "." not in name:
                self.opt_used.add(name)
            return self.mkparam(CellT(ty.cls), name, st) if ch else None
        if isinstance(ty, CellT):
            fields = {}
            cls = ty.cls.split(":")[0]           # "Op:generic": an Op with the declared field types narrowed
            cell = self.alloc(st, ObjC(cls, fields))
            for c in list(reversed(self.mro(cls))) + [ty.cls] * (cls != ty.cls):
                dd = self.reg.classes.get(c)
                if dd:
                    for f, fty in dd["fields"].items():
                        fields[f] = self.mkparam(fty, f"{name}.{f}", st)
                        if isinstance(fty, OptCellT):
                            self.opt_of[(cell.root, f)] = f"{name}.{f}"
                    for f, path in (dd.get("alias") or {}).items():
                        v = cell
                        for x in path.split("."):
                            if (v.root, x) in self.opt_of:
                                self.opt_of[(cell.root, f)] = self.opt_of[(v.root, x)]
                            v = st.heap[v.root].fields[x] if v is not cell else fields[x]
                        fields[f] = v
            st.heap[cell.root] = ObjC(cls, fields)
            return cell
        if isinstance(ty, ConstT):
            return ty.v
        if isinstance(ty, OpaqueT):
            return Opaque(ty.kind, **ty.kw)
        if isinstance(ty, RecT):
            d = self.empty_dict()
            for k, t in ty.fields.items():
                d = self.rec_add(st, d, k, self.mkparam(t, f"{name}.{k}", st))
            return self.alloc(st, d)
        v = self.fresh(ty, name, st)
        if isinstance(ty, VTupT):
            v.is_tuple = True
        return self.box(st, v)

    # ------------------------------------------------------------ specs
    def spec_formula(self, x, st, old, result=None):
        v = self.spec_value(x, st, old, result)
        return self.truth(v, st)

    def spec_value(self, x, st, old, result=None):
        t = ast.parse(x.strip(), mode="eval").body if isinstance(x, str) else x
        sv_old = self.old_state
        self.old_state = (old, st.cur)
        self.spec += 1
        try:
            r = self.ev(t, st, None)
            if len(r) != 1 or r[0][0].exc:
                raise Unsup(f"spec forks: {ast.unparse(t)}")
            if r[0][0] is not st:
                for f in r[0][0].pc[len(st.pc):]:
                    st.pc.append(f)
                for k, c in r[0][0].heap.items():
                    if k not in st.heap:
                        st.heap[k] = c
                st.hashes = r[0][0].hashes
            return r[0][1]
        finally:
            self.spec -= 1
            self.old_state = sv_old

    def spec_call(self, e, st, mod):
        if not isinstance(e.func, ast.Name):
            return None
        n = e.func.id
        if n in ("old", "entry"):
            # entry(e), in a loop invariant: the value when the loop was entered
            old = self.loop_entry if n == "entry" else self.old_state[0]
            if old is None:
                raise Unsup("entry() outside a loop invariant")
            # evaluate in the old heap with the current environment (binders included)
            cur_heap = st.heap
            s2 = st.copy()
            s2.heap = dict(old.heap)
            r = self.ev(e.args[0], s2, mod)
            if len(r) != 1:
                raise Unsup("old forks")
            s3, v = r[0]
            v = self.frz(s3, v)
            for f in s3.pc[len(st.pc):]:
                st.pc.append(f)
            for k, c in s3.heap.items():
                if isinstance(k, tuple) and k not in st.heap:
                    st.heap[k] = c
            st.hashes = s3.hashes
            return [(st, v)]
        if n in ("implies", "iff"):
            a = self.truth(self.one(e.args[0], st, mod), st)
            s2 = st.copy()
            self.narrow(e.args[0], s2, mod, True)
            st.narrow = s2.narrow if n == "implies" else st.narrow
            b = self.truth(self.one(e.args[1], st, mod), st)
            return [(st, T(z3.Implies(a, b) if n == "implies" else a == b, BOOL))]
        if n in ("forall", "exists"):
            lam = e.args[-1]
            from .registry import _split
            tys = [self.reg.parse_ty(x) for a in e.args[:-1] for x in _split(a.value)]
            bs, env = [], {}
            for a, ty in zip(lam.args.args, tys):
                ks = kconsts(ty, a.arg)
                bs += ks
                env[a.arg] = unflat(ks, ty)
            self.push_frame(st, parent=st.cur)
            st.envs[st.cur].update(env)
            self.binders.append(bs)
            n0 = len(st.pc)
            try:
                f = self.truth(self.one(lam.body, st, mod), st)
            finally:
                self.binders.pop()
            extra = st.pc[n0:]
            del st.pc[n0:]
            for x in extra:
                st.pc.append(x if self.is_def(x) else close([b for b in bs], x))
            self.pop_frame(st)
            return [(st, T(z3.ForAll(bs, f) if n == "forall" else z3.Exists(bs, f), BOOL))]
        if n in ("upd", "without"):
            d = self.deref(st, self.one(e.args[0], st, mod))
            k = self.one(e.args[1], st, mod)
            if n == "upd":
                return [(st, self.box(st, self.dict_set(st, d, k, self.one(e.args[2], st, mod))))]
            k = self.content(st, k)
            if isinstance(d, SetV):
                return [(st, self.box(st, SetV(lambda x: z3.And(d.mem(x), z3.Not(eqf(x, k))), d.kty)))]
            return [(st, self.box(st, DictV(lambda x: z3.And(d.mem(x), z3.Not(eqf(x, k))), d.at, d.kty, d.vty, d.touched)))]
        if n == "cls_of":
            v = self.one(e.args[0], st, mod)
            return [(st, Opaque("typeof", t=term(v, U)))]
        return None

    def frz(self, st, v):
        """freeze pointers of an old-state value"""
        if isinstance(v, Ptr):
            c = self.deref(st, v)
            if isinstance(c, ObjC):
                return v
            if getattr(c, "rec", None) is not None:
                r = DictV(c.mem, c.at, c.kty, c.vty)
                r.rec = {k: self.frz(st, x) for k, x in c.rec.items()}
                return r
            return c
        if isinstance(v, Tup):
            return Tup([self.frz(st, x) for x in v.items])
        return v

    def oblig(self, st, name, goal, kind="post"):
        bs = self.allb()
        self.obligs.append(dict(name=name, pc=list(st.pc), goal=goal, kind=kind, abstract=list(st.abstract),
                                hashes=list(st.hashes), log=list(st.log)))


class ConstT(Ty):
    def __init__(self, v):
        self.v = v
        self.name = f"const[{v!r}]"


class OpaqueT(Ty):
    def __init__(self, kind, **kw):
        self.kind, self.kw = kind, kw
        self.name = f"opaque[{kind}]"


_akeys, _aint = {}, {}


def akey(f):
    """equal for formulas that differ in the names of bound variables only"""
    k = _akeys.get(f.get_id())
    if k is None:
        if z3.is_quantifier(f):
            t = ("Q", f.is_forall(), f.is_lambda(), tuple(f.var_sort(i).get_id() for i in range(f.num_vars())), akey(f.body()))
        elif z3.is_var(f):
            t = ("V", z3.get_var_index(f), f.sort().get_id())
        else:
            t = (f.decl().get_id(), *[akey(c) for c in f.children()])
        k = _akeys[f.get_id()] = (_aint.setdefault(t, len(_aint)), f)      # the formula is kept: its id stays its own
    return k[0]


def conjs(fs):
    out = []
    for f in fs:
        out += conjs(f.children()) if z3.is_and(f) else [] if z3.is_true(f) else [f]
    return out


def s_noexc(s):
    s2 = s.copy()
    s2.exc = None
    return s2


def is_container_val(v):
    return isinstance(v, (SetV, DictV, ListV, RecV))


def close(bs, f):
    bs = list(bs)
    if not bs or z3.is_true(f):
        return f
    return z3.ForAll(bs, f)


def names_in(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def reads_outside_old(t):
    """source texts of attribute/name reads not under old(...)"""
    out = set()

    def go(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "old":
            return
        if isinstance(n, (ast.Attribute, ast.Name)):
            out.add(ast.unparse(n))
        for c in ast.iter_child_nodes(n):
            go(c)
    go(t)
    return out
