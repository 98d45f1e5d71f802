"""Models of the Python built-ins and container methods used by the code under verification."""
from __future__ import annotations
import ast
import copy
import z3
from .core import *
from . import core
from .interp import Exc, exists_elem, close, is_container_val, BUILTIN_EXC

BUILTIN_TYPES = {"int", "str", "bool", "dict", "list", "tuple", "set", "float", "bytes", "frozenset"}
PASS = {"tqdm", "iter"}
PURE_STR = {"strip", "upper", "lower", "replace", "lstrip", "rstrip", "format", "encode", "title", "ljust", "rjust", "center", "hex"}


class Lib:
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------ helpers
    def put(self, st, recv, content):
        ip = self.ip
        if not isinstance(recv, Ptr):
            raise Unsup("mutation of a non-cell container")
        if recv.path:
            ip.store(st, recv, content)
        else:
            st.heap[recv.root] = content

    def setof(self, st, v):
        c = self.ip.deref(st, v)
        if isinstance(c, SetV):
            return c
        return self.ip.to_set(v, st)

    def card(self, st, v):
        """cardinality of a set / dict domain: an Int term with its defining facts for 0 and 1"""
        ip = self.ip
        mem, kty = v.mem, v.kty
        if isinstance(kty, Bot):
            return z3.IntVal(0)
        bs = ip.allb()
        if v.card is None:
            f = z3.Function(f"card!{next(core._ctr)}", *[b.sort() for b in bs], I) if bs else None
            v.card = f(*bs) if bs else z3.FreshConst(I, "card")
        n = v.card
        ks, js = kconsts(kty), kconsts(kty)
        k, j = unflat(ks, kty), unflat(js, kty)
        ex = z3.Exists(ks, mem(k))
        define = lambda f: (ip.defs.append(f), st.assume(f))
        define(close(bs, n >= 0))
        define(close(bs, (n > 0) == ex))
        define(close(bs, (n <= 1) == z3.ForAll(ks + js, z3.Implies(z3.And(mem(k), mem(j)), eqf(k, j)))))
        return n

    # ------------------------------------------------------------ builtins
    def call(self, st, name, args, kw, e, mod):
        ip = self.ip
        line = getattr(e, "lineno", None)
        base = name.split(".")[-1]
        hook = ip.reg.builtins.get(name) or ip.reg.builtins.get(base)
        if hook:
            return hook(ip, st, args, kw, e)
        m = getattr(self, "b_" + base, None)
        if m is not None:
            return m(st, args, kw, line)
        if base in PASS:
            return [(st, args[0])]
        if name in BUILTIN_TYPES or name.startswith("typing"):
            raise Unsup(f"builtin {name}")
        raise Unsup(f"call of {name} at line {line}")

    def b_len(self, st, args, kw, line):
        ip = self.ip
        v = ip.deref(st, args[0])
        if isinstance(v, Tup):
            return [(st, len(v.items))]
        if isinstance(v, str):
            return [(st, len(v))]
        if isinstance(v, ListV):
            s = z3.simplify(v.ln)
            return [(st, s.as_long() if z3.is_int_value(s) else T(v.ln, INT))]
        if isinstance(v, RecV):
            return [(st, len(v.f))]
        if isinstance(v, (SetV, DictV)):
            if getattr(v, "rec", None) is not None:
                return [(st, len(v.rec))]
            if isinstance(v.kty, Bot):
                return [(st, 0)]
            return [(st, T(self.card(st, v), INT))]
        if isinstance(v, Opaque) and (v.kind, "__len__") in ip.reg.opaque_methods:
            return ip.reg.opaque_methods[(v.kind, "__len__")](ip, st, v, [], {}, None)
        if isinstance(v, Opaque) and v.kind == "iter":
            if v.it.conc is not None:
                return [(st, len(v.it.conc))]
            if v.it.ordered:
                return [(st, T(v.it.ln, INT))]
            return [(st, T(self.card(st, ip.to_set(v, st)), INT))]
        if isinstance(v, ObjC):
            return ip.call_method(st, args[0], "__len__", [], {}, None)
        if isinstance(v, T):
            f = pure("len", [U], I)
            st.assume(close(ip.allb(), f(term(v, U)) >= 0))
            return [(st, T(f(term(v, U)), INT))]
        raise Unsup(f"len of {type(v).__name__}")

    def b_set(self, st, args, kw, line):
        ip = self.ip
        if not args:
            return [(st, ip.box(st, ip.mkset(st, [])))]
        c = ip.deref(st, args[0])
        if isinstance(c, SetV):
            return [(st, ip.box(st, SetV(c.mem, c.kty, card=c.card)))]
        if isinstance(c, ListV) and not isinstance(c.ety, Bot) and c.it is None:
            return [(st, ip.box(st, SetV(c.has, c.ety)))]
        return [(st, ip.box(st, ip.to_set(args[0], st)))]
    b_frozenset = b_set

    def b_list(self, st, args, kw, line):
        ip = self.ip
        if not args:
            return [(st, ip.box(st, ip.mklist(st, [])))]
        l = copy.copy(ip.to_list(args[0], st))
        l.is_tuple = False
        return [(st, ip.box(st, l))]

    def b_chain(self, st, args, kw, line):
        ip = self.ip
        if len(args) != 2:
            raise Unsup("chain")
        its = [ip.iter_of(st, a) for a in args]
        if all(i.conc is not None for i in its):
            return [(st, ip.it_opaque(Iter([], None, None, conc=[x for i in its for x in i.conc])))]
        els = [ip.content(st, i.elem) for i in its]
        ty = tyof(els[0])
        if any(i.conc is not None for i in its) or tyof(els[1]) != ty or not isinstance(ty, (Sc, TupT)):
            return [(st, ip.box(st, ip.list_concat(*[ip.to_list(a, st) for a in args])))]
        # the elements of both, each at some position; order and multiplicity left open
        outer = ip.allb()
        r = ip.fresh(ListT(ty), "chain", st, wf=False)
        st.assume(close(outer, r.ln >= 0))
        i2 = [Iter(i.binders, i.guard, x, False, None, False) for i, x in zip(its, els)]
        has = lambda x: z3.Or(*[exists_elem(i, x, ty) for i in i2])
        i = z3.FreshConst(I, "i")
        st.assume(close(outer + [i], z3.Implies(z3.And(0 <= i, i < r.ln), has(r.at(T(i, INT))))))
        for it in i2:
            f = it.fresh()
            p = z3.Function(f"pos!{next(core._ctr)}", *[o.sort() for o in outer], *[b.sort() for b in f.binders], I)(*outer, *f.binders)
            st.assume(close(outer + f.binders, z3.Implies(f.guard, z3.And(0 <= p, p < r.ln, eqf(r.at(T(p, INT)), f.elem)))))
        return [(st, ip.box(st, ListV(r.ln, r.at, ty, has=has)))]

    def b_tuple(self, st, args, kw, line):
        ip = self.ip
        if not args:
            return [(st, Tup([]))]
        c = ip.deref(st, args[0])
        if isinstance(c, Tup):
            return [(st, c)]
        it = ip.iter_of(st, args[0])
        if it.conc is not None:
            return [(st, Tup(it.conc))]
        l = copy.copy(ip.to_list(args[0], st))
        l.is_tuple = True
        return [(st, ip.box(st, l))]

    def b_defaultdict(self, st, args, kw, line):
        if len(args) != 1 or kw or getattr(args[0], "name", None) not in ("set", "list", "dict"):
            raise Unsup("defaultdict")
        p = self.ip.box(st, self.ip.empty_dict())
        self.ip.defaults[p.root] = args[0].name
        return [(st, p)]

    def b_dict(self, st, args, kw, line):
        ip = self.ip
        if not args:
            d = ip.empty_dict()
            for k, v in kw.items():
                if k == "**":
                    raise Unsup("dict(**)")
                d = ip.rec_add(st, d, k, v)
            return [(st, ip.box(st, d))]
        c = ip.deref(st, args[0])
        if isinstance(c, DictV):
            return [(st, ip.box(st, self.copy_dict(c)))]
        it = ip.iter_of(st, args[0])
        return [(st, ip.box(st, ip.dict_from(st, it)))]

    def copy_dict(self, c):
        r = DictV(c.mem, c.at, c.kty, c.vty, c.touched, card=c.card)
        if getattr(c, "rec", None) is not None:
            r.rec = dict(c.rec)
        return r

    def b_sorted(self, st, args, kw, line):
        ip = self.ip
        it = ip.iter_of(st, args[0])
        if it.conc is not None and all(isinstance(x, (str, int)) for x in it.conc) and "key" not in kw:
            return [(st, ip.box(st, ip.mklist(st, sorted(it.conc, reverse=bool(kw.get("reverse", False))))))]
        src = ip.to_list(args[0], st)
        if isinstance(src.ety, Bot):
            return [(st, ip.box(st, src))]
        ty = src.ety
        r = ip.fresh(ListT(ty), "sorted", st, wf=False)
        bs = ip.allb()
        st.assume(close(bs, r.ln == src.ln))
        has = src.has
        i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        if isinstance(ty, (Sc, TupT)):
            st.assume(close(bs + [i], z3.Implies(z3.And(0 <= i, i < r.ln), has(r.at(T(i, INT))))))
            ks = kconsts(ty, "e")
            ev = unflat(ks, ty)
            ix = z3.Function(f"idx!{next(core._ctr)}", *[b.sort() for b in bs], *[k.sort() for k in ks], I)(*bs, *ks)
            st.assume(close(bs + ks, z3.Implies(has(ev), z3.And(0 <= ix, ix < r.ln, eqf(r.at(T(ix, INT)), ev)))))
            if src.it is not None and src.it.uniq:
                st.assume(close(bs + [i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.ln), z3.Not(eqf(r.at(T(i, INT)), r.at(T(j, INT)))))))
        out = ListV(r.ln, r.at, ty, has=has, it=Iter([i], z3.And(0 <= i, i < r.ln), r.at(T(i, INT)), True, r.ln))
        out.sorted_of = (has, ty, bool(src.it is not None and src.it.uniq), "key" in kw)
        if isinstance(ty, (Sc, TupT)) and out.sorted_of[2] and not out.sorted_of[3] and not bs:
            ip.sorted_lists.append((r, has, ty, lambda k: T(z3.substitute(ix, *zip(ks, flat(k, ty))), INT)))
        return [(st, ip.box(st, out))]

    def b_range(self, st, args, kw, line):
        ip = self.ip
        if all(isinstance(a, int) for a in args):
            return [(st, ip.it_opaque(Iter([], None, None, conc=list(range(*args)))))]
        if len(args) == 1:
            lo, hi = z3.IntVal(0), term(args[0], I)
        elif len(args) == 2:
            lo, hi = term(args[0], I), term(args[1], I)
        else:
            raise Unsup("range step")
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        i = z3.FreshConst(I, "i")
        return [(st, ip.it_opaque(Iter([i], z3.And(0 <= i, i < n), T(lo + i, INT), True, n)))]

    def as_list_it(self, st, v):
        """ordered Iter over v (index binder)"""
        ip = self.ip
        it = ip.iter_of(st, v)
        if it.conc is not None or it.ordered:
            return it
        l = ip.to_list(v, st)
        i = z3.FreshConst(I, "i")
        return Iter([i], z3.And(0 <= i, i < l.ln), l.at(T(i, INT)), True, l.ln)

    def b_enumerate(self, st, args, kw, line):
        ip = self.ip
        start = kw.get("start", args[1] if len(args) > 1 else 0)
        it = self.as_list_it(st, args[0])
        if it.conc is not None:
            return [(st, ip.it_opaque(Iter([], None, None, conc=[Tup([i + start, x]) for i, x in enumerate(it.conc)])))]
        it = it.fresh()
        i = it.binders[0]
        iv = T(i + start, INT) if start else T(i, INT)
        return [(st, ip.it_opaque(Iter([i], it.guard, Tup([iv, it.elem]), True, it.ln)))]

    def b_zip(self, st, args, kw, line):
        ip = self.ip
        its = [self.as_list_it(st, a) for a in args]
        if all(i.conc is not None for i in its):
            return [(st, ip.it_opaque(Iter([], None, None, conc=[Tup(x) for x in zip(*[i.conc for i in its])])))]
        ls = [ip.to_list(a, st) for a in args]
        n = ls[0].ln
        for l in ls[1:]:
            n = z3.If(l.ln < n, l.ln, n)
        i = z3.FreshConst(I, "i")
        els = []
        for l in ls:
            els.append(l.at(T(i, INT)))
        return [(st, ip.it_opaque(Iter([i], z3.And(0 <= i, i < n), Tup(els), True, n)))]

    def b_isinstance(self, st, args, kw, line):
        ip = self.ip
        cs = args[1].items if isinstance(args[1], Tup) else [args[1]]
        v = args[0]
        c = ip.deref(st, v)
        rs = [self.isinst(st, c, x) for x in cs]
        if any(r is True for r in rs):
            return [(st, True)]
        rs = [r for r in rs if r is not False]
        if not rs:
            return [(st, False)]
        return [(st, T(z3.Or(*rs) if len(rs) > 1 else rs[0], BOOL))]

    def isinst(self, st, c, x):
        ip = self.ip
        n = x.name.split(".")[-1] if isinstance(x, (ClassV, BuiltinV)) else None
        if n is None:
            raise Unsup("isinstance class")
        if isinstance(c, ObjC):
            return n in ip.mro(c.cls)
        py = {"RecV": {"dict"}, "SetV": {"set"}, "DictV": {"dict"}, "Tup": {"tuple"}, "FStr": {"str"}}.get(type(c).__name__)
        if py is not None:
            return n in py
        if isinstance(c, ListV):
            if n in ("list", "tuple"):
                return n == "list" or getattr(c, "is_tuple", False)
            return False
        if is_conc(c):
            if n in BUILTIN_TYPES:
                return isinstance(c, getattr(__import__("builtins"), n))
            return False
        if isinstance(c, (Fn, Bound, UnkFn, BuiltinV, ClassV)):
            if n in BUILTIN_TYPES or n in ip.repo.classes:
                return False
            raise Unsup("isinstance of function")
        if isinstance(c, T):
            if c.t.sort().eq(I):
                return n == "int"
            if c.t.sort().eq(B):
                return n in ("bool", "int")
            if c.ty is STR:
                return n == "str"
            if isinstance(c.ty, Obj):
                cls = c.ty.cls.lstrip("?")
                opt = c.ty.cls.startswith("?")
                nc = ip.cls_of(st, c)
                if nc and nc != cls and n in ip.mro(nc):
                    return True
                if n in ip.mro(cls) and not opt:
                    return True
                if n in BUILTIN_TYPES:
                    return False
                subs = sorted(set(ip.subclasses(n)) | {n})
                known = sorted(set(ip.subclasses(cls)) | {cls})
                if not set(subs) & set(known):
                    return False
                f = z3.Or(*[clsof(c.t) == cls_const(k) for k in known])
                if opt:
                    f = z3.Or(c.t == NONE, f)
                if known and not ip.spec or not ip.allb():
                    st.assume(close(ip.allb(), f))
                return z3.Or(*[clsof(c.t) == cls_const(k) for k in subs])
            if n in BUILTIN_TYPES:
                return clsof(c.t) == cls_const(n)
            subs = sorted(set(ip.subclasses(n)) | {n}) if n in ip.repo.classes else [n]
            return z3.Or(*[clsof(c.t) == cls_const(k) for k in subs])
        if isinstance(c, Opaque):
            if c.kind in ip.reg.opaque_cls:
                return n in ip.reg.opaque_cls[c.kind]
            raise Unsup(f"isinstance of {c.kind}")
        raise Unsup("isinstance")

    def _quant(self, st, v, all_):
        ip = self.ip
        it = ip.iter_of(st, v)
        if it.conc is not None:
            fs = [ip.truth(x, st) for x in it.conc]
            if not fs:
                return all_
            r = z3.simplify(z3.And(*fs) if all_ else z3.Or(*fs))
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return False
            return T(z3.And(*fs) if all_ else z3.Or(*fs), BOOL)
        it = it.fresh()
        t = ip.truth(it.elem, st)
        if not it.binders:
            return T(t, BOOL)
        return T(z3.ForAll(it.binders, z3.Implies(it.guard, t)) if all_ else z3.Exists(it.binders, z3.And(it.guard, t)), BOOL)

    def b_all(self, st, args, kw, line):
        return [(st, self._quant(st, args[0], True))]

    def b_any(self, st, args, kw, line):
        return [(st, self._quant(st, args[0], False))]

    def _minmax(self, st, args, kw, line, mx):
        ip = self.ip
        if len(args) >= 2:
            r = args[0]
            for x in args[1:]:
                if is_conc(r) and is_conc(x):
                    r = max(r, x) if mx else min(r, x)
                    continue
                c = ip.cmp(ast.Gt() if mx else ast.Lt(), x, r, st)
                r = ite(z3.BoolVal(c) if isinstance(c, bool) else c, x, r)
            return [(st, r)]
        if "key" in kw:
            raise Unsup("min/max key")
        it = ip.iter_of(st, args[0])
        if it.conc is not None:
            if not it.conc:
                return [ip.raise_(st, "ValueError", line)]
            return self._minmax(st, list(it.conc), kw, line, mx) if len(it.conc) > 1 else [(st, it.conc[0])]
        it = it.fresh()
        el = ip.content(st, it.elem)
        ty = tyof(el)
        ex = z3.Exists(it.binders, it.guard)
        out = []
        a, b = ip.fork(st, ex, line)
        if b is not None:
            out.append((b, kw["default"]) if "default" in kw else ip.raise_(b, "ValueError", line))
        if a is not None:
            m = ip.fresh(ty, "extremum", a)
            a.assume(close(ip.allb(), exists_elem(it, m, ty)))
            c = ip.cmp(ast.LtE() if mx else ast.GtE(), el, m, a)
            a.assume(close(ip.allb() + it.binders, z3.Implies(it.guard, c)))
            out.append((a, m))
        return out

    def b_max(self, st, args, kw, line):
        return self._minmax(st, args, kw, line, True)

    def b_min(self, st, args, kw, line):
        return self._minmax(st, args, kw, line, False)

    def b_type(self, st, args, kw, line):
        c = self.ip.deref(st, args[0])
        if isinstance(c, ObjC):
            return [(st, ClassV(c.cls))]
        if isinstance(c, T) and c.t.sort().eq(U):
            if isinstance(c.ty, Obj) and not c.ty.cls.startswith("?"):
                known = sorted(set(self.ip.subclasses(c.ty.cls)) | {c.ty.cls})
                st.assume(close(self.ip.allb(), z3.Or(*[clsof(c.t) == cls_const(k) for k in known])))
            return [(st, Opaque("typeof", t=c.t, cls=self.ip.cls_of(st, c)))]
        if isinstance(c, DictV):
            return [(st, BuiltinV("dict"))]
        if isinstance(c, ListV):
            return [(st, BuiltinV("list"))]
        if is_conc(c):
            return [(st, BuiltinV(type(c).__name__))]
        raise Unsup("type()")

    def b_str(self, st, args, kw, line):
        v = self.ip.deref(st, args[0])
        if isinstance(v, (str, FStr)) or isinstance(v, T) and v.ty is STR:
            return [(st, v)]
        if isinstance(v, int):
            return [(st, str(v))]
        return [(st, T(pure("py_str", [term(v).sort()], U)(term(v)), STR))]

    def b_repr(self, st, args, kw, line):
        v = self.ip.deref(st, args[0])
        return [(st, T(pure("py_repr", [term(v).sort()], U)(term(v)), STR))]

    def b_int(self, st, args, kw, line):
        v = args[0]
        if is_conc(v):
            return [(st, int(v))]
        if isinstance(v, T) and v.t.sort().eq(I):
            return [(st, v)]
        if isinstance(v, FStr) and len(v.parts) == 1 and not isinstance(v.parts[0], str) and term(v.parts[0][0]).sort().eq(I):
            return [(st, v.parts[0][0])]
        return [(st, T(pure("py_int", [U], I)(term(v, U)), INT))]

    def b_id(self, st, args, kw, line):
        return [(st, T(pure("py_id", [U], I)(term(args[0], U)), INT))]

    def b_hash(self, st, args, kw, line):
        return [(st, T(pure("py_hash", [U], I)(term(args[0], U)), INT))]

    def b_bool(self, st, args, kw, line):
        return [(st, T(self.ip.truth(args[0], st), BOOL))]

    def b_callable(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, (Fn, Bound, UnkFn, BuiltinV, ClassV)):
            return [(st, True)]
        if isinstance(v, T):
            return [(st, T(pure("py_callable", [U], B)(term(v, U)), BOOL))]
        return [(st, False)]

    def b_hasattr(self, st, args, kw, line):
        ip = self.ip
        v, n = ip.deref(st, args[0]), args[1]
        if isinstance(v, ObjC):
            return [(st, n in v.fields or ip.repo.method(v.cls, n) is not None)]
        if isinstance(v, T) and isinstance(v.ty, Obj):
            return [(st, ip.field_root(v.ty.cls.lstrip("?"), n) is not None or ip.repo.method(v.ty.cls.lstrip("?"), n) is not None)]
        if isinstance(v, T):
            return [(st, T(pure(f"hasattr!{n}", [U], B)(v.t), BOOL))]
        if isinstance(v, (Opaque, BuiltinV, ModV)):
            return [(st, True)]
        return [(st, False)]

    def b_getattr(self, st, args, kw, line):
        if isinstance(args[1], str):
            return self.ip.getattr(st, args[0], args[1])
        raise Unsup("getattr")

    def b_next(self, st, args, kw, line):
        ip = self.ip
        it = ip.iter_of(st, args[0])
        if it.conc is not None:
            if it.conc:
                return [(st, it.conc[0])]
            return [(st, args[1])] if len(args) > 1 else [ip.raise_(st, "StopIteration", line)]
        if it.ordered:
            l = it.ln
            out = []
            a, b = ip.fork(st, l > 0, line)
            if a is not None:
                out.append((a, subst(it.elem, [(it.binders[0], z3.IntVal(0))])))
            if b is not None:
                out.append((b, args[1]) if len(args) > 1 else ip.raise_(b, "StopIteration", line))
            return out
        it = it.fresh()
        el = ip.content(st, it.elem)
        ty = tyof(el)
        out = []
        a, b = ip.fork(st, z3.Exists(it.binders, it.guard), line)
        if a is not None:
            m = ip.fresh(ty, "first", a)
            a.assume(close(ip.allb(), exists_elem(Iter(it.binders, it.guard, el), m, ty)))
            out.append((a, m))
        if b is not None:
            out.append((b, args[1]) if len(args) > 1 else ip.raise_(b, "StopIteration", line))
        return out

    def b_deepcopy(self, st, args, kw, line):
        return [(st, self.deepcopy(st, args[0]))]

    def b_copy(self, st, args, kw, line):
        v = args[0]
        c = self.ip.deref(st, v)
        if is_container_val(c):
            return [(st, self.ip.box(st, c))]
        raise Unsup("copy.copy")

    def deepcopy(self, st, v, memo=None):
        ip = self.ip
        memo = {} if memo is None else memo
        if isinstance(v, Ptr):
            c = ip.deref(st, v)
            if isinstance(c, ObjC):
                if v.root in memo:
                    return memo[v.root]
                if c.cls in ip.reg.shared_classes:
                    return v
                n = ip.alloc(st, ObjC(c.cls, {}))
                memo[v.root] = n
                st.heap[n.root] = ObjC(c.cls, {f: self.deepcopy(st, x, memo) for f, x in c.fields.items()})
                return n
            self._deep_ok(c)
            return ip.box(st, self.copy_dict(c) if isinstance(c, DictV) else c)
        if isinstance(v, T) and isinstance(v.ty, Obj):
            raise Unsup("deepcopy of an object")
        return v

    def _deep_ok(self, c):
        def bad(ty):
            if isinstance(ty, Obj):
                return ty.cls.lstrip("?") not in self.ip.reg.immutable
            if isinstance(ty, TupT):
                return any(bad(t) for t in ty.ts)
            if isinstance(ty, SetT):
                return bad(ty.k)
            if isinstance(ty, DictT):
                return bad(ty.k) or bad(ty.v)
            if isinstance(ty, ListT):
                return bad(ty.e)
            return False
        if bad(tyof(c)):
            raise Unsup("deepcopy of a container of objects")

    def b_cast(self, st, args, kw, line):
        return [(st, args[1])]

    def b_print(self, st, args, kw, line):
        return [(st, None)]

    def b_sum(self, st, args, kw, line):
        it = self.ip.iter_of(st, args[0])
        if it.conc is not None and all(isinstance(x, int) for x in it.conc):
            return [(st, sum(it.conc))]
        raise Unsup("sum")

    # ------------------------------------------------------------ methods
    def method(self, st, recv, c, name, args, kw, e, mod):
        ip = self.ip
        line = getattr(e, "lineno", None)
        if isinstance(c, SetV):
            return self.set_method(st, recv, c, name, args, kw, line)
        if isinstance(c, DictV):
            return self.dict_method(st, recv, c, name, args, kw, line)
        if isinstance(c, ListV):
            return self.list_method(st, recv, c, name, args, kw, line)
        if isinstance(c, RecV):
            if name in ("items", "keys", "values"):
                return [(st, ip.it_opaque(ip.dict_items(st, recv, name)))]
            if name == "get" and isinstance(args[0], str):
                return ip.getitem(st, recv, args[0], line) if args[0] in c.f else [(st, args[1] if len(args) > 1 else None)]
            raise Unsup(f"record.{name}")
        if isinstance(c, Opaque):
            if c.kind == "iter":
                h = ip.reg.opaque_methods.get(("iter", name))
                if h:
                    return h(ip, st, c, args, kw, e)
                if name in ("keys", "values", "items"):
                    raise Unsup("method on iterator")
                return self.set_method(st, None, ip.to_set(c, st), name, args, kw, line)
            return self.opaque_method(st, c, name, args, kw, e)
        if isinstance(c, Tup):
            if name == "index":
                raise Unsup("tuple.index")
        if isinstance(c, T) and c.ty is ANY and name in ip.reg.duck_methods:
            return ip.reg.duck_methods[name](ip, st, [c] + args, kw, e)
        if isinstance(c, T) and c.ty is ANY and name in ("items", "keys", "values") and not args:
            return [(st, ip.it_opaque(ip.dict_items(st, ip.map_view(c), name)))]
        if isinstance(c, (str, FStr)) or isinstance(c, T) and (c.ty is STR or c.ty is ANY):
            return self.str_method(st, c, name, args, kw, line)
        if c is None:
            return [ip.raise_(st, "AttributeError", line)]
        if isinstance(c, (UnkFn, Fn, ClassV)):
            raise Unsup(f"method {name} on {type(c).__name__}")
        raise Unsup(f"method {name} on {type(c).__name__}")

    def b_union(self, st, args, kw, line, every=False):
        """set.union(*sets) / set.intersection(*sets)"""
        ip = self.ip
        its = []
        for a in args:
            if isinstance(a, Opaque) and a.kind == "star":
                it = ip.iter_of(st, a.v)
                its += [(None, x) for x in it.conc] if it.conc is not None else [(it, it.elem)]
            else:
                its.append((None, a))
        its = [(it, ip.content(st, x)) for it, x in its]
        if not all(isinstance(x, SetV) for _, x in its):
            raise Unsup("set.union of other things than sets")
        if not its:
            return [ip.raise_(st, "TypeError", line)]
        kty = its[0][1].kty
        for _, x in its[1:]:
            kty = join_ty(kty, x.kty)
        its = [(it, coerce(x, SetT(kty))) for it, x in its]

        def mem(k):
            ps = []
            for it, x in its:
                if it is None:
                    ps.append(x.mem(k))
                else:
                    f = Iter(it.binders, it.guard, Tup([]), it.ordered, it.ln).fresh()
                    m = subst_t(x.mem(k), list(zip(it.binders, f.binders)))
                    ps.append(z3.ForAll(f.binders, z3.Implies(f.guard, m)) if every else z3.Exists(f.binders, z3.And(f.guard, m)))
            return z3.And(*ps) if every else z3.Or(*ps)
        r = ip.box(st, SetV(mem, kty))
        if any(it is None for it, _ in its):
            return [(st, r)]
        some = z3.Or(*[z3.Exists(it.binders, it.guard) for it, _ in its])
        a, b = ip.fork(st, some, line)
        return ([(a, r)] if a is not None else []) + ([ip.raise_(b, "TypeError", line)] if b is not None else [])

    def b_intersection(self, st, args, kw, line):
        return self.b_union(st, args, kw, line, every=True)

    def set_method(self, st, recv, c, name, args, kw, line):
        ip = self.ip
        op = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor}.get(name)
        if op:
            r = c
            for a in args:
                r = ip.binop(op(), r, self.setof(st, a), st)
            return [(st, ip.box(st, SetV(r.mem, r.kty) if not isinstance(r.kty, Bot) else r))]
        if name == "copy":
            return [(st, ip.box(st, SetV(c.mem, c.kty, card=c.card)))]
        if name in ("issubset", "issuperset"):
            r = ip.cmp(ast.LtE() if name == "issubset" else ast.GtE(), c, self.setof(st, args[0]), st)
            return [(st, r if isinstance(r, bool) else T(r, BOOL))]
        if name == "isdisjoint":
            r = ip.truth(ip.binop(ast.BitAnd(), c, self.setof(st, args[0]), st), st)
            return [(st, T(z3.Not(r), BOOL))]
        if name in ("add", "discard", "remove"):
            x = ip.content(st, args[0])
            kty = join_ty(c.kty, tyof(x)) if not isinstance(c.kty, Bot) else tyof(x)
            cc = coerce(c, SetT(kty))
            x = coerce(x, kty)
            xs = flat(x, kty)
            hit = lambda k: z3.And(*[a == b for a, b in zip(flat(k, kty), xs)]) if len(xs) > 1 else flat(k, kty)[0] == xs[0]
            if name == "add":
                self.put(st, recv, SetV(lambda k: z3.Or(cc.mem(k), hit(k)), kty))
                return [(st, None)]
            n = SetV(lambda k: z3.And(cc.mem(k), z3.Not(hit(k))), kty)
            if name == "discard":
                self.put(st, recv, n)
                return [(st, None)]
            a, b = ip.fork(st, cc.mem(x), line)
            out = []
            if a is not None:
                self.put(a, recv, n)
                out.append((a, None))
            if b is not None:
                out.append(ip.raise_(b, "KeyError", line))
            return out
        if name in ("update", "intersection_update", "difference_update"):
            o = {"update": ast.BitOr, "intersection_update": ast.BitAnd, "difference_update": ast.Sub}[name]
            r = c
            for a in args:
                r = ip.binop(o(), r, self.setof(st, a), st)
            self.put(st, recv, r)
            return [(st, None)]
        if name == "clear":
            self.put(st, recv, SetV(lambda k: z3.BoolVal(False), c.kty) if not isinstance(c.kty, Bot) else c)
            return [(st, None)]
        if name == "pop":
            out = []
            if isinstance(c.kty, Bot):
                return [ip.raise_(st, "KeyError", line)]
            a, b = ip.fork(st, ip.truth(c, st), line)
            if b is not None:
                out.append(ip.raise_(b, "KeyError", line))
            if a is not None:
                x = ip.fresh(c.kty, "popped", a)
                a.assume(close(ip.allb(), c.mem(x)))
                self.put(a, recv, SetV(lambda k: z3.And(c.mem(k), z3.Not(eqf(k, x))), c.kty))
                out.append((a, x))
            return out
        raise Unsup(f"set.{name}")

    def dict_method(self, st, recv, c, name, args, kw, line):
        ip = self.ip
        if name in ("items", "keys", "values"):
            return [(st, ip.it_opaque(ip.dict_items(st, recv, name)))]
        if name == "copy":
            return [(st, ip.box(st, self.copy_dict(c)))]
        if name == "clear":
            self.put(st, recv, DictV(lambda k: z3.BoolVal(False), c.at, c.kty, c.vty) if not isinstance(c.kty, Bot) else c)
            if getattr(c, "rec", None) is not None:
                self.put(st, recv, ip.empty_dict())
            return [(st, None)]
        if name == "get":
            d = args[1] if len(args) > 1 else kw.get("default")
            rec = getattr(c, "rec", None)
            if rec is not None and isinstance(args[0], str):
                return [(st, rec.get(args[0], d))]
            if rec is not None:
                c = ip.plain(c)
            if isinstance(c.kty, Bot):
                return [(st, d)]
            k = coerce(ip.content(st, args[0]), c.kty)
            if is_container(c.vty):
                if ip.spec:
                    dd = ip.deref(st, d) if isinstance(d, Ptr) else d
                    return [(st, ite(c.mem(k), c.at(k), dd))]
                a, b = ip.fork(st, c.mem(k), line)
                out = []
                if a is not None:
                    out.append((a, Ptr(recv.root, list(recv.path) + [k])))
                if b is not None:
                    out.append((b, d))
                return out
            if c.vty == STR:        # a string is not None
                st.assume(z3.Implies(c.mem(k), c.at(k).t != NONE))
            return ip.branch(st, c.mem(k), lambda s: [(s, c.at(k))], lambda s: [(s, d)], line)
        if name == "pop":
            return ip.dict_del(st, recv, args[0], line, default=args[1] if len(args) > 1 else None, has_default=len(args) > 1)
        if name == "update":
            if kw:
                raise Unsup("dict.update kw")
            o = ip.deref(st, args[0])
            if isinstance(o, T) and o.ty is ANY:
                o = ip.map_view(o)
            if not isinstance(o, DictV):
                o = ip.dict_from(st, ip.iter_of(st, args[0]))
            if getattr(o, "rec", None) is not None and (isinstance(c.kty, Bot) or getattr(c, "rec", None) is not None):
                d = c
                for k, v in o.rec.items():
                    d = ip.rec_add(st, d, k, v)
                self.put(st, recv, d)
                return [(st, None)]
            self.put(st, recv, ip.dict_merge(ip.plain(c), ip.plain(o)))
            return [(st, None)]
        if name == "setdefault":
            k = args[0]
            d = args[1] if len(args) > 1 else None
            out = []
            mem = ip.contains(k, recv, st)
            mem = z3.BoolVal(mem) if isinstance(mem, bool) else mem
            a, b = ip.fork(st, mem, line)
            if a is not None:
                out += ip.getitem(a, recv, k, line)
            if b is not None:
                class N:
                    lineno = line
                for s, fl in ip.setitem(b, recv, k, d, N):
                    out += ip.getitem(s, recv, k, line)
            return out
        if name in ("__getitem__",):
            return ip.getitem(st, recv, args[0], line)
        if name == "__contains__":
            r = ip.contains(args[0], recv, st)
            return [(st, r if isinstance(r, bool) else T(r, BOOL))]
        h = ip.reg.opaque_methods.get(("dict", name))
        if h:
            return h(ip, st, recv, args, kw, None)
        raise Unsup(f"dict.{name}")

    def list_method(self, st, recv, c, name, args, kw, line):
        ip = self.ip
        if name == "append":
            x = ip.content(st, args[0])
            ty = join_ty(c.ety, tyof(x)) if not isinstance(c.ety, Bot) else tyof(x)
            cc = coerce(c, ListT(ty))
            x = coerce(x, ty)
            if c.it is not None and c.it.conc is not None:
                new = ip.mklist(st, list(c.it.conc) + [x])
            else:
                new = ListV(cc.ln + 1, lambda i: ite(term(i, I) == cc.ln, x, cc.at(i)), ty,
                            has=(lambda e: z3.Or(cc.has(e), eqf(x, e))) if isinstance(ty, (Sc, TupT)) else None)
            self.put(st, recv, new)
            ip.forward(st, args[0], Ptr(recv.root, list(recv.path) + [T(cc.ln, INT)]))
            return [(st, None)]
        if name == "extend":
            self.put(st, recv, ip.list_concat(c, ip.to_list(args[0], st)))
            return [(st, None)]
        if name == "copy":
            return [(st, ip.box(st, c))]
        if name == "clear":
            self.put(st, recv, ip.mklist(st, []) if isinstance(c.ety, Bot) else ListV(z3.IntVal(0), c.at, c.ety, has=lambda e: z3.BoolVal(False)))
            return [(st, None)]
        if name in ("tolist", "to_list"):
            return [(st, recv if recv is not None else c)]
        if name == "pop":
            if isinstance(c.ety, Bot):
                return [ip.raise_(st, "IndexError", line)]
            k = args[0] if args else -1
            a, b = ip.fork(st, c.ln > 0, line)
            out = []
            if a is not None:
                if k == -1:
                    x = c.at(T(c.ln - 1, INT))
                    self.put(a, recv, ListV(c.ln - 1, c.at, c.ety))
                elif k == 0:
                    x = c.at(0)
                    self.put(a, recv, ListV(c.ln - 1, lambda i: c.at(T(term(i, I) + 1, INT)), c.ety))
                else:
                    raise Unsup("list.pop index")
                out.append((a, ip.box(a, x)))
            if b is not None:
                out.append(ip.raise_(b, "IndexError", line))
            return out
        if name == "insert" and args[0] == 0:
            self.put(st, recv, ip.list_concat(ip.mklist(st, [args[1]]), c))
            return [(st, None)]
        if name == "reverse":
            self.put(st, recv, ListV(c.ln, lambda i: c.at(T(c.ln - 1 - term(i, I), INT)), c.ety, has=c.has))
            return [(st, None)]
        if name == "index":
            x = coerce(ip.content(st, args[0]), c.ety)
            a, b = ip.fork(st, c.has(x), line)
            out = []
            if a is not None:
                i = ip.fresh(INT, "index", a)
                j = z3.FreshConst(I, "j")
                a.assume(close(ip.allb(), z3.And(0 <= i.t, i.t < c.ln, eqf(c.at(i), x))))
                a.assume(close(ip.allb() + [j], z3.Implies(z3.And(0 <= j, j < i.t), z3.Not(eqf(c.at(T(j, INT)), x)))))
                out.append((a, i))
            if b is not None:
                out.append(ip.raise_(b, "ValueError", line))
            return out
        raise Unsup(f"list.{name}")

    def str_method(self, st, c, name, args, kw, line):
        ip = self.ip
        args = [ip.deref(st, a) if isinstance(a, Ptr) else a for a in args]
        if isinstance(c, str) and all(isinstance(a, (str, int)) for a in args) and name in (
                "startswith", "endswith", "strip", "upper", "lower", "replace", "lstrip", "rstrip", "isidentifier", "isdigit"):
            return [(st, getattr(c, name)(*args))]
        if name == "join":
            v = args[0]
            it = ip.iter_of(st, v)
            if it.conc is not None:
                if not it.conc:
                    return [(st, "")]
                parts = []
                for i, x in enumerate(it.conc):
                    if i:
                        parts.append(c) if isinstance(c, str) else parts.append((c, None))
                    parts += [x] if isinstance(x, str) else list(x.parts) if isinstance(x, FStr) else [(x, None)]
                if all(isinstance(p, str) for p in parts):
                    return [(st, "".join(parts))]
                return [(st, FStr(parts))]
            if it.elem == "?" if isinstance(it.elem, str) else False:
                return [(st, Opaque("placeholders", src=it))]
            l = ip.to_list(v, st)
            if ip.spec == 0:
                so = getattr(l, "sorted_of", None)
                r = ip.fresh(STR, "join", st)
                return [(st, r)]
            raise Unsup("str.join")
        if name in ("startswith", "endswith"):
            if isinstance(c, FStr) and isinstance(args[0], str) and name == "startswith" and isinstance(c.parts[0], str) and len(c.parts[0]) >= len(args[0]):
                return [(st, c.parts[0].startswith(args[0]))]
            return [(st, T(pure(f"str_{name}", [U, U], B)(term(c, U), term(args[0], U)), BOOL))]
        if name in PURE_STR:
            ts = [term(a, U) for a in args] + [term(v, U) for v in kw.values()]
            return [(st, T(pure(f"str_{name}", [U] * (1 + len(ts)), U)(term(c, U), *ts), STR))]
        if name == "split" and len(args) == 1 and isinstance(args[0], str) and args[0]:
            if isinstance(c, FStr) and not set(args[0]) & set("0123456789-") and all(isinstance(p, str) or term(p[0]).sort().eq(I) for p in c.parts):
                out = [[]]                       # an integer's text holds no separator
                for p in c.parts:
                    if isinstance(p, str):
                        for i, x in enumerate(p.split(args[0])):
                            if i:
                                out.append([])
                            if x:
                                out[-1].append(x)
                    else:
                        out[-1].append(p)
                return [(st, ip.alloc(st, ip.mklist(st, ["".join(x) if all(isinstance(q, str) for q in x) else FStr(x) for x in out])))]
            t, sp = term(c, U), lit(args[0])
            n = pure("str_split_len", [U, U], I)(t, sp)
            st.assume(n >= 1)
            at = pure("str_split_at", [U, U, I], U)
            return [(st, ip.alloc(st, ListV(n, lambda i: T(at(t, sp, term(i, I)), STR), STR)))]
        if name in ("split", "rsplit", "splitlines"):
            return [(st, ip.alloc(st, ip.fresh(ListT(STR), name, st)))]
        if name in ("isidentifier", "isdigit"):
            return [(st, T(pure(f"str_{name}", [U], B)(term(c, U)), BOOL))]
        if isinstance(c, T) and c.ty is ANY:
            raise Unsup(f"method {name} of an untyped value")
        raise Unsup(f"str.{name}")

    # ------------------------------------------------------------ opaque objects
    def opaque_method(self, st, c, name, args, kw, e):
        ip = self.ip
        h = ip.reg.opaque_methods.get((c.kind, name))
        if h:
            return h(ip, st, c, args, kw, e)
        if c.kind == "logger":
            return [(st, None)]
        raise Unsup(f"method {c.kind}.{name}")

    def getattr(self, st, v, name, e):
        ip = self.ip
        if v.kind == "super":
            cls, selfv = ip.clsstack[-1]
            mro = ip.mro(cls)
            dyn = selfv
            c = ip.deref(st, selfv)
            full = ip.mro(c.cls) if isinstance(c, ObjC) else mro
            nxt = full[full.index(cls) + 1:] if cls in full else mro[1:]
            for k in nxt:
                m = ip.repo.method(k, name)
                if m is not None and m[0] == k:
                    return [(st, Opaque("superbound", fn=Fn(m[2], m[1], cls=m[0]), recv=selfv))]
            return [(st, Opaque("superbound", fn=None, recv=selfv))]
        if v.kind == "typeof" and name == "__name__":
            return [(st, T(pure("clsname", [Cls], U)(clsof(v.t)), STR))]
        h = ip.reg.opaque_getattr.get((v.kind, name))
        if h:
            return h(ip, st, v)
        return [(st, Bound(v, (name, None)))]

    def getitem(self, st, c, k, line):
        h = self.ip.reg.opaque_methods.get((c.kind, "__getitem__"))
        if h:
            return h(self.ip, st, c, [k], {}, None)
        if c.kind == "iter":
            l = self.ip.to_list(c, st)
            return self.ip.getitem(st, self.ip.alloc(st, l), k, line)
        raise Unsup(f"{c.kind}[...]")

    def setitem(self, st, c, k, v, node):
        h = self.ip.reg.opaque_methods.get((c.kind, "__setitem__"))
        if h:
            return self.ip.fl(h(self.ip, st, c, [k, v], {}, node))
        raise Unsup(f"{c.kind}[...] =")

    def delitem(self, st, c, k, line):
        raise Unsup(f"del {c.kind}[...]")

    def iter_of(self, st, c):
        h = self.ip.reg.opaque_methods.get((c.kind, "__iter__"))
        if h:
            return h(self.ip, st, c, [], {}, None)
        raise Unsup(f"iteration over {c.kind}")

    def contains(self, a, b, st):
        h = self.ip.reg.opaque_methods.get((b.kind, "__contains__"))
        if h:
            return h(self.ip, st, b, [a], {}, None)
        raise Unsup(f"in {b.kind}")

    def call_opaque(self, st, fv, args, kw, e, mod):
        ip = self.ip
        if fv.kind == "superbound":
            if fv.fn is None:
                return [(st, None)]
            return ip.call_fn(fv.fn, [fv.recv] + args, kw, st, e)
        if fv.kind == "typeof":
            if not getattr(fv, "cls", None):
                raise Unsup("construction through type()")
            return ip.construct(st, fv.cls, args, kw, e, clsof_t=clsof(fv.t))
        h = ip.reg.opaque_methods.get((fv.kind, "__call__"))
        if h:
            return h(ip, st, fv, args, kw, e)
        raise Unsup(f"call of {fv.kind}")

    def call_unknown(self, st, fv, args, kw, e, mod):
        h = self.ip.reg.unknown_calls.get(fv.tag)
        if h:
            return h(self.ip, st, fv, args, kw, e)
        raise Unsup(f"call of unknown function {fv.tag}")

    # ------------------------------------------------------------ with
    def enter(self, st, cm, n):
        ip = self.ip
        c = ip.deref(st, cm)
        if isinstance(c, ObjC):
            return ip.call_method(st, cm, "__enter__", [], {}, None)
        if isinstance(c, Opaque):
            h = ip.reg.opaque_methods.get((c.kind, "__enter__"))
            if h:
                return h(ip, st, c, [], {}, n)
            return [(st, c)]
        raise Unsup("with")

    def exit(self, st, fl, cm, n):
        ip = self.ip
        c = ip.deref(st, cm)
        exc, ret = st.exc, st.ret
        if isinstance(c, ObjC):
            st.exc = None
            out = []
            a = Opaque("exc", exc=exc) if exc else None
            for s, v in ip.call_method(st, cm, "__exit__", [a, a, a], {}, None):
                if s.exc:
                    out.append((s, "raise"))
                    continue
                if exc and v is not None and v is not False:
                    sw, s = ip.fork(s, ip.truth(v, s))       # a true result swallows the exception
                    if sw is not None:
                        sw.exc = sw.ret = None
                        out.append((sw, None))
                    if s is None:
                        continue
                s.exc, s.ret = exc, ret
                out.append((s, fl))
            return out
        h = ip.reg.opaque_methods.get((c.kind, "__exit__"))
        if h:
            return h(ip, st, c, [fl], {}, n)
        return [(st, fl)]


# ---------------------------------------------------------------- content hashing
def _frozen(ip, st, v):
    """scalar term standing for the content of v: each container inside is represented by a constant (a function of the
    binders in scope) that equals the constant of another container exactly when the contents are equal"""
    v = ip.deref(st, v) if isinstance(v, Ptr) else v
    if isinstance(v, Opaque):
        v = ip.deref(st, ip.box(st, ip.to_list(v, st)))
    v = ip.content(st, v)
    if isinstance(v, Tup):
        return Tup([_frozen(ip, st, x) for x in v.items])
    if isinstance(v, RecV):
        d = ip.empty_dict()
        for k, x in v.f.items():
            d = ip.dict_set(st, ip.plain(d), k, x)
        v = d
    if not isinstance(v, (SetV, DictV, ListV)):
        return v
    if getattr(v, "rec", None) is not None:
        v = ip.plain(v)
    bs = ip.allb()
    if isinstance(v, (ListV, DictV)):
        el = v.ety if isinstance(v, ListV) else v.vty
        if is_container(el):
            raise Unsup("hash of nested containers")
    n = next(core._ctr)
    u = z3.Function(f"content!{n}", *[b.sort() for b in bs], U)(*bs) if bs else z3.Const(f"content!{n}", U)
    reg = st.heap.get(("HASH",))
    items = list(reg.items) if reg is not None else []

    def pair(bs1, u1, v1, bs2, u2, v2):
        ps = [(b, z3.FreshConst(b.sort(), "b")) for b in bs2]
        m1, m2 = getattr(v1, "sorted_map", None), getattr(v2, "sorted_map", None)
        try:
            if m1 is not None and m2 is not None and not bs1 and not bs2 and m1[1] == m2[1]:
                # lists of (k, ...) for k in a sorted set: equal exactly when the sets are and the entries of each k are
                ks = kconsts(m1[1], "k")
                k = unflat(ks, m1[1])
                f = z3.ForAll(ks, z3.And(m1[0](k) == m2[0](k), z3.Implies(m1[0](k), eqf(v1.at(m1[2](k)), v2.at(m2[2](k))))))
            else:
                f = eqf(v1, subst(v2, ps))
        except Unsup:
            f = z3.BoolVal(False) if type(v1) is not type(v2) else None
            if f is None:
                raise
        st.assume(close(list(bs1) + [c for _, c in ps], (u1 == subst_t(u2, ps)) == f))
    for bs2, u2, v2 in items + ([(list(bs), u, v)] if bs else []):
        pair(list(bs), u, v, bs2, u2, v2)
    st.heap[("HASH",)] = Opaque("hashes", items=items + [(list(bs), u, v)])
    return T(u, ANY)


def content_hash(ip, st, args, kw, e):
    v = _frozen(ip, st, args[0] if args else kw["obj"])
    return [(st, T(pure("content_hash", [U], U)(term(v, U)), STR))]
