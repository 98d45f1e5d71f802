"""Value domain of the verifier.

Scalars are z3 terms of three sorts: U (every Python object that is not an int or
a bool: strings, None, opaque values, object identities), Int and Bool.  Sets, dicts
and lists are *intensional*: a set is a Python closure from key terms to a Bool term,
a dict a pair of closures (domain, value), a list a length term and an index closure.
There is no array theory: parameters and havocked state are uninterpreted functions,
everything else is built from them by composition.
"""
from __future__ import annotations
import itertools
import z3

U = z3.DeclareSort("U")
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()


class Unsup(Exception):
    """A construct outside the verifier's subset: the function is undecided."""


# ----------------------------------------------------------------- types
class Ty:
    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


class Sc(Ty):
    def __init__(self, name, sort):
        self.name, self.sort = name, sort


INT, BOOL, STR, ANY, REAL = Sc("int", I), Sc("bool", B), Sc("str", U), Sc("any", U), Sc("real", R)


class Obj(Sc):
    def __init__(self, cls):
        self.cls = cls
        super().__init__(f"obj[{cls}]", U)


class TupT(Ty):
    def __init__(self, *ts):
        self.ts = ts
        self.name = "tup[" + ",".join(map(repr, ts)) + "]"


class SetT(Ty):
    def __init__(self, k):
        self.k = k
        self.name = f"set[{k}]"


class BagT(SetT):
    """a list of pairwise distinct elements in an order nobody may rely on"""


class DictT(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = f"dict[{k},{v}]"


class ListT(Ty):
    def __init__(self, e):
        self.e = e
        self.name = f"list[{e}]"


class VTupT(ListT):
    """tuple of unknown length with elements of one type"""


class CellT(Ty):
    """An object with static identity (self, a collaborator): fields live in the heap."""
    def __init__(self, cls):
        self.cls = cls
        self.name = f"cell[{cls}]"


class OptCellT(Ty):
    """None or a static object."""
    def __init__(self, cls):
        self.cls = cls
        self.name = f"optcell[{cls}]"


class FnT(Ty):
    """An unknown callable."""
    def __init__(self, tag="fn"):
        self.tag = tag
        self.name = f"fn[{tag}]"


class RecT(Ty):
    """dict with a fixed set of constant string keys, each with its own type"""
    def __init__(self, fields):
        self.fields = dict(fields)
        self.name = "rec[" + ",".join(f"{k}:{v}" for k, v in sorted(self.fields.items())) + "]"


def is_container(ty):
    return isinstance(ty, (SetT, DictT, ListT, RecT))


# ----------------------------------------------------------------- values
class Val:
    pass


class T(Val):
    """symbolic scalar"""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return f"<{self.t}:{self.ty}>"


class Tup(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items}"


class FStr(Val):
    """f-string with symbolic holes. parts: str | (Val, origin)"""
    def __init__(self, parts):
        self.parts = parts


class SetV(Val):
    def __init__(self, mem, kty, it=None, card=None):
        self.mem, self.kty, self.it, self.card = mem, kty, it, card


class DictV(Val):
    def __init__(self, mem, at, kty, vty, touched=None, card=None, order=None):
        self.mem, self.at, self.kty, self.vty = mem, at, kty, vty
        self.touched = touched or (lambda k: z3.BoolVal(False))
        self.card = card
        self.order = order


class ListV(Val):
    def __init__(self, ln, at, ety, has=None, it=None):
        self.ln, self.at, self.ety, self._has, self.it = ln, at, ety, has, it

    def has(self, e):
        if self._has is not None:
            return self._has(e)
        i = z3.FreshConst(I, "i")
        return z3.Exists([i], z3.And(0 <= i, i < self.ln, eqf(self.at(T(i, INT)), e)))


class RecV(Val):
    def __init__(self, f):
        self.f = dict(f)


class ObjC(Val):
    """content of a static object cell"""
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Ptr(Val):
    """pointer to a heap root (cell id or ('F', field)) plus a path of keys"""
    __slots__ = ("root", "path", "gen")

    def __init__(self, root, path=(), gen=None):
        self.root, self.path, self.gen = root, tuple(path), gen

    def __repr__(self):
        return f"Ptr({self.root},{self.path})"


class Fn(Val):
    def __init__(self, node, mod, env=None, cls=None, name=None):
        self.node, self.mod, self.env, self.cls = node, mod, env, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None


class Bound(Val):
    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn


class BuiltinV(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"builtin:{self.name}"


class ClassV(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"class:{self.name}"


class ModV(Val):
    def __init__(self, name):
        self.name = name


class UnkFn(Val):
    def __init__(self, tag, t=None):
        self.tag, self.t = tag, t


class Opaque(Val):
    """library object with engine-side payload (cursor, dataframe view, ...)"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Undef(Val):
    pass


class Iter:
    """A symbolic iteration space: all values of `binders` satisfying `guard`, each giving `elem`.
    ordered=True: one Int binder running 0..len-1 in order."""
    def __init__(self, binders, guard, elem, ordered=False, ln=None, uniq=True, conc=None):
        self.binders, self.guard, self.elem = binders, guard, elem
        self.ordered, self.ln, self.uniq, self.conc = ordered, ln, uniq, conc
        self.mono = False       # a filtered sequence: the elements come in the order of the (single, Int) binder

    def fresh(self):
        if self.conc is not None:
            return self
        nb = [z3.FreshConst(b.sort(), "x") for b in self.binders]
        ps = list(zip(self.binders, nb))
        return Iter(nb, subst_t(self.guard, ps), subst(self.elem, ps), self.ordered, self.ln, self.uniq)


# ----------------------------------------------------------------- literals / registry
_lits: dict = {}
NONE = z3.Const("None", U)
bi = z3.Function("box_int", I, U)
ubi = z3.Function("unbox_int", U, I)
bb = z3.Function("box_bool", B, U)
br = z3.Function("box_real", R, U)
Cls = z3.DeclareSort("Cls")
clsof = z3.Function("cls", U, Cls)
_cls: dict = {}
used = set()


def cls_const(name):
    if name not in _cls:
        _cls[name] = z3.Const(f"C!{name}", Cls)
    return _cls[name]


def lit(x):
    key = (type(x).__name__, x)
    if key not in _lits:
        _lits[key] = z3.Const(f"lit!{x!r}", U)
    return _lits[key]


_tup: dict = {}


def tupbox(n):
    if n not in _tup:
        _tup[n] = (z3.Function(f"tup{n}", *([U] * n), U), [z3.Function(f"tup{n}_{i}", U, U) for i in range(n)])
    return _tup[n][0]


_fs: dict = {}


def fstr_fn(template, sorts):
    key = (template, tuple(str(s) for s in sorts))
    if key not in _fs:
        nm = f"fstr!{template}"
        _fs[key] = (z3.Function(nm, *sorts, U),
                    z3.Function(nm + "!inv", U, sorts[0]) if len(sorts) == 1 else None, sorts)
    return _fs[key][0]


_pure: dict = {}


def pure(name, sorts, rs, inverse_of=None):
    key = (name, tuple(str(s) for s in sorts))
    if key not in _pure:
        _pure[key] = z3.Function(name, *sorts, rs)
    return _pure[key]


_syms: dict = {}


def syms_of(fs):
    """names of all uninterpreted symbols occurring in formulas"""
    out = set()
    for f in fs:
        c = _syms.get(f.get_id())
        if c is None:
            # the formula is kept, so its id is not reused
            c = _syms[f.get_id()] = (f, _syms_of([f]))
        out |= c[1]
    return out


def _syms_of(fs):
    seen, names, stack = set(), set(), list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(d.name())
            stack.extend(e.children())
    return names


def background(fs):
    """axioms relevant for the given formulas (literal distinctness, box injectivity, class tags)"""
    names = syms_of(fs)
    out = []
    ls = [(k, c) for k, c in _lits.items() if c.decl().name() in names]
    cs = [c for _, c in ls] + ([NONE] if "None" in names else [])
    if len(cs) > 1:
        out.append(z3.Distinct(*cs))
    cl = [c for n, c in _cls.items() if c.decl().name() in names]
    need_cls = "cls" in names
    if need_cls:
        extra = []
        for (tn, _), c in ls:
            k = cls_const(tn)
            out.append(clsof(c) == k)
            extra.append(k)
        if "None" in names:
            k = cls_const("NoneType")
            out.append(clsof(NONE) == k)
            extra.append(k)
        if "box_int" in names:
            i = z3.Const("i!bg", I)
            out.append(z3.ForAll([i], clsof(bi(i)) == cls_const("int"), patterns=[bi(i)]))
            extra.append(cls_const("int"))
        if "box_bool" in names:
            b = z3.Const("b!bg", B)
            out.append(clsof(bb(z3.BoolVal(True))) == cls_const("bool"))
            out.append(clsof(bb(z3.BoolVal(False))) == cls_const("bool"))
            extra.append(cls_const("bool"))
        for n, (f, ps) in _tup.items():
            if f.name() in names:
                xs = [z3.Const(f"x{i}!bg", U) for i in range(n)]
                out.append(z3.ForAll(xs, clsof(f(*xs)) == cls_const("tuple"), patterns=[f(*xs)]))
                extra.append(cls_const("tuple"))
        for (tpl, _), (f, inv, sorts) in _fs.items():
            if f.name() in names:
                xs = [z3.Const(f"x{i}!bg", s) for i, s in enumerate(sorts)]
                out.append(z3.ForAll(xs, clsof(f(*xs)) == cls_const("str"), patterns=[f(*xs)]))
                extra.append(cls_const("str"))
        allc = {c.decl().name(): c for c in cl + extra}
        if len(allc) > 1:
            out.append(z3.Distinct(*allc.values()))
    else:
        if len(cl) > 1:
            out.append(z3.Distinct(*cl))
        # even without tags: boxed ints, tuples differ from literals of other types; only injectivity
    if "box_int" in names:
        i = z3.Const("i!bg", I)
        out.append(z3.ForAll([i], ubi(bi(i)) == i, patterns=[bi(i)]))
        if "None" in names:
            out.append(z3.ForAll([i], bi(i) != NONE, patterns=[bi(i)]))
    if "box_bool" in names:
        out.append(bb(z3.BoolVal(True)) != bb(z3.BoolVal(False)))
        if "None" in names:
            out.append(bb(z3.BoolVal(True)) != NONE)
            out.append(bb(z3.BoolVal(False)) != NONE)
    ar = [n for n, (f, ps) in _tup.items() if f.name() in names]
    if len(ar) > 1:
        tl = z3.Function("tuplen", U, I)
        for n in ar:
            xs = [z3.Const(f"x{i}!bg", U) for i in range(n)]
            f = _tup[n][0]
            out.append(z3.ForAll(xs, tl(f(*xs)) == n, patterns=[f(*xs)]))
    for n, (f, ps) in _tup.items():
        if f.name() in names:
            xs = [z3.Const(f"x{i}!bg", U) for i in range(n)]
            out.append(z3.ForAll(xs, z3.And(*[p(f(*xs)) == x for p, x in zip(ps, xs)], f(*xs) != NONE), patterns=[f(*xs)]))
    for (tpl, _), (f, inv, sorts) in _fs.items():
        if f.name() in names:
            xs = [z3.Const(f"x{i}!bg", s) for i, s in enumerate(sorts)]
            if inv is not None:
                out.append(z3.ForAll(xs, inv(f(*xs)) == xs[0], patterns=[f(*xs)]))
            if "None" in names:
                out.append(z3.ForAll(xs, f(*xs) != NONE, patterns=[f(*xs)]))
    from . import theory
    out += theory.axioms(names)
    return out


# ----------------------------------------------------------------- coercions
def is_conc(v):
    return v is None or isinstance(v, (bool, int, str, float, bytes)) or v is Ellipsis


def tyof(v):
    if isinstance(v, T):
        return v.ty
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int):
        return INT
    if isinstance(v, (str, FStr)):
        return STR
    if isinstance(v, float):
        return REAL
    if v is None or v is Ellipsis or isinstance(v, (bytes, ClassV, BuiltinV, Fn)):
        return ANY
    if isinstance(v, UnkFn):
        return FnT(v.tag)
    if isinstance(v, Tup):
        return TupT(*[tyof(x) for x in v.items])
    if isinstance(v, SetV):
        return SetT(v.kty)
    if isinstance(v, DictV):
        return DictT(v.kty, v.vty)
    if isinstance(v, ListV):
        return ListT(v.ety)
    if isinstance(v, RecV):
        return RecT({k: tyof(x) for k, x in v.f.items()})
    raise Unsup(f"type of {type(v).__name__}")


def term(v, sort=None):
    """z3 term of a scalar value, coerced to `sort` if given"""
    if isinstance(v, T):
        t = v.t
    elif isinstance(v, bool):
        t = z3.BoolVal(v)
    elif isinstance(v, int):
        t = z3.IntVal(v)
    elif isinstance(v, float):
        t = z3.RealVal(v) if sort is R or sort is None else lit(v)
        if sort is not None and sort.eq(U):
            return lit(v)
    elif isinstance(v, (str, bytes)):
        t = lit(v)
    elif v is None:
        t = NONE
    elif v is Ellipsis:
        t = lit("...")
    elif isinstance(v, FStr):
        t = fstr_term(v)
    elif isinstance(v, Tup):
        ts = [term(x, U) for x in v.items]
        t = tupbox(len(ts))(*ts) if ts else lit(())
    elif isinstance(v, ClassV):
        t = z3.Const(f"class!{v.name}", U)
    elif isinstance(v, UnkFn) and v.t is not None:
        t = v.t
    elif isinstance(v, BuiltinV) and v.name == "Ellipsis":
        t = lit("...")
    elif isinstance(v, BuiltinV):
        t = z3.Const(f"class!{v.name}", U)
    else:
        raise Unsup(f"no scalar term for {type(v).__name__}")
    if sort is None or t.sort().eq(sort):
        return t
    s = t.sort()
    if sort.eq(U):
        if s.eq(I):
            return bi(t)
        if s.eq(B):
            return bb(t)
        if s.eq(R):
            return br(t)
    if sort.eq(R) and s.eq(I):
        return z3.ToReal(t)
    if sort.eq(I) and s.eq(U):
        return ubi(t)
    if sort.eq(I) and s.eq(B):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    raise Unsup(f"cannot coerce {s} to {sort}")


def fstr_term(v):
    tpl, holes = "", []
    for p in v.parts:
        if isinstance(p, str):
            tpl += p
        else:
            tpl += "{}"
            holes.append(term(p[0]))
    if len(holes) == 1 and tpl == "{}" and holes[0].sort().eq(U):
        return holes[0]
    return fstr_fn(tpl, [h.sort() for h in holes])(*holes)


def keysorts(kty):
    if isinstance(kty, TupT):
        return [s for t in kty.ts for s in keysorts(t)]
    if isinstance(kty, Sc):
        return [kty.sort]
    raise Unsup(f"key type {kty}")


def flat(v, kty):
    """terms of a key value according to the key type"""
    if isinstance(kty, TupT):
        if isinstance(v, Tup) and len(v.items) == len(kty.ts):
            return [t for x, ty in zip(v.items, kty.ts) for t in flat(x, ty)]
        if isinstance(v, T) and v.ty.sort.eq(U):
            f = tupbox(len(kty.ts))
            ps = _tup[len(kty.ts)][1]
            return [t for p, ty in zip(ps, kty.ts) for t in flat(T(p(v.t), ANY), ty)]
        raise Unsup("tuple key mismatch")
    return [term(v, kty.sort)]


def unflat(ts, kty):
    ts = list(ts)

    def go(ty):
        if isinstance(ty, TupT):
            return Tup([go(t) for t in ty.ts])
        return T(ts.pop(0), ty)
    return go(kty)


def kconsts(kty, nm="k"):
    return [z3.FreshConst(s, nm) for s in keysorts(kty)]


# ----------------------------------------------------------------- builders
_ctr = itertools.count()


def mk(ty, name):
    """builder: params (z3 terms) -> Val of type ty made of fresh uninterpreted functions. """
    nm = f"{name}!{next(_ctr)}"

    def fun(suffix, sorts, rs):
        cache = {}

        def ap(args):
            key = tuple(str(a.sort()) for a in args)
            if key not in cache:
                cache[key] = z3.Function(nm + suffix, *[a.sort() for a in args], rs) if args else z3.Const(nm + suffix, rs)
            return cache[key](*args) if args else cache[key]
        return ap
    if isinstance(ty, SetT) and isinstance(ty.k, Bot):
        return lambda ps: SetV(lambda k: z3.BoolVal(False), BOT)
    if isinstance(ty, DictT) and isinstance(ty.k, Bot):
        return lambda ps: DictV(lambda k: z3.BoolVal(False), None, BOT, BOT, lambda k: z3.BoolVal(True))
    if isinstance(ty, ListT) and isinstance(ty.e, Bot):
        return lambda ps: ListV(z3.IntVal(0), lambda i: None, BOT, has=lambda e: z3.BoolVal(False))
    if isinstance(ty, Sc):
        f = fun("", None, ty.sort)
        return lambda ps: T(f(list(ps)), ty)
    if isinstance(ty, TupT):
        bs = [mk(t, f"{name}.{i}") for i, t in enumerate(ty.ts)]
        return lambda ps: Tup([b(ps) for b in bs])
    if isinstance(ty, SetT):
        f = fun("", None, B)
        return lambda ps: SetV(lambda k: f(list(ps) + flat(k, ty.k)), ty.k)
    if isinstance(ty, DictT):
        f = fun(".dom", None, B)
        g = mk(ty.v, name + ".at")
        return lambda ps: DictV(lambda k: f(list(ps) + flat(k, ty.k)),
                                lambda k: g(list(ps) + flat(k, ty.k)), ty.k, ty.v)
    if isinstance(ty, ListT):
        ln = fun(".len", None, I)
        g = mk(ty.e, name + ".el")
        hs = fun(".has", None, B) if isinstance(ty.e, (Sc, TupT)) else None
        return lambda ps: ListV(ln(list(ps)), lambda i: g(list(ps) + [term(i, I)]), ty.e,
                                has=(lambda e: hs(list(ps) + flat(e, ty.e))) if hs else None)
    if isinstance(ty, RecT):
        bs = {k: mk(t, f"{name}.{k}") for k, t in ty.fields.items()}
        return lambda ps: RecV({k: b(ps) for k, b in bs.items()})
    if isinstance(ty, FnT):
        f = fun("", None, U)
        return lambda ps: UnkFn(ty.tag, f(list(ps)))
    raise Unsup(f"cannot make fresh {ty}")


def wf_facts(v, params=(), guard=None):
    """well-formedness facts of a fresh value (list lengths and membership), closed over params"""
    out = []

    def close(bs, f):
        bs = list(bs)
        if not bs:
            return f
        return z3.ForAll(bs, f)

    def go(v, bs):
        if isinstance(v, ListV):
            out.append(close(bs, v.ln >= 0))
            if v._has is not None and isinstance(v.ety, (Sc, TupT)):
                i = z3.FreshConst(I, "i")
                h = v.has(v.at(T(i, INT)))
                out.append(close(bs + [i], z3.Implies(z3.And(0 <= i, i < v.ln), h)))
                ks = kconsts(v.ety, "e")
                e = unflat(ks, v.ety)
                idx = z3.Function(f"idx!{next(_ctr)}", *[b.sort() for b in bs], *[k.sort() for k in ks], I)
                ix = idx(*bs, *ks)
                out.append(close(bs + ks, z3.Implies(v.has(e), z3.And(0 <= ix, ix < v.ln, eqf(v.at(T(ix, INT)), e)))))
            elif not isinstance(v.ety, (Sc, TupT)):
                i = z3.FreshConst(I, "i")
                go(v.at(T(i, INT)), bs + [i])
        elif isinstance(v, DictV):
            if is_container(v.vty):
                ks = kconsts(v.kty)
                go(v.at(unflat(ks, v.kty)), bs + ks)
        elif isinstance(v, Tup):
            for x in v.items:
                go(x, bs)
        elif isinstance(v, RecV):
            for x in v.f.values():
                go(x, bs)
    go(v, list(params))
    return out


# ----------------------------------------------------------------- substitution / ite / equality
def subst_t(t, ps):
    if not ps:
        return t
    return z3.substitute(t, *ps)


def subst(v, ps):
    if not ps or is_conc(v):
        return v
    if isinstance(v, T):
        return T(subst_t(v.t, ps), v.ty)
    if isinstance(v, Tup):
        return Tup([subst(x, ps) for x in v.items])
    if isinstance(v, RecV):
        return RecV({k: subst(x, ps) for k, x in v.f.items()})
    if isinstance(v, FStr):
        return FStr([p if isinstance(p, str) else (subst(p[0], ps), p[1]) for p in v.parts])
    if isinstance(v, SetV):
        def mem(k):
            k0 = kconsts(v.kty)
            return subst_t(v.mem(unflat(k0, v.kty)), ps + list(zip(k0, flat(k, v.kty))))
        return SetV(mem, v.kty, it=subst_it(v.it, ps))
    if isinstance(v, DictV):
        def sub(f):
            def g(k):
                k0 = kconsts(v.kty)
                r = f(unflat(k0, v.kty))
                pp = ps + list(zip(k0, flat(k, v.kty)))
                return subst(r, pp) if isinstance(r, Val) or is_conc(r) else subst_t(r, pp)
            return g
        return DictV(sub(v.mem), sub(v.at), v.kty, v.vty, sub(v.touched))
    if isinstance(v, ListV):
        def at(i):
            i0 = z3.FreshConst(I, "i")
            return subst(v.at(T(i0, INT)), ps + [(i0, term(i, I))])
        has = None
        if v._has is not None:
            def has(e):
                k0 = kconsts(v.ety, "e")
                return subst_t(v._has(unflat(k0, v.ety)), ps + list(zip(k0, flat(e, v.ety))))
        return ListV(subst_t(v.ln, ps), at, v.ety, has, subst_it(v.it, ps))
    if isinstance(v, Ptr):
        return Ptr(v.root, [subst(x, ps) for x in v.path], v.gen)
    if isinstance(v, UnkFn):
        return UnkFn(v.tag, subst_t(v.t, ps) if v.t is not None else None)
    if isinstance(v, Bound):
        return Bound(subst(v.recv, ps), v.fn)
    if isinstance(v, (Fn, BuiltinV, ClassV, ModV, Undef)):
        return v
    if isinstance(v, Opaque):
        raise Unsup(f"subst opaque {v.kind}")
    raise Unsup(f"subst {type(v).__name__}")


def subst_it(it, ps):
    if it is None or it.conc is not None:
        return None if it is None else Iter([], None, None, conc=[subst(x, ps) for x in it.conc])
    it = it.fresh()
    return Iter(it.binders, subst_t(it.guard, ps), subst(it.elem, ps), it.ordered,
                subst_t(it.ln, ps) if it.ln is not None else None, it.uniq)


def same(a, b):
    if a is b:
        return True
    if is_conc(a) and is_conc(b):
        return type(a) is type(b) and a == b
    if isinstance(a, T) and isinstance(b, T):
        return a.t.eq(b.t)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.root == b.root and len(a.path) == len(b.path) and all(same(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (BuiltinV, ClassV, ModV)) and type(a) is type(b):
        return a.name == b.name
    return False


def join_ty(a, b):
    if a == b:
        return a
    if isinstance(a, TupT) and isinstance(b, TupT) and len(a.ts) == len(b.ts):
        return TupT(*[join_ty(x, y) for x, y in zip(a.ts, b.ts)])
    if isinstance(a, SetT) and isinstance(b, SetT):
        return SetT(join_ty(a.k, b.k))
    if isinstance(a, ListT) and isinstance(b, ListT):
        return ListT(join_ty(a.e, b.e))
    if isinstance(a, DictT) and isinstance(b, DictT):
        return DictT(join_ty(a.k, b.k), join_ty(a.v, b.v))
    if isinstance(a, Sc) and isinstance(b, Sc):
        return ANY
    if isinstance(a, RecT) and isinstance(b, RecT) and set(a.fields) == set(b.fields):
        return RecT({k: join_ty(a.fields[k], b.fields[k]) for k in a.fields})
    if isinstance(a, Bot):
        return b
    if isinstance(b, Bot):
        return a
    if isinstance(a, TupT) or isinstance(b, TupT):
        return ANY
    raise Unsup(f"join of {a} and {b}")


class Bot(Ty):
    """element type of an empty literal container"""
    name = "bot"


BOT = Bot()


def bite(c, a, b):
    """if-then-else; one with a constant side as a plain connective, which the solver's triggers see through"""
    if a.sort() == B:
        if z3.is_false(b):
            return z3.And(c, a)
        if z3.is_true(a):
            return z3.Or(c, b)
        if z3.is_false(a):
            return z3.And(z3.Not(c), b)
        if z3.is_true(b):
            return z3.Or(z3.Not(c), a)
    return z3.If(c, a, b)


def cvc5_unsat(fs, ms):
    """second back end: does cvc5 refute these facts? (anything but `unsat` counts as no answer)"""
    import subprocess
    s = z3.Solver()
    s.add(*fs)
    text = "(set-logic ALL)\n" + s.to_smt2().replace("'", "_q_")
    try:
        r = subprocess.run(["cvc5", f"--tlimit={ms}", "--lang=smt2", "-"], input=text, capture_output=True, text=True, timeout=ms / 1000 + 10)
    except (OSError, subprocess.TimeoutExpired):
        return False
    return r.stdout.strip() == "unsat" and not r.stderr.strip()


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same(a, b):
        return a
    if isinstance(a, SetV) and isinstance(b, SetV):
        k = join_ty(a.kty, b.kty)
        a, b = coerce(a, SetT(k)), coerce(b, SetT(k))
        return SetV(lambda x: bite(c, a.mem(x), b.mem(x)), k)
    if isinstance(a, DictV) and isinstance(b, DictV):
        ty = join_ty(DictT(a.kty, a.vty), DictT(b.kty, b.vty))
        a, b = coerce(a, ty), coerce(b, ty)
        return DictV(lambda x: bite(c, a.mem(x), b.mem(x)), lambda x: ite(c, a.at(x), b.at(x)), ty.k, ty.v,
                     lambda x: z3.If(c, a.touched(x), b.touched(x)))
    if isinstance(a, ListV) and isinstance(b, ListV):
        e = join_ty(a.ety, b.ety)
        a, b = coerce(a, ListT(e)), coerce(b, ListT(e))
        return ListV(z3.If(c, a.ln, b.ln), lambda i: ite(c, a.at(i), b.at(i)), e,
                     has=lambda x: z3.If(c, a.has(x), b.has(x)))
    if isinstance(a, RecV) and isinstance(b, RecV) and set(a.f) == set(b.f):
        return RecV({k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (T, FStr, Tup)) or is_conc(a) and (isinstance(b, (T, FStr, Tup)) or is_conc(b)):
        ta, tb = tyof(a), tyof(b)
        ty = ta if ta == tb else ANY
        if isinstance(ty, TupT):
            ty = ANY
        for x, y in ((a, tb), (b, ta)):
            if isinstance(y, Obj) and (x is None or isinstance(x, T) and isinstance(x.ty, Obj) and x.ty.cls.lstrip("?") == y.cls.lstrip("?")) and ty is ANY:
                ty = Obj("?" + y.cls.lstrip("?"))
        return T(bite(c, term(a, ty.sort), term(b, ty.sort)), ty)
    raise Unsup(f"merge of {type(a).__name__}/{type(b).__name__}")


def coerce(v, ty):
    """view a value at type ty (element-wise boxing of scalars)"""
    if isinstance(ty, Bot):
        return v
    if isinstance(ty, Sc):
        if isinstance(v, T) and v.ty == ty:
            return v
        if isinstance(ty, Obj) and isinstance(v, T) and isinstance(v.ty, Obj):
            return v
        if isinstance(v, T) and ty is ANY and v.ty.sort.eq(U):
            return v
        return T(term(v, ty.sort), ty)
    if isinstance(ty, TupT):
        if isinstance(v, Tup):
            return Tup([coerce(x, t) for x, t in zip(v.items, ty.ts)])
        return unflat(flat(v, ty), ty)
    if isinstance(ty, SetT) and isinstance(v, SetV):
        if v.kty == ty.k:
            return v
        if isinstance(v.kty, Bot):
            return SetV(lambda k: z3.BoolVal(False), ty.k)
        return SetV(v.mem if all(x.eq(y) for x, y in zip(keysorts(v.kty), keysorts(ty.k))) and len(keysorts(v.kty)) == len(keysorts(ty.k)) else _img(v, ty.k), ty.k, it=v.it)
    if isinstance(ty, DictT) and isinstance(v, DictV):
        if v.kty == ty.k and v.vty == ty.v:
            return v
        if isinstance(v.kty, Bot):
            b = mk(ty.v, "nil")
            return DictV(lambda k: z3.BoolVal(False), lambda k: b(flat(k, ty.k)), ty.k, ty.v, lambda k: z3.BoolVal(True))
        return DictV(v.mem, lambda k: coerce(v.at(k), ty.v), ty.k, ty.v, v.touched)
    if isinstance(ty, ListT) and isinstance(v, ListV):
        if v.ety == ty.e:
            return v
        if isinstance(v.ety, Bot):
            b = mk(ty.e, "nil")
            return ListV(v.ln, lambda i: b([term(i, I)]), ty.e, has=lambda e: z3.BoolVal(False))
        return ListV(v.ln, lambda i: coerce(v.at(i), ty.e), ty.e, v._has, v.it)
    if isinstance(ty, FnT):
        return v
    if isinstance(ty, RecT) and isinstance(v, RecV) and set(v.f) == set(ty.fields):
        return RecV({k: coerce(x, ty.fields[k]) for k, x in v.f.items()})
    raise Unsup(f"coerce {type(v).__name__} to {ty}")


def _img(v, kty):
    def mem(k):
        ks = kconsts(v.kty)
        kv = unflat(ks, v.kty)
        return z3.Exists(ks, z3.And(v.mem(kv), eqf(kv, k)))
    return mem


def eqf(a, b):
    """Bool term: Python == on modelled values"""
    if isinstance(a, T) and isinstance(b, T) and a.t.sort().eq(b.t.sort()):
        if a.ty != b.ty and STR in (a.ty, b.ty):
            o = b if a.ty == STR else a
            if o.t.sort().eq(U) and (o.ty == ANY or isinstance(o.ty, Obj) and o.ty.cls.startswith("?")):
                return z3.And(a.t == b.t, o.t != NONE)
        return a.t == b.t
    if is_conc(a) and is_conc(b):
        return z3.BoolVal(a == b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return z3.And(*[eqf(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
    if isinstance(a, SetV) and isinstance(b, SetV):
        kt = join_ty(a.kty, b.kty)
        if isinstance(kt, Bot):
            return z3.BoolVal(True)
        a, b = coerce(a, SetT(kt)), coerce(b, SetT(kt))
        ks = kconsts(kt)
        k = unflat(ks, kt)
        return z3.ForAll(ks, a.mem(k) == b.mem(k))
    if isinstance(a, DictV) and isinstance(b, DictV):
        ty = join_ty(DictT(a.kty, a.vty), DictT(b.kty, b.vty))
        if isinstance(ty.k, Bot):
            return z3.BoolVal(True)
        a, b = coerce(a, ty), coerce(b, ty)
        ks = kconsts(ty.k)
        k = unflat(ks, ty.k)
        dom = z3.ForAll(ks, a.mem(k) == b.mem(k))
        if isinstance(ty.v, (FnT, Bot)):
            return dom
        return z3.And(dom, z3.ForAll(ks, z3.Implies(a.mem(k), eqf(a.at(k), b.at(k)))))
    if isinstance(a, ListV) and isinstance(b, ListV):
        et = join_ty(a.ety, b.ety)
        if isinstance(et, Bot):
            return a.ln == b.ln
        i = z3.FreshConst(I, "i")
        iv = T(i, INT)
        a, b = coerce(a, ListT(et)), coerce(b, ListT(et))
        return z3.And(a.ln == b.ln, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.ln), eqf(a.at(iv), b.at(iv)))))
    if isinstance(a, RecV) and isinstance(b, RecV):
        if set(a.f) != set(b.f):
            return z3.BoolVal(False)
        return z3.And(*[eqf(a.f[k], b.f[k]) for k in a.f])
    cont = (SetV, DictV, ListV, RecV)
    if isinstance(a, cont) and isinstance(b, cont):
        return z3.BoolVal(False)
    if isinstance(a, cont) and is_conc(b) or isinstance(b, cont) and is_conc(a):
        return z3.BoolVal(False)
    if isinstance(a, cont) or isinstance(b, cont):
        x, y = (a, b) if isinstance(a, cont) else (b, a)
        if isinstance(y, T) and y.ty == ANY:
            raise Unsup("container compared with opaque value")
        return z3.BoolVal(False)
    if isinstance(a, (ClassV, BuiltinV)) and isinstance(b, (ClassV, BuiltinV)):
        return z3.BoolVal(a.name == b.name)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.root == b.root and a.path == b.path:
            return z3.BoolVal(True)
        raise Unsup("pointer comparison")
    ta, tb = term(a), term(b)
    if ta.sort().eq(tb.sort()):
        return ta == tb
    sa, sb = ta.sort(), tb.sort()
    if sa.eq(U) or sb.eq(U):
        # an int/bool against a known string/None/object: never equal
        other = a if sa.eq(U) else b
        if is_conc(other) or isinstance(other, FStr) or tyof(other) is STR:
            return z3.BoolVal(False)
        return term(a, U) == term(b, U)
    if {str(sa), str(sb)} == {"Int", "Bool"}:
        return term(a, I) == term(b, I)
    return term(a, R) == term(b, R)


def leaves(v, ty):
    """flatten a value into named leaf functions: list of (path, keytypes, kind, fn(keys)->term)
    kind: 'b' Bool leaf, 's' scalar leaf; for dict value leaves a touched function is attached."""
    out = []

    def go(name, ktys, get, ty, touch):
        if isinstance(ty, Sc):
            out.append((name, ktys, "b" if ty.sort.eq(B) else "s", lambda ks: term(get(ks), ty.sort), touch, ty))
        elif isinstance(ty, TupT):
            for i, t in enumerate(ty.ts):
                go(f"{name}.{i}", ktys, lambda ks, i=i: get(ks).items[i], t, touch)
        elif isinstance(ty, SetT):
            out.append((name + ".mem", ktys + [ty.k], "b", lambda ks: get(ks[:-1]).mem(ks[-1]), None, BOOL))
        elif isinstance(ty, DictT):
            out.append((name + ".dom", ktys + [ty.k], "b", lambda ks: get(ks[:-1]).mem(ks[-1]), None, BOOL))

            def tch(ks):
                r = get(ks[:len(ktys)]).touched(ks[len(ktys)])
                if touch is not None:
                    r = z3.Or(touch(ks[:len(ktys)]), r)
                return r
            go(name + ".at", ktys + [ty.k], lambda ks: get(ks[:-1]).at(ks[-1]), ty.v, tch)
        elif isinstance(ty, ListT):
            out.append((name + ".len", ktys, "s", lambda ks: get(ks).ln, touch, INT))
            if isinstance(ty.e, (Sc, TupT)):
                out.append((name + ".has", ktys + [ty.e], "b", lambda ks: get(ks[:-1]).has(ks[-1]), None, BOOL))
            go(name + ".el", ktys + [INT], lambda ks: get(ks[:-1]).at(ks[-1]), ty.e, lambda ks: z3.BoolVal(False))
        elif isinstance(ty, (Bot, FnT)):
            pass
        else:
            raise Unsup(f"leaves of {ty}")
    go("", [], lambda ks: v, ty, None)
    return out
