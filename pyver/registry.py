"""Contracts: pre/postconditions, frames, class layouts and ghost fields for the functions of /repo."""
from __future__ import annotations
import ast
import re
from .core import *
from .interp import ConstT, OpaqueT


def _split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch == "["
        d -= ch == "]"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_ty(s):
    if isinstance(s, Ty):
        return s
    s = s.strip()
    base = {"int": INT, "bool": BOOL, "str": STR, "any": ANY, "real": REAL, "none": ConstT(None)}
    if s in base:
        return base[s]
    m = re.match(r"^(\w+)\[(.*)\]$", s, re.S)
    if not m:
        raise ValueError(f"type {s!r}")
    h, body = m.group(1), m.group(2)
    if h == "obj":
        return Obj(body)
    if h == "cell":
        return CellT(body)
    if h == "optcell":
        return OptCellT(body)
    if h == "fn":
        return FnT(body)
    if h == "const":
        return ConstT(ast.literal_eval(body))
    if h == "opaque":
        return OpaqueT(body)
    if h == "rec":
        return RecT({x.split(":", 1)[0].strip(): parse_ty(x.split(":", 1)[1]) for x in _split(body)})
    args = [parse_ty(x) for x in _split(body)]
    return {"vtup": VTupT, "set": SetT, "bag": BagT, "dict": DictT, "list": ListT, "tup": TupT}[h](*args)


class Contract:
    def __init__(self, qual, types=None, returns=None, requires=(), ensures=(), raises=None, modifies=(), pure=False,
                 assumed=False, ghost=False, use=None, sig=None, props=(), loops=(), body=None, variants=None,
                 exsures=(), doc="", bounded=None, lemma=None, raises_may=(), timeout=None, budget=None, inline=(), manual=False, faults=(), mod=None, mentions=(), ordered=False, nested=False):
        self.nested = nested
        self.ordered = ordered
        self.mentions = list(mentions)
        self.mod = mod
        self.qual, self.name = qual, qual.split(".")[-1].split(":")[-1]
        self.types = {k: parse_ty(v) for k, v in (types or {}).items()}
        self.returns = parse_ty(returns) if returns else None
        self.requires, self.ensures = list(requires), list(ensures)
        self.raises = dict(raises or {})
        self.modifies, self.pure, self.assumed, self.ghost, self.use = list(modifies), pure, assumed, ghost, use
        self.sig, self.props, self.loops, self.exsures, self.doc = sig, list(props), list(loops), list(exsures), doc
        self.manual, self.faults = manual, set(faults)
        self.bounded, self.lemma, self.timeout, self.budget, self.inline = bounded, lemma, timeout, budget, list(inline)

    def signature(self):
        src = self.sig or f"def {self.name}({', '.join(self.types)}): pass"
        return ast.parse(src).body[0]


def _done(ip, st, args, kw, e):
    """in a loop invariant: the element has been processed already"""
    if ip.done_fn is None:
        raise Unsup("done() outside a for loop invariant")
    ts = []
    for a in args:
        ts += flat(a, tyof(a)) if isinstance(a, Tup) else [term(a)]
    return [(st, T(ip.done_fn(ts), BOOL))]


def _elem(ip, st, args, kw, e):
    """in a loop invariant: the i-th element of what the loop runs over"""
    it = ip.loop_iter
    if it is None or not it.ordered or it.conc is not None:
        raise Unsup("elem() outside the invariant of a loop over a sequence")
    return [(st, subst(it.elem, [(it.binders[0], term(args[0], I))]))]


class Registry:
    def __init__(self):
        self.classes, self.contracts, self.specfns, self.duck = {}, {}, {}, {}
        self.opaque_attrs, self.class_state = {}, {}
        self.callable_any, self.spec_ok = None, set()
        self.ordered_fields = set()
        self.class_consts, self.duck_methods = {}, {}
        self.builtins, self.models = {}, {}
        self.opaque_cls, self.opaque_getattr, self.opaque_methods, self.unknown_calls = {}, {}, {}, {}
        self.shared_classes, self.immutable = set(), set()
        self.lemmas = {}
        self.optnone = []
        self.trusted = {}
        self.parse_ty = parse_ty
        self.rowclasses = {}
        from . import sqlmodel
        sqlmodel.install(self)
        self.builtins["done"] = _done
        self.builtins["elem"] = _elem

    def cls(self, name, kind="cell", fields=None, bases=None, **kw):
        self.classes[name] = dict(kind=kind, fields={k: parse_ty(v) for k, v in (fields or {}).items()}, bases=bases, **kw)

    def contract(self, qual, **kw):
        c = Contract(qual, **kw)
        self.contracts[qual] = c
        return c

    def lemma(self, name, src, **kw):
        """a ghost client: python text calling the real functions, executed symbolically against
        their contracts / bodies, with its own pre- and postcondition"""
        c = Contract(name, lemma=ast.parse(src.strip("\n")).body[0], **kw)
        self.contracts[name] = c
        return c

    def spec(self, src):
        for n in ast.parse(src).body:
            if n.name in self.specfns and ast.dump(self.specfns[n.name]) != ast.dump(n):
                raise ValueError(f"two specification functions named {n.name}")
            self.specfns[n.name] = n

    def trust(self, key, why):
        self.trusted[key] = why

    def find_contract(self, cls, name, ip):
        for c in ip.mro(cls):
            if f"{c}.{name}" in self.contracts:
                return self.contracts[f"{c}.{name}"]
        return None
