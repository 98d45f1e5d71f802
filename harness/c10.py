"""random values and nestings of refs: wrapping, unwrapping, attaching, detaching, struct refs, save and load"""
import os, copy
from base import *
from world import *
from gen import VALUES, Pt, Lst
from mandala.storage import Storage
from mandala.model import op, ValuePointer, MList, MDict, __make_list__, __make_dict__, make_ref_set, RefCollection, ValueCollection, TupleRef, SetRef, unwrap_special_value, Ignore, NewArgDefault
from mandala.tps import Type, ListType, DictType, AtomType
import typing


def same(a, b):
    return type(a) is type(b) and (len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) if isinstance(a, (list, tuple)) else
                                   a.keys() == b.keys() and all(same(a[k], b[k]) for k in a) if isinstance(a, dict) else a == b)


@scenario(quick=200, thorough=4000)
def atoms(rng, log):
    v = value(rng, 3) if rng.random() < .7 else rng.choice(VALUES)
    hid = rng.choice([None, "hh"])
    log(repr(v), hid)
    before = copy.deepcopy(v)
    r = wrap_atom(v, hid) if hid else wrap_atom(v)
    eq(type(r), AtomRef, "type of the wrapped value", "wrap")
    check(r.obj is v and r.in_memory, "the ref must hold the value", "wrap")
    eq(r.cid, get_content_hash(v), "content id", "wrap")
    eq(r.hid, hid or get_content_hash(get_content_hash(v)), "history id", "wrap")
    check(wrap_atom(r) is r, "wrapping a ref must give it back", "wrap")
    check(Raises(wrap_atom, r, "h2").exc is not None, "wrapping a ref with a history id must be refused", "wrap")
    check(Raises(wrap_atom, ListRef("c", "h", True, [r])).exc is not None, "a list ref is not an atom", "wrap")
    vp = ValuePointer(rng.choice(["m", "data set"]), v)
    w = wrap_atom(vp)
    eq((w.cid, w.hid), (get_content_hash(vp.id),) * 2, "ids of a value pointer", "pointer")
    check(isinstance(w.obj, ValuePointer) and w.obj.id == vp.id and w.obj.obj is None and vp.obj is v, "a value pointer is kept by name only", "pointer")
    for x in (None, "", 3):
        check(Raises(ValuePointer, x, v).exc is not None or isinstance(x, str) and x, f"ValuePointer({x!r}) accepted", "pointer")
    check(unwrap_special_value(vp) is v and unwrap_special_value(Ignore(v)) is v and unwrap_special_value(NewArgDefault(v)) is v and unwrap_special_value(v) is v, "unwrap_special_value", "special")
    for q in [r, ListRef("c1", "h1", True, [r, r]), DictRef("c2", "h2", True, {"a": r}), TupleRef("c3", "h3", True, (r,)), AtomRef("c", "h", False, None)]:
        s0 = dict(q.__dict__)
        ops = [("detached", q.detached(), (q.cid, q.hid, False, None)), ("attached", q.attached(v), (q.cid, q.hid, True, v)),
               ("shallow_copy", q.shallow_copy(), (q.cid, q.hid, q.in_memory, q.obj)), ("with_hid", q.with_hid("new"), (q.cid, "new", q.in_memory, q.obj))]
        for n, c, want in ops:
            check(c is not q and type(c) is type(q), f"{n} must give a new ref of the same type", "copies")
            eq((c.cid, c.hid, c.in_memory), want[:3], n, "copies")
            check(c.obj is want[3], f"{n}: object {c.obj!r}", "copies")
        eq(hash(q.detached()), hash(q), "hash of a detached ref", "copies")
        check(all(q.__dict__[k] is s0[k] for k in s0) and set(q.__dict__) == set(s0), "the original changed", "copies")
    check(same(v, before), "the value changed", "wrap")


def nest(rng, refs, depth=3):
    """(structure with refs, the same structure of plain values)"""
    k = rng.randrange(9 if depth else 3)
    if k == 0:
        r = rng.choice(refs); return r, r.value
    if k == 1:
        v = rng.choice(VALUES); return v, v
    if k == 2:
        return rng.choice([(3, 3), ("x", "x"), (None, None)])
    kids = [nest(rng, refs, depth - 1) for _ in range(rng.randrange(4))]
    a, b = [x for x, _ in kids], [y for _, y in kids]
    ks = [ident(rng, 2) + str(i) for i in range(len(a))]
    if k in (3, 8): return a, b
    if k == 4: return tuple(a), tuple(b)
    if k == 5: return dict(zip(ks, a)), dict(zip(ks, b))
    if k == 6 and all(isinstance(x, Ref) for x in a):
        return ListRef("lc", "lh", True, a), b
    if k == 7 and all(isinstance(x, Ref) for x in a):
        return DictRef("dc", "dh", True, dict(zip(ks, a))), dict(zip(ks, b))
    return a, b


@scenario(quick=200, thorough=4000)
def unwrapping(rng, log):
    with Scratch() as d:
        st = Storage(db_path=os.path.join(d, "s.db") if rng.random() < .3 else ":memory:")
        refs = []
        for _ in range(4):
            v = rng.choice(VALUES)
            r = wrap_atom(v)
            with st:
                st.save_ref(r)
            if rng.random() < .5:
                r = r.detached()
            r.value = v
            refs.append(r)
        if rng.random() < .5:
            st.clear_cache()
        x, want = nest(rng, refs)
        log(repr(want), "detached:", [not r.in_memory for r in refs])
        got = st.unwrap(x)
        check(same(got, want), f"unwrap: got {got!r}, want {want!r}", "unwrap")
        mem = [r.in_memory for r in refs]
        att = st.attach(x)
        check(same(st.unwrap(att), want), f"unwrap(attach(x)) = {st.unwrap(att)!r}, want {want!r}", "attach")
        eq([r.in_memory for r in refs], mem, "attach changed its argument", "attach")
        for r in refs:
            a = st.attach(r)
            eq((type(a), a.cid, a.hid, a.in_memory), (AtomRef, r.cid, r.hid, True), "attached ref", "attach")
            check(same(a.obj, r.value), f"attached value {a.obj!r} instead of {r.value!r}", "attach")
            a.value = None
        s = {refs[0]}
        check(list(st.unwrap(RefCollection(refs)).values) == [r.value for r in sorted(refs, key=lambda r: r.hid)], "unwrap of a ref collection", "unwrap")
        r = rng.choice(refs)
        st.attach(r, inplace=True)
        check(r.in_memory and same(r.obj, r.value), "attach in place", "attach")


@scenario(quick=150, thorough=3000, weight=1.5)
def structs(rng, log):
    """list/dict arguments become struct refs over their items' refs, in order; loaded again in a new session"""
    with Scratch() as d:
        n = rng.choice([0, 1, 2, 3, 10, 11, 12, 101])
        xs = [rng.choice([1, 2, "a", None, 2.5, (1, 2)]) for _ in range(n)]
        dd = {rng.choice(["a", "b", "elts_0", "k9", "k10"]) + str(i): rng.choice([1, "z"]) for i in range(rng.randrange(0, 4))}
        log(xs, dd)
        st = Storage(db_path=os.path.join(d, "s.db"))
        kind = rng.choice(["list", "dict", "nested"])
        AT = AtomType()
        tp, v = {"list": (ListType(AT), xs), "dict": (DictType(val=AT, key=AT), dd), "nested": (ListType(ListType(AT)), [xs[:2], xs[1:], []])}[kind]
        with st:
            r, calls = st.construct(tp=tp, val=v)
            for c in calls[::-1] if rng.random() < .5 else calls:
                st.save_call(c)
        check(isinstance(r, DictRef if kind == "dict" else ListRef), f"type {type(r)}", "construct")

        def items(r, v):
            """item refs in order, with the content ids of the items"""
            if isinstance(v, list):
                check(isinstance(r, ListRef) and len(r) == len(v), f"list ref {r} for {v}", "construct")
                cids = [items(r[i], v[i]) for i in range(len(v))]
                eq(r.cid, get_content_hash(cids), "content id of a list", "construct")
                ins = {f"elts_{i}": e for i, e in enumerate(r.obj)}
                eq(r.hid, __make_list__.get_output_history_ids(__make_list__.get_call_history_id(ins), ["list"])["list"], "history id of a list", "construct")
                return r.cid
            if isinstance(v, dict):
                check(isinstance(r, DictRef) and set(r.obj) == set(v) and len(r) == len(v), f"dict ref {r} for {v}", "construct")
                eq({k: items(r[k], v[k]) for k in v}, {k: get_content_hash(v[k]) for k in v}, "items", "construct")
                eq(r.cid, get_content_hash(sorted([(k, get_content_hash(v[k])) for k in v])), "content id of a dict", "construct")
                return r.cid
            eq(r.cid, get_content_hash(v), "content id of an item", "construct")
            return r.cid
        items(r, v)
        check(same(st.unwrap(r), v), f"unwrap(construct(v)) = {st.unwrap(r)!r}, want {v!r}", "construct")
        sh = r.shape()
        eq((sh.cid, sh.hid, len(sh)), (r.cid, r.hid, len(r)), "shape", "shape")
        es = list(sh.obj.values()) if kind == "dict" else sh.obj
        eo = list(r.obj.values()) if kind == "dict" else r.obj
        eq([(e.cid, e.hid, e.in_memory) for e in es], [(e.cid, e.hid, False) for e in eo], "items of the shape", "shape")
        st2 = Storage(db_path=st.db.db_path) if rng.random() < .6 else st
        got = st2.load_ref(r.hid)
        eq((type(got), got.cid, got.hid), (type(r), r.cid, r.hid), "loaded struct ref", "load")
        check(same(st2.unwrap(got), v), f"loaded struct: {st2.unwrap(got)!r}, want {v!r}", "load")
        # same items -> same struct
        with st:
            r2, _ = st.construct(tp=tp, val=copy.deepcopy(v))
            eq((r2.cid, r2.hid), (r.cid, r.hid), "constructing equal values", "construct")
            if kind == "list" and n > 1 and xs[0] != xs[1]:
                r3, _ = st.construct(tp=tp, val=[xs[1], xs[0]] + xs[2:])
                check(r3.cid != r.cid and r3.hid != r.hid, "swapping list items kept the id", "construct")
                r3, _ = st.construct(tp=tp, val=xs[:-1])
                check(r3.cid != r.cid, "a shorter list has the same id", "construct")
        check(wrap_struct_noop(st, tp, r), "constructing a ref must give it back", "construct")


def wrap_struct_noop(st, tp, r):
    a, c = st.construct(tp=tp, val=r)
    return a is r and c == []
