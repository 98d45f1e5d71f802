"""ops with 1-120 outputs, generic or named, auto/var/int nout, annotated or not: the i-th value comes back as the i-th output, computed, recalled and reloaded; wrong counts are refused"""
import os, typing
from base import *
from world import *
from mandala.storage import Storage
from mandala.model import op, MList, MDict
from mandala.utils import parse_returns, dump_output_name, parse_output_name
import inspect


def many(rng):
    return rng.choice([1, 1, 2, 3, 5, 9, 10, 11, 12, 13, 23, 101, 120])


@scenario(quick=80, thorough=800, weight=1.5)
def positions(rng, log):
    with Scratch() as d:
        n = many(rng)
        named = rng.random() < .5
        names = rng.sample([f"{a}{s}{b}" for a in ("z", "out", "res", "output_x") for s in ("", "_") for b in range(60)], n) if named else None
        if named and rng.random() < .3:
            names = [f"output_{i}" for i in rng.sample(range(n), n)]
        nout = rng.choice(["auto", "var", n]) if n > 1 else rng.choice(["auto", "auto", 1])
        vals = [(i, ident(rng, 2)) if n > 1 and rng.random() < .8 else rng.randrange(2) for i in range(n)]
        log(n, names, nout, vals[:4])
        runs = []
        @op(output_names=names, nout=nout)
        def f(x):
            runs.append(x)
            return vals[0] if n == 1 and nout == "auto" else tuple(vals)
        p = os.path.join(d, "s.db")
        st = Storage(db_path=p)
        per = []
        for i in range(rng.randrange(1, 4)):
            if i and rng.random() < .5:
                st = Storage(db_path=p)
            elif rng.random() < .5:
                st.clear_cache()
            with st:
                r = f(rng.choice([0, 0, 1]) if i else 0)
            r = r if isinstance(r, tuple) else (r,)
            eq(len(r), n, "number of outputs returned", "count")
            with st:
                got = [st.unwrap(o) for o in r]
            eq(got, vals, f"outputs in order (run {i})", "order")
            c = st.get_ref_creator(r[-1])
            want = names or [f"output_{j}" for j in range(n)]
            check(c is not None and set(c.outputs) == set(want), f"output names {sorted(c.outputs)[:5]} instead of {want[:5]}", "names")
            for j, o in enumerate(r):
                eq(c.outputs[want[j]].hid, o.hid, f"output {j} is recorded as {want[j]}", "names")
                eq(st.load_ref(o.hid).obj, vals[j], f"stored value of {want[j]}", "names")
        check(len(runs) <= 2 and len(set(runs)) == len(runs), f"the body ran {runs}", "recall")


@scenario(quick=120, thorough=2000)
def counts(rng, log):
    """a returned value that does not match the declared number of outputs is refused and nothing is saved"""
    n = rng.randrange(1, 5)
    decl = rng.choice(["int", "names", "both", "var"])
    k = rng.randrange(0, 6)
    tup = rng.random() < .7
    val = tuple(range(k)) if tup else rng.choice([7, [1, 2], "ab"])
    log(decl, n, val)
    runs = []
    @op(output_names=[f"o{i}" for i in range(n)] if decl in ("names", "both") else None, nout=n if decl in ("int", "both") else "var" if decl == "var" else "auto")
    def f(x):
        runs.append(x)
        return val
    got = len(val) if isinstance(val, tuple) else 1
    ok = (isinstance(val, tuple) and (decl == "var" or got == n)) if decl in ("int", "both", "var") else got == n
    if ok and got == 0:
        raise Skip()
    st = Storage()
    r = Raises(lambda: enter(st, lambda: f(0)))
    if ok:
        check(r.exc is None, f"legal return {val!r} refused: {r.exc!r}", "accept")
    else:
        check(r.exc is not None, f"{decl} n={n}: returning {val!r} was accepted", "reject")
        eq(len(st.calls.cache), 0, "cached calls after a refused return", "reject")
        eq(len(st.call_storage.get_df()), 0, "stored calls after a refused return", "reject")
        r = Raises(lambda: enter(st, lambda: f(0)))
        eq(len(runs), 2, "a refused call must run again", "reject")


def enter(st, f):
    with st:
        return f()


@scenario(quick=150, thorough=3000)
def names(rng, log):
    for _ in range(5):
        i = rng.choice([0, 1, 9, 10, 11, 99, 100, rng.randrange(10 ** 6)])
        eq(parse_output_name(dump_output_name(i)), i, "index of the generic name", "codec")
        on = [ident(rng, 3) + str(j) for j in range(rng.randrange(1, 4))]
        if i < len(on):
            eq(dump_output_name(i, on), on[i], "given name", "codec")
    n = many(rng)
    def g(): pass
    vals = tuple(object() for _ in range(n))
    kind = rng.choice(["none", "each", "ellipsis"])
    ann = [rng.choice([int, str, typing.Any, MList[int], MDict[str, int]]) for _ in range(n)]
    if kind == "each":
        g.__annotations__["return"] = typing.Tuple[tuple(ann)]
    elif kind == "ellipsis":
        g.__annotations__["return"] = typing.Tuple[ann[0], ...]
    log(n, kind)
    outs, anns = parse_returns(inspect.signature(g), vals, rng.choice(["auto", "var", n]), None)
    eq(list(outs), [f"output_{i}" for i in range(n)], "output names", "parse_returns")
    for i in range(n):
        check(outs[f"output_{i}"] is vals[i], f"output {i} holds another value", "parse_returns")
        a = anns[f"output_{i}"]
        want = typing.Any if kind == "none" else ann[i] if kind == "each" else ann[0]
        check(a == want, f"annotation of output {i} ({kind}, n={n}): {a} instead of {want}", "parse_returns")
    single = rng.choice([3, "x", [1], {"a": 1}])
    h = ann[0]
    def k(): pass
    k.__annotations__["return"] = h
    outs, anns = parse_returns(inspect.signature(k), single, "auto", None)
    eq((outs, anns), ({"output_0": single}, {"output_0": h}), "single output", "parse_returns")
    from mandala.model import Op
    order = rng.sample(range(n), n)
    o = Op("f", None)
    eq(o.get_ordered_outputs({f"output_{i}": i for i in order}), tuple(range(n)), "ordered outputs", "ordered")
    nm = [f"n{i}" for i in order]
    o = Op("f", None, output_names=nm)
    eq(o.get_ordered_outputs({x: x for x in rng.sample(nm, n)}), tuple(nm), "ordered named outputs", "ordered")


@scenario(quick=60, thorough=800)
def structured(rng, log):
    """list and dict outputs keep their type, items and order through recall"""
    with Scratch() as d:
        k = rng.choice([0, 1, 2, 3, 11])
        xs = [rng.randrange(5) for _ in range(k)]
        dd = {ident(rng, 2) + str(i): rng.randrange(5) for i in range(rng.randrange(0, 4))}
        log(xs, dd)
        swap = rng.random() < .5
        if swap:
            @op
            def f(x) -> typing.Tuple[MDict[str, int], MList[int]]: return dict(dd), list(xs)
        else:
            @op
            def f(x) -> typing.Tuple[MList[int], MDict[str, int]]: return list(xs), dict(dd)
        p = os.path.join(d, "s.db")
        st = Storage(db_path=p)
        for i in range(3):
            with st:
                r = f(1)
                if swap: r = r[::-1]
                eq((type(r[0]).__name__, type(r[1]).__name__), ("ListRef", "DictRef"), "output types", "types")
                eq(st.unwrap(r[0]), xs, f"list output (run {i})", "types")
                eq(st.unwrap(r[1]), dd, f"dict output (run {i})", "types")
            st = Storage(db_path=p) if rng.random() < .5 else st
