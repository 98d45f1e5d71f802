"""generated functions with every kind of parameter, default, ignored and NewArgDefault argument; the body's view is compared with what a plain Python call would bind, in run, noop and no context"""
from base import *
from world import *
from gen import *
from gen import _Ignore
from mandala.storage import Storage
from mandala.model import wrap_atom, Context
import copy, collections


def shown(args, kw):
    f = lambda v: ("Ignore(%r)" % (v.value,) if isinstance(v, _Ignore) else "Ref(%r)" % (v.obj,) if isinstance(v, Ref) else repr(v))
    return "(" + ", ".join([f(a) for a in args] + [f"{k}={f(v)}" for k, v in kw.items()]) + ")"


def same_types(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return all(same_types(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return all(same_types(x, y) for x, y in zip(a, b))
    return True


def program(rng, log, storage):
    vals = rng.sample(VALUES, 5)
    g = Gen(rng, log, vals)
    ref_like = lambda v: wrap_atom(v) if rng.random() < .25 else v
    keys = {}
    for _ in range(rng.randrange(1, 6)):
        how = rng.choice(["run", "run", "run", "noop", "none"])
        args, kw, body, key = g.args(wrap=ref_like if how != "none" else lambda v: v)
        if how == "none" and any(isinstance(v, _Ignore) for v in list(args) + list(kw.values())):
            continue
        if how == "none" and any(d is not None and d[0] != "plain" for _, _, d in g.params):
            continue
        log(how, "f" + shown(args, kw))
        n = len(g.seen)
        want = copy.deepcopy(body)
        if how == "none":
            g.op(*args, **kw)
            ran = True
        elif how == "noop":
            with storage("noop"):
                g.op(*args, **kw)
            ran = True
        else:
            with storage:
                r = g.op(*args, **kw)
            ran = key not in keys
            keys.setdefault(key, r)
            got = storage.parse_args(inspect.signature(g.fn), args, kw, apply_defaults=True, ignore_args=g.ignore)
            eq(set(got[1]), {n for n, _ in key[1]}, "storage inputs", "inputs")
            eq({n: get_content_hash(v.obj if isinstance(v, Ref) else v) for n, v in got[1].items()}, dict(key[1]), "contents of the storage inputs", "inputs")
            eq(set(got[2]), set(got[1]), "annotated inputs", "inputs")
        eq(len(g.seen) - n, 1 if ran else 0, f"executions of f{shown(args, kw)} ({how})", "executions")
        if ran:
            seen = g.seen[-1]
            eq(seen, want, f"what the body saw for f{shown(args, kw)} ({how})", "binding")
            for p, v in want.items():
                check(same_types(seen[p], v), f"parameter {p}: the body got {seen[p]!r} instead of {v!r}", "binding")


@scenario(quick=250, thorough=5000, weight=2)
def binding(rng, log):
    program(rng, log, Storage())


@scenario(quick=150, thorough=3000)
def rebuild(rng, log):
    """boundargs_to_args_kwargs gives back a call with the same bindings"""
    from mandala.utils import boundargs_to_args_kwargs
    g = Gen(rng, log, VALUES, hidden=False)
    sig = inspect.signature(g.fn)
    args, kw, body, key = g.args()
    ba = sig.bind(*[a.value if isinstance(a, _Ignore) else a for a in args], **{k: v.value if isinstance(v, _Ignore) else v for k, v in kw.items()})
    ba.apply_defaults()
    log(shown(args, kw))
    a2, k2 = boundargs_to_args_kwargs(ba)
    check(isinstance(a2, tuple), "args must be a tuple", "rebuild")
    g.fn(*a2, **k2)
    eq(g.seen[-1], body, "values seen through rebuilt arguments", "rebuild")


class Odd:
    """equality is not a bool, like an array's"""
    def __init__(self, v): self.v = v
    def __eq__(self, o): raise RuntimeError("compared with == before checking the type")
    def __hash__(self): return 1


@scenario(quick=150, thorough=2000)
def new_arg_default(rng, log):
    """a parameter with NewArgDefault(v) is hidden exactly for values of v's type equal to v"""
    import numpy as np, pandas as pd
    from mandala.utils import _conservative_equality_check as chk
    pool = VALUES + [np.arange(3), np.arange(4), np.array([1.0, 2.0]), pd.DataFrame({"a": [1]}), pd.DataFrame({"a": [2]}), np.float64(1.5)]

    def equal(a, b):
        if type(a) is not type(b): return False
        if isinstance(a, np.ndarray): return a.shape == b.shape and bool((a == b).all())
        if isinstance(a, pd.DataFrame): return a.equals(b)
        return bool(a == b)
    d = rng.choice(pool + [0, 1, 2, True, 1.0, {"a": 1}, "a"])
    # values that compare equal to the default without being of its type
    alike = [x for x in (True, False, 0, 1, 2, 0.0, 1.0, 2.0, np.float64(1.5), 1.5, (1,), [1], collections.OrderedDict(a=1), {"a": 1}, "a") if not (isinstance(x, np.float64) and not isinstance(d, float)) and isinstance(d, (bool, int, float, str, tuple, list, dict)) and x == d and type(x) is not type(d)]
    v = rng.choice(pool + [d, copy.deepcopy(d), Odd(1)]) if rng.random() < .6 or not alike else rng.choice(alike)
    log(repr(d), repr(v))
    if not isinstance(v, Odd):
        eq(bool(chk(d, v)), equal(d, v), f"_conservative_equality_check({d!r}, {v!r})", "conservative_eq")
    else:
        eq(bool(chk(d, v)), False, "comparison with a value of another type", "conservative_eq")
    st = Storage()
    n = []
    @op
    def f(x, y=NewArgDefault(d)):
        n.append(y)
        return x
    if isinstance(v, Odd):
        raise Skip()
    with st:
        a = f(1)
        b = f(1, v if rng.random() < .6 else wrap_atom(v))
    check(equal(n[0], d), f"the default reached the body as {n[0]!r}", "default")
    if equal(v, d):
        eq((len(n), b.hid), (1, a.hid), f"passing the default {d!r} explicitly as {v!r}", "hidden")
    else:
        eq((len(n), b.hid != a.hid), (2, True), f"passing {v!r} instead of the default {d!r}", "hidden")
        check(equal(n[1], v), f"the body saw {n[1]!r} instead of {v!r}", "default")


@scenario(quick=60, thorough=800)
def value_pointers(rng, log):
    """the body gets the object a ValuePointer names; the storage sees only its id"""
    st = Storage()
    seen = []
    class Big:
        def __reduce__(self): raise RuntimeError("must not be serialized")
    objs = [Big(), Big()]
    @op
    def f(a, *args, b=0, **kw):
        seen.append((a, args, b, kw)); return 1
    ids = [rng.choice(["m1", "m2"]) for _ in range(3)]
    os_ = [rng.choice(objs) for _ in range(3)]
    P = [ValuePointer(i, o) for i, o in zip(ids, os_)]
    kwb = rng.random() < .5
    log(ids, kwb)
    with st:
        r1 = f(P[0], P[1], **({"b": P[2]} if kwb else {"z": P[2]}))
    want = (os_[0], (os_[1],), os_[2] if kwb else 0, {} if kwb else {"z": os_[2]})
    check(len(seen) == 1 and seen[0][0] is want[0] and seen[0][1][0] is want[1][0] and (seen[0][2] is os_[2] if kwb else seen[0][3]["z"] is os_[2]), f"the body saw {seen}", "pointer")
    with st:      # same ids, other objects: the same call
        r2 = f(*[ValuePointer(i, rng.choice(objs)) for i in ids[:2]], **({"b": ValuePointer(ids[2], None)} if kwb else {"z": ValuePointer(ids[2], None)}))
    eq((len(seen), r2.hid), (1, r1.hid), "recalling by pointer ids", "pointer")
    with st:
        r3 = f(ValuePointer("other", objs[0]), P[1], **({"b": P[2]} if kwb else {"z": P[2]}))
    eq((len(seen), r3.hid != r1.hid), (2, True), "a pointer with another id", "pointer")
