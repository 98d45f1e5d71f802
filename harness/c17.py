"""random nestings of run and noop contexts of one or two storages, left normally or by exceptions, with calls allowed or forbidden"""
import os
from base import *
from world import *
from mandala.storage import Storage, noop
from mandala.model import op, Context


class Boom(Exception):
    pass


@scenario(quick=300, thorough=6000, weight=1.5)
def nesting(rng, log):
    Context.current_context = None
    st = Storage()
    runs = []
    @op
    def f(x):
        runs.append(x)
        return x + 1
    done = set()
    left = [rng.randrange(2, 12)]

    def call(stack):
        x = rng.randrange(3)
        mode = stack[-1] if stack else None
        n = len(runs)
        log(f"f({x})")
        r = Raises(f, x)
        if mode == "run":
            if x in done:
                want = 0
            elif not st._allow_new_calls:
                check(isinstance(r.exc, RuntimeError), f"a new call while new calls are forbidden gave {r.value} / {r.exc!r}", "forbidden")
                eq(len(runs) - n, 0, "executions of a forbidden call", "forbidden")
                return
            else:
                want = 1
                done.add(x)
            check(r.exc is None and isinstance(r.value, Ref), f"run mode gave {r.value!r} / {r.exc!r}", "run")
            eq(len(runs) - n, want, f"executions of f({x}) in run mode", "run")
            eq(st.unwrap(r.value), x + 1, "value", "run")
        else:
            check(r.exc is None and type(r.value) is int and r.value == x + 1, f"{mode} gave {r.value!r} / {r.exc!r}", "plain")
            eq(len(runs) - n, 1, f"executions of f({x}) outside memoization ({mode})", "plain")
            eq(set(st.calls.cache.call_hids) | hids(st), known(st, f, done), "calls stored", "plain")

    def state(stack):
        eq(Context.current_context is not None, bool(stack), "a context is current", "restore")
        if stack:
            check(Context.current_context.storage is st, "the current storage changed", "restore")
        eq(st.mode, stack[-1] if stack else "run", "mode", "restore")
        eq(st.in_context(), bool(stack), "in_context", "restore")

    def block(stack, depth):
        for _ in range(rng.randrange(0, 4)):
            if left[0] <= 0:
                return
            left[0] -= 1
            k = rng.random()
            if k < .4 or depth > 3:
                call(stack)
            elif k < .5:
                a = rng.random() < .5
                log("allow" if a else "forbid"); st.allow_new_calls(a)
            elif k < .58 and stack:
                log("raise"); raise Boom()
            else:
                how = rng.choice(["run", "noop", "noop()", "default"]) if stack else rng.choice(["run", "noop", "default"])
                mode = {"noop()": "noop", "default": stack[-1] if stack else "run"}.get(how, how)
                log("with", how, "{")
                before = list(stack)
                try:
                    with {"run": lambda: st("run"), "noop": lambda: st("noop"), "noop()": lambda: noop(), "default": lambda: st}[how]() as got:
                        check(got is st, f"entering gave {got!r}", "enter")
                        state(stack + [mode])
                        block(stack + [mode], depth + 1)
                        state(stack + [mode])
                except Boom:
                    log("} boom")
                    state(before)
                    if stack and rng.random() < .5:
                        raise
                else:
                    log("}")
                state(before)
                if not stack:
                    eq(set(hids(st)), known(st, f, done), "calls persisted at the end of the outermost context", "commit")
    try:
        block([], 0)
        state([])
        call([])
    finally:
        Context.current_context = None


def hids(st):
    df = st.call_storage.get_df().reset_index()
    return set(df["call_history_id"])


def known(st, f, done):
    return {f.get_call_history_id({"x": wrap_atom(x)}) for x in done}


@scenario(quick=60, thorough=800)
def noop_outside(rng, log):
    """noop() without a context does nothing; an op outside any context is the plain function"""
    Context.current_context = None
    seen = []
    @op
    def f(*args, **kw):
        seen.append((args, kw)); return args, kw
    a, k = tuple(rng.randrange(5) for _ in range(rng.randrange(3))), {n: rng.randrange(5) for n in rng.sample("abc", rng.randrange(3))}
    log(a, k)
    with noop() as g:
        eq(g, None, "noop() outside a context", "noop")
        eq(f(*a, **k), (a, k), "plain call", "plain")
    eq(Context.current_context, None, "context after noop()", "noop")
    eq(f(*a, **k), (a, k), "plain call", "plain")
    eq(len(seen), 2, "executions", "plain")


@scenario(quick=60, thorough=800)
def bodies(rng, log):
    """ops called inside op bodies, with and without noop(); a failing body leaves the context usable"""
    Context.current_context = None
    st = Storage()
    runs = []
    fail = rng.random() < .4
    style = rng.choice(["noop()", "noop", "run"])
    @op
    def inner(x):
        runs.append(("inner", x)); return x + 1
    @op
    def outer(x):
        runs.append(("outer", x))
        if style == "noop()":
            with noop():
                r = inner(x)
                check(r == x + 1 and type(r) is int, f"inner call in noop() gave {r!r}", "body")
        elif style == "noop":
            with st("noop"):
                r = inner(x)
                check(type(r) is int, f"inner call in noop gave {r!r}", "body")
        else:
            r = inner(x)
            check(isinstance(r, Ref), f"inner call in run mode gave {r!r}", "body")
            r = st.unwrap(r)
        eq(st.mode, "run", "mode after the inner block", "body")
        if fail: raise Boom()
        return r * 2
    log(style, fail)
    with st:
        r = Raises(outer, 3)
        eq((st.mode, Context.current_context is not None), ("run", True), "context after the body", "body")
        check(isinstance(r.exc, Boom) if fail else st.unwrap(r.value) == 8, f"outer gave {r.value} / {r.exc!r}", "body")
        n = len(runs)
        i = inner(3)
        eq(len(runs) - n, 0 if style == "run" else 1, "executions of inner(3) afterwards", "body")
    eq(Context.current_context, None, "context after leaving", "restore")
    check(type(inner(5)) is int, "plain call after leaving", "plain")


@scenario(quick=60, thorough=600)
def failing_commit(rng, log):
    """leaving the outermost context restores mode and current storage even when the commit fails"""
    Context.current_context = None
    st = Storage()
    @op
    def f(x): return x
    orig = st.commit
    def bad(*a, **k): raise Boom("commit")
    depth = rng.randrange(1, 4)
    modes = [rng.choice(["run", "noop"]) for _ in range(depth)]
    exc = rng.random() < .4
    log(modes, exc)
    def go(i):
        if i == depth:
            f(1); st.commit = bad
            if exc: raise ValueError("body")
            return
        with st(modes[i]):
            go(i + 1)
            eq(st.mode, modes[i], "mode", "restore")
    r = Raises(go, 0)
    check(isinstance(r.exc, Boom), f"a failing commit surfaced as {r.exc!r}", "commit")
    eq((Context.current_context, st.mode, st._mode_stack), (None, "run", []), "context after a failed commit", "restore")
    st.commit = orig
    with st:
        eq(st.mode, "run", "mode of the next context", "restore")
        check(isinstance(f(2), Ref), "the next context does not memoize", "restore")
    eq(Context.current_context, None, "context after leaving", "restore")


@scenario(quick=20, thorough=200)
def two_storages(rng, log):
    """leaving a nested context of another storage makes the outer one current again"""
    Context.current_context = None
    a, b = Storage(), Storage()
    @op
    def f(x): return x
    log("a{ b{ } }")
    try:
        with a:
            f(1)
            with b:
                check(Context.current_context.storage is b, "inner storage not current", "two_storages")
                f(2)
            check(Context.current_context is not None and Context.current_context.storage is a, "after leaving the inner storage's context the outer storage is not current", "two_storages")
            check(isinstance(f(3), Ref), "the outer context does not memoize", "two_storages")
    finally:
        Context.current_context = None


@scenario(quick=20, thorough=200)
def failing_enter(rng, log):
    """a context that cannot be entered (the code sync fails) changes nothing"""
    Context.current_context = None
    st = Storage(deps_path="__main__")
    outer = rng.random() < .5
    log(outer)
    orig = st.sync_code
    def bad(*a, **k): raise Boom("sync")
    def enter():
        with st: pass
    def go():
        st.sync_code = bad
        before = (Context.current_context, st.mode, list(st._mode_stack))
        r = Raises(enter)
        check(isinstance(r.exc, Boom), f"entering gave {r.exc!r}", "enter")
        eq((Context.current_context, st.mode, list(st._mode_stack)), before, "context after a failed enter", "restore")
        st.sync_code = orig
    try:
        if outer:
            with Storage():
                go()
        else:
            go()
        with st:
            check(Context.current_context.storage is st, "entering afterwards", "restore")
        eq(Context.current_context, None, "context after leaving", "restore")
    finally:
        Context.current_context = None
