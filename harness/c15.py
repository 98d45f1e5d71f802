"""random histories of one component, for source code and for global variables, against a plain record of what was committed"""
import builtins, copy, pickle
from base import *
from mandala.deps.shallow_versions import DAG
from mandala.utils import get_content_hash


def content(rng, kind):
    if kind == "code":
        return rng.choice(["", "x", "x\n", " x", "def f(x):\n    return x\n", "def f(x):\n    return x + 1\n", "é\u0000\t", "-- a\n++ b\n@@", "a" * 2000, rng.choice("abcdef"), str(rng.randrange(6))])
    v = rng.choice(["a", "b", "c", "d", str(rng.randrange(4)), ""])
    return (get_content_hash(v), rng.choice([repr(v), "..."]))


def address(kind, c):
    return get_content_hash(c) if kind == "code" else c[0]


def snapshot(d):
    return {k: (list(c.parents), copy.deepcopy(c.diffs), c.content_hash, c.semantic_hash, c._content) for k, c in d.commits.items()}


@scenario(quick=500, thorough=20000, weight=1)
def histories(rng, log):
    kind = rng.choice(["code", "global_variable"])
    d = DAG(content_type=kind)
    first = content(rng, kind)
    contents, semantic, head = {}, {}, None          # the record
    log("init", kind, repr(first)[:40])
    h = d.init(first)
    eq(h, address(kind, first), "the id of the first commit", "id")
    contents[h], semantic[h], head = first, h, h
    for _ in range(rng.randrange(1, 14)):
        op = rng.choice(["commit", "commit", "sync", "sync", "checkout", "pickle", "missing"])
        c = content(rng, kind)
        a = address(kind, c)
        sem, answer = rng.choice([(True, None), (False, None), (None, "y"), (None, "n"), (None, "a")])
        log(op, repr(c)[:40], sem, answer)
        before = snapshot(d)
        asked = []

        def fake(*args):
            asked.append(1)
            return "?!" if len(asked) == 1 and rng.random() < .2 else answer
        if op == "pickle":
            d = pickle.loads(pickle.dumps(d))
        elif op == "missing":
            for f in (d.checkout, d.get_content):
                try:
                    f("no such commit")
                    check(False, f"{f.__name__} of an unknown commit returned", "unknown commit")
                except ValueError:
                    pass
        elif op == "checkout":
            head = rng.choice(sorted(contents))
            d.checkout(head)
        else:
            new = a not in contents
            real, builtins.input = builtins.input, fake
            try:
                if op == "commit" and not new:
                    try:
                        d.commit(c, is_semantic_change=sem)
                        check(False, "committing content that is there already went through", "recommit")
                    except AssertionError:
                        pass
                else:
                    try:
                        got = getattr(d, op)(c, is_semantic_change=sem)
                        check(not (new and answer == "a"), "an aborted commit went through", "abort")
                        eq(got, a, f"{op} of {c!r}", "id")
                        if new:
                            contents[a], semantic[a] = c, (a if (sem if sem is not None else answer == "y") else semantic[head])
                            eq(list(d.commits[a].parents), [head], "parents of the new commit", "parents")
                        head = a
                    except ValueError:
                        check(new and answer == "a", f"{op} raised", "raised")
                if new and sem is None:
                    check(asked, "the user was not asked", "ask")
                if not new or sem is not None:
                    check(not asked, "the user was asked", "ask")
            finally:
                builtins.input = real
        eq(d.head, head, "head", "head")
        eq(set(d.commits), set(contents), "the commits", "commits")
        eq({k: c.semantic_hash for k, c in d.commits.items()}, semantic, "the semantic versions", "semantic")
        eq({k: c.content_hash for k, c in d.commits.items()}, {k: k for k in contents}, "content ids of the commits", "id")
        after = snapshot(d)
        eq({k: after.get(k) for k in before}, before, "the existing commits", "altered")
        for k in contents:
            eq(d.get_content(k), contents[k], f"content of commit {k}", "content")
        eq(d.get_current_content(), contents[head], "content of the head", "content")
        eq(d.get_presentable_content(head), contents[head] if kind == "code" else contents[head][1], "the text shown for the head", "shown")
        d.check_invariants()
        eq((d.size, d.semantic_size), (len(contents), len(set(semantic.values()))), "sizes", "sizes")
    d.show(plain=True); d.show(compact=True)
    eq(snapshot(d), after, "the commits after showing them", "altered")
