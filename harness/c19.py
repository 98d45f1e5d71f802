"""random call trees over tracked functions, methods, globals and exceptions, against a plain record of what ran"""
import atexit, importlib, os, shutil, sys, tempfile, threading
from pathlib import Path
from base import *
from mandala.deps.tracers.dec_impl import DecTracer, TracerState
from mandala.deps.model import GlobalVarNode, CallableNode, TerminalNode, TerminalData
from mandala.utils import get_content_hash

FUNCS, GLOBALS = ["f0", "f1", "f2"], {"G0": 7, "G1": [1, 2], "G2": "text", "_g3": None}
METHODS = ["m0", "_m1", "sm", "cm"]


def source(mod, other):
    body = ["def go(s):", "    for a in s:", "        k = a[0]", "        if k == 'raise': raise KeyError(a[1])",
            "        elif k == 'try':", "            try: go(a[1])", "            except (KeyError, RuntimeError): seen.append('caught')", "            finally: go(a[2])"]
    body += [f"        elif k == 'g:{g}': {g}" for g in GLOBALS] + ["        elif k == 'g:BAD': BAD", "        elif k == 'lib': os.path.join('a', 'b')", "        elif k == 'ext': a[1]()"]
    body += [f"        elif k == 'c:{f}': {f}(a[1])" for f in FUNCS] + [f"        elif k == 'o:{f}': {other}.{f}(a[1])" for f in FUNCS]
    body += [f"        elif k == 'm:{m}': INST.{m}(a[1])" for m in METHODS]
    body += ["        elif k == 'gen':", "            for x in (G0 for _ in range(2)): pass", "        elif k == 'lam': (lambda: G2)()"]
    def fn(name, args, ind="", deco=("@track",)):
        out = [ind + d for d in deco] + [f"{ind}def {name}({args}):", f"{ind}    seen = []"] + [f"{ind}    {l}" for l in body] + [f"{ind}    go(s)", f"{ind}    return len(seen)"]
        return "\n".join(out) + "\n"
    src = "import os, threading\nfrom mandala.imports import *\nimport " + other + "\n" + "".join(f"{g} = {v!r}\n" for g, v in GLOBALS.items()) + "BAD = threading.Lock()\n"
    src += "".join(fn(f, "s") for f in FUNCS)
    src += "@track\nclass C:\n" + fn("m0", "self, s", "    ", ()) + fn("_m1", "self, s", "    ", ()) + fn("sm", "s", "    ", ("@staticmethod",)) + fn("cm", "cls, s", "    ", ("@classmethod",))
    return src + "INST = C()\n"


DIR = tempfile.mkdtemp(prefix="mandala_trace_")
atexit.register(shutil.rmtree, DIR, True)
MODS = ["c19_mod_a", "c19_mod_b"]
for a, b in (MODS, MODS[::-1]):
    Path(DIR, a + ".py").write_text(source(a, b))
sys.path.insert(0, DIR)
LOADED = {m: importlib.import_module(m) for m in MODS}


class Err(Exception):
    pass


class Record:
    """what a run of a script does, worked out without the tracer"""
    def __init__(self, track_globals=True, bad_ok=True):
        self.nodes, self.edges, self.roots, self.stack = set(), set(), set(), []
        self.tg, self.bad_ok, self.leaves = track_globals, bad_ok, set()

    def call(self, key, s):
        self.nodes.add(key)
        if self.stack: self.edges.add((self.stack[-1], key))
        else: self.roots.add(key)
        self.stack.append(key)
        try: self.go(s)
        finally: self.stack.pop()

    def read(self, g):
        if self.tg:
            if g == "BAD" and not self.bad_ok: raise Err
            n = (self.stack[-1][0], g)
            self.nodes.add(n); self.edges.add((self.stack[-1], n))

    def go(self, s):
        for a in s:
            k, mod = a[0], self.stack[-1][0]
            if k == "raise": raise Err
            elif k == "try":
                try: self.go(a[1])
                except Err: pass
                finally: self.go(a[2])
            elif k.startswith("g:"): self.read(k[2:])
            elif k.startswith("c:"): self.call((mod, k[2:]), a[1])
            elif k.startswith("o:"): self.call((MODS[1 - MODS.index(mod)], k[2:]), a[1])
            elif k.startswith("m:"): self.read("INST"); self.call((mod, "C." + k[2:]), a[1])
            elif k == "gen": self.read("G0")
            elif k == "lam": self.read("G2")
            elif k == "ext": a[2](self)


def script(rng, depth, leaf):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(["g", "g", "c", "c", "o", "m", "try", "raise", "gen", "lam", "lib", "bad", "ext"])
        sub = lambda: script(rng, depth - 1, leaf) if depth else []
        if k == "g": out.append(("g:" + rng.choice(list(GLOBALS)),))
        elif k == "bad": out += [("g:BAD",)] if rng.random() < .3 else []
        elif k in "co": out.append((f"{k}:" + rng.choice(FUNCS), sub()))
        elif k == "m": out.append(("m:" + rng.choice(METHODS), sub()))
        elif k == "try": out.append(("try", sub(), sub()))
        elif k == "raise": out += [("raise", 1)] if rng.random() < .4 else []
        elif k == "ext": out.append(leaf(rng, sub()))
        else: out.append((k,))
    return out


def show(s):
    return [a if not callable(a[-1]) else (a[0], "...") for a in s]


def values(tracer):
    return {k: n.content_hash for k, n in tracer.graph.nodes.items() if isinstance(n, GlobalVarNode)}


@scenario(quick=500, thorough=15000, weight=1)
def call_trees(rng, log):
    def leaf(rng, sub):
        kind = rng.choice(["suspended", "nested", "leaf", "reenter"])
        i = rng.randrange(3)
        mod, f = rng.choice(MODS), rng.choice(FUNCS)

        def act():
            t = DecTracer.get_active_trace_obj()
            if kind == "suspended" or kind == "nested":
                DecTracer.set_active_trace_obj(None)
                try:
                    if kind == "suspended":
                        getattr(LOADED[mod], f)(sub)
                    else:
                        with DecTracer(paths=[Path(DIR)], strict=False) as u:
                            getattr(LOADED[mod], f)(sub)
                            check(u.call_stack == [], "the call stack after a nested trace", "stack")
                except (KeyError, RuntimeError):
                    pass
                finally:
                    DecTracer.set_active_trace_obj(None); DecTracer.set_active_trace_obj(t)
            elif t is None:
                pass
            elif kind == "leaf":
                DecTracer.register_leaf_event(t, TerminalData("op", 0, f"c{i}", f"s{i}", dep_key=(mod, "anop")))
            else:
                try:
                    DecTracer.set_active_trace_obj(DecTracer(paths=[Path(DIR)]))
                    check(False, "a second tracer was activated", "reenter")
                except ValueError:
                    pass
                check(DecTracer.get_active_trace_obj() is t, "the active tracer", "reenter")

        def oracle(rec):
            if kind == "leaf":
                n = (mod, f"op_0_c{i}_s{i}")
                rec.nodes.add(n); rec.edges.add((rec.stack[-1], n)); rec.leaves.add(n)
        return ("ext", act, oracle)
    mod, f = rng.choice(MODS), rng.choice(FUNCS + ["INST.m0"])
    s = script(rng, 3, leaf)
    tg, bad_ok, strict = rng.random() < .8, rng.random() < .7, False
    log(mod, f, show(s), tg, bad_ok)
    rec = Record(tg, bad_ok)
    try: rec.call((mod, f.replace("INST", "C")), s); raised = False
    except Err: raised = True
    t = DecTracer(paths=[Path(DIR)], strict=strict, track_globals=tg, skip_unhashable_globals=bad_ok, skip_globals_silently=True)
    fn = LOADED[mod]
    for p in f.split("."): fn = getattr(fn, p)
    fn([x for x in s if x[0] != "ext"] if raised else []) if not raised else None      # outside any trace
    try:
        with t:
            try:
                fn(s)
                got = False
            except (KeyError, RuntimeError):
                got = True
            check(t.call_stack == [], f"the call stack afterwards: {[n.key for n in t.call_stack]}", "stack")
            if rng.random() < .3: raise ZeroDivisionError
    except ZeroDivisionError:
        pass
    check(DecTracer.get_active_trace_obj() is None, "a tracer is active after its block", "active")
    eq(got, raised, "whether the call raised", "raised")
    eq(set(t.graph.nodes), rec.nodes, "recorded dependencies", "nodes")
    eq(t.graph.edges, rec.edges, "recorded edges", "edges")
    eq(t.graph.roots, rec.roots, "roots", "roots")
    for k, n in t.graph.nodes.items():
        eq(n.key, k, "key of a node", "key")
        want = TerminalNode if k in rec.leaves else CallableNode if k[1] in FUNCS or "." in k[1] else GlobalVarNode
        check(type(n) is want, f"{k} is recorded as a {type(n).__name__}", "kind")
        if want is GlobalVarNode and k[1] in GLOBALS:
            eq(n.content_hash, get_content_hash(GLOBALS[k[1]]), f"content recorded for global {k}", "global")
    comp, nodes = t.graph.get_trace_state()
    check(comp == (mod, f.replace("INST", "C")) and nodes is t.graph.nodes, "get_trace_state", "state")
