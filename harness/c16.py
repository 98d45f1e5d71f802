"""sessions over a small codebase that keeps changing: what is reused, what runs again, and what the versions record"""
import atexit, builtins, importlib, inspect, linecache, os, shutil, sys, tempfile, types
from pathlib import Path
from base import *
from mandala.imports import Storage
from mandala.model import Ref

MODS = ["c16_a", "c16_b"]
OPS = {"op0": "c16_a", "op1": "c16_a", "op2": "c16_b"}
FUNCS = [(m, f) for f in ("f0", "f1", "f2") for m in MODS]
GLOBALS = [(m, g) for m in MODS for g in ("G0", "G1")]
DIR = tempfile.mkdtemp(prefix="mandala_versions_")
atexit.register(shutil.rmtree, DIR, True)
sys.path.insert(0, DIR)
PROBE = types.ModuleType("c16_probe")
sys.modules["c16_probe"] = PROBE


class Boom(Exception):
    pass


PROBE.Boom = Boom


def branch(rng, comp):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.choice(["add", "g", "g", "f", "f", "f", "op", "raise"])
        if k == "add": out.append(("add", rng.randrange(1, 9)))
        elif k == "g": out.append(("g", (comp[0], rng.choice(["G0", "G1"]))))
        elif k == "raise": out += [("raise",)] if rng.random() < .15 else []
        elif k == "op": out += [("op", "op2", rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([1, 1, 2]))] if comp[1] in ("op0", "op1") else []
        else:
            lower = FUNCS if comp[1] in OPS else FUNCS[:FUNCS.index(comp)]
            out += [("f", rng.choice(lower))] if lower else []
    return out


def body(rng, comp):
    return dict(thr=rng.choice([0, 1, 2, 9]), hi=branch(rng, comp), lo=branch(rng, comp), comment=0)


def draw(rng, comp):
    return rng.randrange(50) if comp[1][0] == "G" else body(rng, comp)


def text(comp, b):
    mod, name = comp
    deco = "@op" if name in OPS else "@track"
    lines = [deco, f"def {name}(x):"]
    if b["comment"]: lines.append(f"    # note {b['comment']}")
    if name in OPS: lines.append(f"    c16_probe.ran.append('{name}')")
    def acts(l):
        out = ["        y = x"]
        for a in l:
            if a[0] == "add": out.append(f"        y = y + {a[1]}")
            elif a[0] == "g": out.append(f"        y = y * 3 + {a[1][1]}")
            elif a[0] == "raise": out.append("        raise c16_probe.Boom()")
            elif a[0] == "op": out.append(f"        y = y * 7 + c16_probe.value(c16_b.{a[1]}(x + {a[2]}))")
            else: out.append(f"        y = y * 5 + {'' if a[1][0] == mod else a[1][0] + '.'}{a[1][1]}(x)")
        return out
    return "\n".join(lines + [f"    if x < {b['thr']}:"] + acts(b["lo"]) + ["    else:"] + acts(b["hi"]) + ["    return y", ""])


def write(prog):
    for m in MODS:
        other = MODS[1 - MODS.index(m)]
        src = f"from mandala.imports import *\nimport c16_probe\nimport c16_a, c16_b\n"
        for c, b in prog.items():
            if c[0] == m and c[1][0] == "G": src += f"{c[1]} = {b}\n"
        for c, b in prog.items():
            if c[0] == m and c[1][0] != "G": src += "\n" + text(c, b)
        Path(DIR, m + ".py").write_text(src)
    linecache.clearcache()
    importlib.invalidate_caches()
    for m in MODS[::-1]:
        if m in sys.modules: importlib.reload(sys.modules[m])
        else: importlib.import_module(m)


def content(comp, b):
    return str(b) if comp[1][0] == "G" else text(comp, b)


class Oracle:
    """what is known and what may be reused, kept without the library"""
    def __init__(self):
        self.commits, self.head, self.calls, self.known = {}, {}, [], set()

    def unknown_content(self, prog):
        return [c for c in self.known if content(c, prog[c]) not in self.commits[c]]

    def sync(self, prog, semantic):
        for c in self.known:
            t = content(c, prog[c])
            if t not in self.commits[c]:
                self.commits[c][t] = object() if semantic else self.commits[c][self.head[c]]
            self.head[c] = t

    def cls(self, prog, c):
        return self.commits[c][content(c, prog[c])]

    def lookup(self, prog, op, x):
        for r in self.calls:
            if r["op"] == op and r["x"] == x and all(self.cls(prog, c) is k for c, k in r["sem"].items()):
                return r
        return None

    def call(self, prog, op, x, ran):
        """-> the record answering the call; raises what the op raises"""
        r = self.lookup(prog, op, x)
        if r is not None:
            return r
        ran.append(op)
        comp = (OPS[op], op)
        deps, nested = {comp}, []
        y = self.run(prog, comp, x, deps, nested, ran)
        for c in deps:
            if c not in self.known:
                self.known.add(c)
                self.commits[c] = {content(c, prog[c]): object()}
                self.head[c] = content(c, prog[c])
        r = dict(op=op, x=x, value=y, sem={c: self.cls(prog, c) for c in deps}, con={c: {content(c, prog[c])} for c in deps})
        for n in nested:
            for c in n["sem"]: r["sem"][c] = n["sem"][c]
            for c in n["con"]: r["con"].setdefault(c, set()).update(n["con"][c])
        self.calls.append(r)
        return r

    def run(self, prog, comp, x, deps, nested, ran):
        b, y = prog[comp], x
        for a in b["lo"] if x < b["thr"] else b["hi"]:
            if a[0] == "add": y = y + a[1]
            elif a[0] == "g": deps.add(a[1]); y = y * 3 + prog[a[1]]
            elif a[0] == "raise": raise Boom
            elif a[0] == "op":
                n = self.call(prog, a[1], x + a[2], ran)
                nested.append(n); y = y * 7 + n["value"]
            else:
                deps.add(a[1]); y = y * 5 + self.run(prog, a[1], x, deps, nested, ran)
        return y


def frozen(v, dags):
    return frozenset((c, frozenset(clean(dags[c].get_content(h)) for h in hs)) for c, hs in v.content_expansion.items())


def clean(c):
    return c[1] if isinstance(c, tuple) else c.strip()


def answered(ans, counter):
    def f(*a):
        counter.append(1)
        return ans
    return f


@scenario(quick=120, thorough=4000, weight=1)
def sessions(rng, log):
    comps = FUNCS + GLOBALS + [(m, o) for o, m in OPS.items()]
    prog = {c: draw(rng, c) for c in comps}
    past = [prog]
    orc = Oracle()
    with Scratch() as d:
        db = rng.choice([":memory:", os.path.join(d, "db.sqlite")])
        mk = lambda: Storage(db_path=db, deps_path=DIR)
        write(prog)
        st, real = mk(), builtins.input
        try:
            for i in range(rng.randrange(2, 7)):
                semantic = True
                if i:
                    k = rng.choice(["same", "change", "change", "change", "comment", "comment", "past", "swap"])
                    new = dict(prog)
                    if k == "change":
                        for c in rng.sample(comps, rng.choice([1, 1, 2, 4])):
                            new[c] = draw(rng, c)
                    elif k == "comment":
                        for c in rng.sample([c for c in comps if c[1][0] != "G"], rng.choice([1, 2, 5])):
                            new[c] = dict(new[c], comment=rng.randrange(4))
                        semantic = rng.random() < .2
                    elif k == "swap":
                        a, b = rng.sample(GLOBALS, 2)
                        new[a], new[b] = new[b], new[a]
                    elif k == "past":
                        new = rng.choice(past)
                    if not semantic and any(content(c, dict(new[c], comment=0) if c[1][0] != "G" else new[c]) != clean0(orc.head[c], c) for c in orc.known):
                        semantic = True          # only changes of comments are declared not to matter
                    write(new)
                    prog = new
                    past.append(prog)
                    log(f"session {i}: {k}", "breaking" if semantic else "not breaking", "changed: " + ",".join(".".join(c) for c in orc.unknown_content(prog)))
                    if db != ":memory:" and rng.random() < .5:
                        st = mk()
                    new_contents = orc.unknown_content(prog)
                    if new_contents and rng.random() < .2:
                        asked = []
                        at = rng.randrange(len(new_contents))
                        builtins.input = lambda *a: (asked.append(1), "y" if len(asked) <= at else "a")[1]
                        try:
                            with st:
                                check(False, "the context was entered although the user aborted", "abort")
                        except ValueError:
                            pass
                        finally:
                            builtins.input = real
                        log("aborted")
                        eq(len(asked), at + 1, "questions asked before aborting", "abort")
                else:
                    new_contents = []
                    log("program: " + " ".join(f"{c[0][-1]}.{c[1]}={b}" for c, b in prog.items()))
                asked = []
                builtins.input = answered("y" if semantic else "n", asked)
                PROBE.value = st.unwrap
                with st:
                    builtins.input = real
                    eq(len(asked), len(new_contents), "questions asked about changed components", "questions")
                    orc.sync(prog, semantic)
                    for _ in range(rng.randrange(1, 7)):
                        o, x = rng.choice(list(OPS)), rng.randrange(3)
                        log(f"{o}({x})")
                        PROBE.ran, want_ran = [], []
                        try: want = orc.call(prog, o, x, want_ran)["value"]
                        except Boom: want = Boom
                        try: got = getattr(sys.modules[OPS[o]], o)(x)
                        except Boom: got = Boom
                        eq(PROBE.ran, want_ran, f"ops that ran for {o}({x})", "ran")
                        if want is not Boom:
                            check(isinstance(got, Ref), "the call did not return a ref", "value")
                        eq(st.unwrap(got), want, f"value of {o}({x})", "value")
                versions(st, orc, prog)
        finally:
            builtins.input = real


def clean0(t, comp):
    return t if comp[1][0] == "G" else "\n".join(l for l in t.split("\n") if not l.strip().startswith("# note"))


def versions(st, orc, prog):
    """what is on record after the session"""
    v = st.get_versioner()
    dags = v.component_dags
    eq(set(dags), orc.known, "components on record", "components")
    for c, dag in dags.items():
        eq({clean(dag.get_content(h)) for h in dag.commits}, {t.strip() for t in orc.commits[c]}, f"contents on record for {c}", "contents")
        eq(clean(dag.get_content(dag.head)), orc.head[c].strip(), f"current content on record for {c}", "head")
    want = {}
    for r in orc.calls:
        want.setdefault((OPS[r["op"]], r["op"]), set()).add(frozenset((c, frozenset(t.strip() for t in ts)) for c, ts in r["con"].items()))
    got = {c: {frozen(x, dags) for x in vs.values()} for c, vs in v.versions.items() if vs}
    for c in set(want) | set(got):
        a, b = got.get(c, set()), want.get(c, set())
        check(a == b, lambda: f"versions of {c}: " + "; ".join(f"{'not recorded' if s is b else 'made up'}: {sorted(k[1] for k, _ in e)}" for s, o in ((b, a), (a, b)) for e in s - o), "versions")
    ids = {}
    for c, vs in v.versions.items():
        for k, x in vs.items():
            eq(k, x.content_version, "the key of a version", "version key")
            sem = frozenset((e, dags[e].commits[h].semantic_hash) for e, hs in x.content_expansion.items() for h in hs)
            eq(frozenset(x.semantic_expansion.items()), sem, "semantic expansion of a version", "semantic expansion")
            eq(ids.setdefault(x.semantic_version, sem), sem, "two sets of dependencies under one semantic version", "semantic id")
            eq(ids.setdefault(sem, x.semantic_version), x.semantic_version, "two semantic versions of the same dependencies", "semantic id")
            eq(ids.setdefault(("c", k), frozen(x, dags)), frozen(x, dags), "two sets of contents under one content version", "content id")


@scenario(quick=150, thorough=4000, weight=.1)
def dictionaries(rng, log):
    """the hash of a dictionary stands for what each key has, whatever the order"""
    from mandala.deps.utils import hash_dict
    keys = [(m, f) for m in "ab" for f in "fg"]
    vals = [rng.choice("xyz") for _ in range(3)]
    a, b = ({k: rng.choice(vals) for k in rng.sample(keys, rng.randrange(5))} for _ in range(2))
    if rng.random() < .5: b = dict(zip(a, rng.sample(list(a.values()), len(a))))
    log(a, b)
    items = rng.sample(list(a.items()), len(a))
    eq(hash_dict(dict(items)), hash_dict(a), "hash of the same dictionary in another order", "dict hash")
    eq(hash_dict(a) == hash_dict(b), a == b, f"hashes of {a} and {b} equal", "dict hash")


@scenario(quick=150, thorough=4000, weight=.15)
def expansions(rng, log):
    """versions pointing at versions: what a synced version lists, and that one meaning per component is enforced"""
    from mandala.deps.deep_versions import Version
    from mandala.deps.shallow_versions import DAG
    comps = [("m", c) for c in "abcde"[:rng.randrange(2, 6)]]
    dags, commits = {}, {}
    for c in comps:
        dags[c] = DAG(content_type="code")
        commits[c] = [dags[c].init(f"{c} 0")]
        for i in range(rng.randrange(3)):
            commits[c].append(dags[c].commit(f"{c} {i + 1}", is_semantic_change=rng.random() < .5))
    store, made = {}, []
    for i in range(rng.randrange(1, 7)):
        comp = rng.choice(comps)
        direct = {c: rng.choice(commits[c]) for c in rng.sample(comps, rng.randrange(1, len(comps) + 1))}
        memos = {}
        for o in rng.sample(made, min(len(made), rng.randrange(3))):
            memos.setdefault(o.component, set()).add(o.content_version)
        kept = [store[c][m] for c, ms in memos.items() for m in ms]
        v = Version(comp, dict(direct), {c: set(ms) for c, ms in memos.items()})
        log(f"{comp[1]}: {direct} -> {[made.index(o) for o in kept]}")
        sem = {(c, dags[c].commits[h].semantic_hash) for c, h in direct.items()} | {p for o in kept for p in o.sem}
        con = {(c, h) for c, h in direct.items()} | {p for o in kept for p in o.con}
        clash = len({c for c, _ in sem}) < len(sem)
        try:
            v.sync(component_dags=dags, all_versions=store)
        except ValueError:
            check(clash, "a version was refused although every dependency has one meaning", "conflict")
            continue
        check(not clash, f"two meanings of one dependency were accepted: {sorted(sem)}", "conflict")
        eq(set(v.semantic_expansion.items()), sem, "semantic expansion", "semantic expansion")
        eq({(c, h) for c, hs in v.content_expansion.items() for h in hs}, con, "content expansion", "content expansion")
        eq(v.direct_deps_commits, direct, "direct dependencies", "direct")
        eq(v.memoized_deps_content_versions, memos, "versions pointed to", "pointers")
        v.sem, v.con = sem, con
        for o in made:
            eq(o.content_version == v.content_version, o.con == v.con, "content versions equal", "content id")
            eq(o.semantic_version == v.semantic_version, o.sem == v.sem, "semantic versions equal", "semantic id")
            eq(({(c, h) for c, hs in o.content_expansion.items() for h in hs}, set(o.semantic_expansion.items())), (o.con, o.sem), "an older version", "older")
        if v.content_version not in store.setdefault(comp, {}):
            store[comp][v.content_version] = v
            made.append(v)
