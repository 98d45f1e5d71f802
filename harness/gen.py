"""Random op definitions (every parameter kind) and legal calls of them, with an independent account of what is called."""
import inspect, collections
from world import *
from mandala.model import op, Ignore, NewArgDefault, ValuePointer, _Ignore, _NewArgDefault, Op
from mandala.utils import get_content_hash


Pt = collections.namedtuple("Pt", "x y")


class Lst(list):
    pass


class Gen:
    """a generated function: `src` defines it, `calls` records what its body saw, `plain` is the undecorated twin"""
    def __init__(self, rng, log, values, name="f", star=True, hidden=True, nout=None, raising=False):
        self.rng, self.values, self.name = rng, values, name
        self.seen = []
        names = rng.sample(["a", "b", "x", "y", "data", "k1", "zeta"], rng.randrange(0, 5))
        self.params = []                     # (name, kind, default or None) ; default = (kind, value)
        kinds = sorted((rng.choice("PPOK") if rng.random() < .25 else rng.choice("OOOK") for _ in names), key="POK".index)
        seen_default = False
        for n, k in zip(names, kinds):
            d = None
            if k == "K" and rng.random() < .5 or k != "K" and (seen_default or rng.random() < .35):
                d = (rng.choice(["plain", "plain", "new", "ign"]) if hidden else "plain", rng.choice(values))
                seen_default = seen_default or k != "K"
            self.params.append((n, k, d))
        self.varargs = "args" if star and rng.random() < .4 else None
        self.kwargs = "kwargs" if star and rng.random() < .4 else None
        self.ignore = tuple(n for n, k, d in self.params if hidden and rng.random() < .12) or None
        self.nout = nout if nout is not None else rng.choice([1, 1, 1, 2, 3])
        env = {"SEEN": self.seen, "NewArgDefault": NewArgDefault, "Ignore": Ignore, "D": {}}
        sig, star_done = [], False
        pos = [p for p in self.params if p[1] == "P"]
        for i, (n, k, d) in enumerate(self.params):
            if k == "K" and not star_done:
                sig.append("*" + (self.varargs or ""))
                star_done = True
            if d is None:
                sig.append(n)
            else:
                env["D"][n] = d[1]
                sig.append(f"{n}=" + {"plain": f"D[{n!r}]", "new": f"NewArgDefault(D[{n!r}])", "ign": f"Ignore(D[{n!r}])"}[d[0]])
            if k == "P" and n == pos[-1][0]:
                sig.append("/")
        if self.varargs and not star_done:
            sig.append("*args")
        if self.kwargs:
            sig.append("**kwargs")
        allp = [n for n, _, _ in self.params] + (["args"] if self.varargs else []) + (["kwargs"] if self.kwargs else [])
        body = "{" + ", ".join(f"{n!r}: {n}" for n in allp) + "}"
        outs = "R(%s)" % body if self.nout == 1 else "(" + ", ".join(f"R({body}, {i})" for i in range(self.nout)) + ",)"
        env["R"] = lambda d, i=0: (self.name, i, repr(sorted(({**d, "kwargs": sorted(d["kwargs"].items(), key=lambda kv: kv[0])} if "kwargs" in d else d).items(), key=lambda kv: kv[0]))[:200])
        self.src = f"def {self.name}({', '.join(sig)}):\n    SEEN.append({body})\n    return {outs}\n"
        log(self.src.splitlines()[0], "ignore", self.ignore, "nout", self.nout, "defaults", env["D"])
        ns = {}
        exec(self.src, env, ns)
        self.fn = ns[self.name]
        self.op = op(ignore_args=self.ignore)(self.fn) if self.ignore else op(self.fn)

    def args(self, wrap=lambda v: v):
        """a legal call: (args, kwargs, what the body must see, what identifies the call)"""
        rng = self.rng
        args, kw, body, key = [], {}, {}, {}

        def draw():
            return rng.choice(self.values)

        def record(n, v, marked, slot=None):
            """marked: '', 'ign', 'newdef'"""
            if marked == "ign":
                return
            key[slot or n] = get_content_hash(v)
        by_kw = False
        for n, k, d in self.params:
            omit = d is not None and rng.random() < .4
            if omit:
                by_kw = True
                if k == "P":           # positional-only parameters after an omitted one must be omitted too
                    pass
                body[n] = d[1]
                if d[0] == "plain" and not (self.ignore and n in self.ignore):
                    key[n] = get_content_hash(d[1])
                continue
            if k == "P" and by_kw:
                body[n] = d[1]
                if d[0] == "plain" and not (self.ignore and n in self.ignore):
                    key[n] = get_content_hash(d[1])
                continue
            v = d[1] if d is not None and rng.random() < .4 else draw()
            mark = "ign" if rng.random() < .12 else ""
            sent = Ignore(v) if mark else wrap(v)
            body[n] = v
            hidden = mark or self.ignore and n in self.ignore or d is not None and d[0] == "new" and same(v, d[1])
            if not hidden:
                key[n] = get_content_hash(v)
            if k == "O" and not by_kw and rng.random() < .7 or k == "P":
                args.append(sent)
            else:
                kw[n] = sent
                if k == "O":
                    by_kw = True
        if self.varargs:
            body["args"] = ()
            if not by_kw and rng.random() < .7 and all(n not in kw for n, k, d in self.params if k == "O"):
                extra = []
                for i in range(rng.randrange(0, 3)):
                    v = draw()
                    ig = rng.random() < .15
                    args.append(Ignore(v) if ig else wrap(v))
                    extra.append(v)
                    if not ig:
                        key[f"args_{i}"] = get_content_hash(v)
                body["args"] = tuple(extra)
        if self.kwargs:
            body["kwargs"] = {}
            for n in rng.sample(["p", "q", "r_1"], rng.randrange(0, 3)):
                v = draw()
                ig = rng.random() < .15
                kw[n] = Ignore(v) if ig else wrap(v)
                body["kwargs"][n] = v
                if not ig:
                    key[n] = get_content_hash(v)
        kw = {n: kw[n] for n in rng.sample(list(kw), len(kw))}
        return tuple(args), kw, body, (self.name, tuple(sorted(key.items())))


def same(a, b):
    """a NewArgDefault parameter is hidden when it gets a value of the default's type equal to it"""
    return type(a) is type(b) and a == b


VALUES = [0, 1, 2, -3, 1.5, "", "s", "t t", None, (1, 2), (1, "2"), [1, 2], [], {"k": 1}, {"k": [1]}, b"x", True,
          Pt(1, 2), collections.OrderedDict(b=1, a=[2]), collections.defaultdict(list, {"q": [1]}), {1, 2}, frozenset([3]), Lst([1, Pt(2, 3)]), (Pt(0, 0), [Pt(1, [1])])]


def outs(res):
    return tuple(res) if isinstance(res, tuple) else (res,)
