"""Mechanical extraction of the code under verification: every run parses the current
/repo sources; nothing is cached and nothing is rewritten."""
from __future__ import annotations
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.names = {}       # local top-level defs: name -> ('func'|'class'|'assign', node)
        self.imports = {}     # name -> (module, attr|None)
        self.stars = []


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        base = os.path.join(self.root, "mandala")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__", "tests"))
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    m = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    pkg = m.endswith(".__init__")
                    if pkg:
                        m = m[: -len(".__init__")]
                    try:
                        mod = Module(m, p)
                    except SyntaxError:
                        continue
                    mod.pkg = pkg
                    self.mods[m] = mod
        for m in self.mods.values():
            self._scan(m, m.tree.body)
        self.classes = {}
        # classes are known by their names; the drawing classes of viz.py give way
        for m in sorted(self.mods.values(), key=lambda m: m.name.endswith("viz")):
            for n, (k, node) in m.names.items():
                if k == "class":
                    self.classes.setdefault(n, (m, node))

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.names[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                m.names[s.name] = ("class", s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("assign", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.names[s.target.id] = ("assign", s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                target = self._resolve(m, s.level, s.module)
                for a in s.names:
                    if a.name == "*":
                        m.stars.append(target)
                    else:
                        m.imports[a.asname or a.name] = (target, a.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(m, s.body)
                for x in getattr(s, "orelse", []):
                    self._scan(m, [x])

    def _resolve(self, m, level, module):
        if level == 0:
            return module
        parts = m.name.split(".")
        if not m.pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))

    def lookup(self, modname, name, seen=None):
        """-> ('func'|'class'|'assign', module, node) | ('ext', modname, attr) | ('mod', name) | None"""
        seen = seen or set()
        if (modname, name) in seen or modname not in self.mods:
            return None
        seen.add((modname, name))
        m = self.mods[modname]
        if name in m.names:
            k, node = m.names[name]
            return (k, m, node)
        if name in m.imports:
            t, a = m.imports[name]
            if a is None:
                return ("mod", t)
            if t in self.mods:
                r = self.lookup(t, a, seen)
                if r:
                    return r
                if f"{t}.{a}" in self.mods:
                    return ("mod", f"{t}.{a}")
                return ("ext", t, a)
            if t and f"{t}.{a}" in self.mods:
                return ("mod", f"{t}.{a}")
            return ("ext", t, a)
        for s in m.stars:
            if s in self.mods:
                r = self.lookup(s, name, seen)
                if r:
                    return r
        return None

    # ---- classes
    def bases(self, cls):
        if cls not in self.classes:
            return []
        out = []
        for b in self.classes[cls][1].bases:
            if isinstance(b, ast.Name):
                out.append(b.id)
            elif isinstance(b, ast.Attribute):
                out.append(b.attr)
            elif isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name):
                out.append(b.value.id)
        return out

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo += self.bases(c)
        return out

    def subclasses(self, cls):
        return [c for c in self.classes if cls in self.mro(c)] or [cls]

    def method(self, cls, name):
        """-> (class, module, node, kind) where kind in 'method','static','class','property','assign'"""
        for c in self.mro(cls):
            if c not in self.classes:
                continue
            m, node = self.classes[c]
            for s in node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    kind = "method"
                    for d in s.decorator_list:
                        dn = d.id if isinstance(d, ast.Name) else getattr(d, "attr", None)
                        if dn == "property":
                            kind = "property"
                        elif dn == "staticmethod":
                            kind = "static"
                        elif dn == "classmethod":
                            kind = "class"
                    return (c, m, s, kind)
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return (c, m, s.value, "assign")
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    return (c, m, s.value, "assign")
        return None

    def find(self, qual):
        """'Class.method' or 'module_tail:func' or 'func' -> (module, node, cls|None)"""
        if ":" in qual:
            mod, q = qual.split(":")
            cands = [m for m in self.mods if m == mod or m.endswith("." + mod)]
        else:
            cands, q = list(self.mods), qual
        if "." in q:
            c, f = q.split(".", 1)
            for m in cands:
                k = self.mods[m].names.get(c)
                if k and k[0] == "class":
                    r = self.method(c, f)
                    if r and r[3] != "assign":
                        return (r[1], r[2], r[0])
                if k and k[0] == "func":        # a function nested in another
                    import ast
                    for x in ast.walk(k[1]):
                        if isinstance(x, ast.FunctionDef) and x is not k[1] and x.name == f:
                            return (self.mods[m], x, None)
            return None
        for m in cands:
            k = self.mods[m].names.get(q)
            if k and k[0] == "func":
                return (self.mods[m], k[1], None)
        return None

    @staticmethod
    def digest(node):
        n = ast.dump(node)
        return hashlib.sha1(n.encode()).hexdigest()[:12]
