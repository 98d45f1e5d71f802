"""C15, C16: version histories of components."""
from pyver.core import *
import z3


def fn(reg, name, ty=ANY):
    reg.builtins[name] = lambda ip, st, args, kw, e: [(st, T(pure(name, [U] * len(args), U)(*[term(ip.content(st, a), U) for a in args]), ty))]


def install(reg):
    dags(reg)
    for n in ("rich.syntax.Syntax", "rich.panel.Panel", "rich.print"):
        reg.builtins[n] = lambda ip, st, args, kw, e: [(st, Opaque("shown"))]
    reg.trust("rich, difflib, print", "present a change to the user and do nothing else")


def dags(reg):
    P = ["C15"]
    reg.cls("Commit", kind="term", fields={"parents": "list[str]", "diffs": "list[any]", "content_hash": "str", "semantic_hash": "str", "_content": "any"})
    reg.cls("ContentAdapter", kind="term", fields={})
    for c in ("StringContentAdapter", "GlobalVariableContentAdapter"):
        reg.cls(c, kind="term", fields={}, bases=["ContentAdapter"])
    reg.cls("DAG", fields={"head": "any", "commits": "dict[str,obj[Commit]]", "_initial_commit": "any", "content_adapter": "obj[ContentAdapter]"})
    for n, t in (("ahash", STR), ("adiff", ANY), ("apatch", ANY), ("ashow", STR)):
        fn(reg, n, t)
    # what every content adapter promises (the two of the repository are checked against it below)
    C = {"self": "obj[ContentAdapter]"}
    reg.contract("ContentAdapter.get_diff", types={**C, "a": "any", "b": "any"}, returns="any", assumed=True, ensures=["result == adiff(self, a, b)", "apatch(self, b, result) == a"])
    reg.contract("ContentAdapter.apply_diff", types={**C, "b": "any", "diff": "any"}, returns="any", assumed=True, ensures=["result == apatch(self, b, diff)"])
    reg.contract("ContentAdapter.get_content_hash", types={**C, "content": "any"}, returns="str", assumed=True, ensures=["result == ahash(self, content)"])
    reg.contract("ContentAdapter.get_presentable_content", types={**C, "content": "any"}, returns="str", assumed=True)
    for c, t in (("StringContentAdapter", "str"), ("GlobalVariableContentAdapter", "tup[str,str]")):
        reg.lemma(f"lemma.{c}.round_trip", f"def f(x, a, b):\n    return x.apply_diff(b, x.get_diff(a, b))\n", types={"x": f"obj[{c}]", "a": t, "b": t}, returns=t, props=P, ensures=["result == a"])
        reg.lemma(f"lemma.{c}.hash", f"def f(x, a, b):\n    return x.get_content_hash(content=a) == x.get_content_hash(b)\n", types={"x": f"obj[{c}]", "a": t, "b": t}, returns="bool", props=P, ensures=["result == (a == b)" if t == "str" else "result == (a[0] == b[0])"])
    reg.spec('''
def dag_inv(s):
    """every commit is filed under its own content hash; parents and semantic versions are commits; so is the head"""
    return (forall('str', lambda c: implies(c in s.commits, s.commits[c].content_hash == c and s.commits[c].semantic_hash in s.commits and len(s.commits[c].parents) == len(s.commits[c].diffs)
            and (len(s.commits[c].parents) > 0 or s.commits[c]._content is not None)))
        and forall('str,int', lambda c, i: implies(c in s.commits and 0 <= i and i < len(s.commits[c].parents), s.commits[c].parents[i] in s.commits))
        and implies(s.head is not None, s.head in s.commits))
def contents_of(s, contents):
    """`contents` tells the content of every commit: what it was created with, and what the diffs lead to"""
    return forall('str', lambda c: implies(c in s.commits, c in contents and ahash(s.content_adapter, contents[c]) == c and contents[c] is not None
            and (contents[c] == s.commits[c]._content if s.commits[c]._content is not None else apatch(s.content_adapter, contents[s.commits[c].parents[0]], s.commits[c].diffs[0]) == contents[c])))
''')
    D = {"self": "cell[DAG]"}
    G = {"contents": "dict[str,any]"}
    INV = ["dag_inv(self)", "contents_of(self, contents)"]
    KEPT = "forall('str', lambda c: implies(c in old(self.commits), c in self.commits and self.commits[c] == old(self.commits[c])))"
    SAME = ["self.commits == old(self.commits)", "self.head == old(self.head)"]
    reg.contract("DAG.get_content", types={**D, "commit": "str", **G}, returns="any", props=P, requires=INV, raises={"ValueError": "commit not in self.commits"}, ensures=["result == contents[commit]"])
    reg.contract("DAG.checkout", types={**D, "commit": "str", "implicit_merge": "const[False]"}, props=P, requires=["dag_inv(self)"], raises={"ValueError": "commit not in self.commits"}, exsures=SAME, modifies=["self.head"],
                 ensures=["dag_inv(self)", "self.head == commit", SAME[0]])
    NEW = ["result == ahash(self.content_adapter, {0})", "self.head == result", "result in self.commits", "dag_inv(self)", KEPT, "forall('str', lambda c: implies(c in self.commits, c == result or c in old(self.commits)))"]
    reg.contract("DAG.init", types={**D, "initial_content": "any"}, returns="str", props=P, requires=["dag_inv(self)", "self.head is None", "len(self.commits) == 0", "initial_content is not None"], modifies=["self.head", "self.commits", "self._initial_commit"],
                 ensures=[x.format("initial_content") for x in NEW] + ["self.commits[result]._content == initial_content", "self.commits[result].semantic_hash == result", "self._initial_commit == result"])
    reg.contract("DAG.get_presentable_content", types={**D, "commit": "str", **G}, returns="str", props=P, requires=INV, raises={"ValueError": "commit not in self.commits"})
    reg.contract("ask_user", mod="mandala.utils", types={"question": "str", "valid_options": "list[str]"}, returns="str", assumed=True, ensures=["result in valid_options"])
    reg.contract("_get_colorized_diff", mod="mandala.viz", types={"current": "str", "new": "str", "colorize": "bool"}, returns="str", assumed=True)
    SEM = "implies(is_semantic_change is not None, self.commits[result].semantic_hash == (result if is_semantic_change else old(self.commits[self.head]).semantic_hash))"
    SEM2 = "self.commits[result].semantic_hash == result or self.commits[result].semantic_hash == old(self.commits[self.head]).semantic_hash"
    LINK = ["len(self.commits[result].parents) == 1 and self.commits[result].parents[0] == old(self.head)", "self.commits[result]._content is None",
            "apatch(self.content_adapter, contents[old(self.head)], self.commits[result].diffs[0]) == content"]
    CT = {**D, "content": "any", "is_semantic_change": "any", **G}
    CPRE = INV + ["self.head is not None", "content is not None", "is_semantic_change is None or isinstance(is_semantic_change, bool)"]
    reg.contract("DAG.commit", types=CT, returns="str", props=P, requires=CPRE, raises={"AssertionError": "ahash(self.content_adapter, content) in self.commits", "ValueError": None}, exsures=SAME, modifies=["self.head", "self.commits"],
                 ensures=[x.format("content") for x in NEW] + [SEM, SEM2, "ahash(self.content_adapter, content) not in old(self.commits)"] + LINK)
    FRESH = lambda x: f"implies(result not in old(self.commits), {x})"
    reg.contract("DAG.sync", types=CT, returns="str", props=P, requires=CPRE, raises={"ValueError": None}, exsures=SAME, modifies=["self.head", "self.commits"],
                 ensures=[x.format("content") for x in NEW] + ["implies(result in old(self.commits), self.commits == old(self.commits))"] + [FRESH(x) for x in [SEM, SEM2] + LINK])
    reg.lemma("lemma.commit_round_trip", """
def f(self, content, is_semantic_change, contents, after):
    h = self.commit(content, is_semantic_change)
    contents = after
    return self.get_content(h)
""", types={**CT, "after": "dict[str,any]"}, returns="any", props=P, requires=CPRE + ["forall('str', lambda c: implies(c in contents, c in after and implies(c != ahash(self.content_adapter, content), after[c] == contents[c])))",
                                                                 "ahash(self.content_adapter, content) in after and after[ahash(self.content_adapter, content)] == content"],
              modifies=["self.head", "self.commits"], raises={"AssertionError": None, "ValueError": None}, ensures=["result == content", "contents_of(self, after)"])
    reg.lemma("lemma.sync_idempotent", """
def f(self, content, is_semantic_change, contents, after):
    h = self.sync(content, is_semantic_change)
    contents = after
    return h, self.sync(content)
""", types={**CT, "after": "dict[str,any]"}, returns="tup[str,str]", props=P, requires=CPRE + ["forall('str', lambda c: implies(c in contents, c in after and implies(c != ahash(self.content_adapter, content) or c in self.commits, after[c] == contents[c])))",
                                                                 "implies(ahash(self.content_adapter, content) not in self.commits, ahash(self.content_adapter, content) in after and after[ahash(self.content_adapter, content)] == content)"],
              modifies=["self.head", "self.commits"], raises={"ValueError": None}, ensures=["result[0] == result[1]", "self.head == result[0]"])
