"""C16: which recorded versions may be reused, and what a version records."""
from pyver.core import *
import z3


def install(reg):
    P = ["C16"]
    K = "tup[str,str]"
    reg.lemma("lemma.hash_dict", "def f(a, b):\n    return hash_dict(a) == hash_dict(b)\n", types={"a": f"dict[{K},str]", "b": f"dict[{K},str]"}, returns="bool", props=P, mod="mandala.deps.versioner",
              ensures=[f"result == (forall('{K}', lambda k: (k in a) == (k in b)) and forall('{K}', lambda k: implies(k in a, a[k] == b[k])))"])
    layouts(reg, K)
    table(reg)
    reading(reg, P, K)


COLS = {"pre_call_uid": 0, "semantic_version": 1, "content_version": 2}


def layouts(reg, K):
    reg.cls("Version", kind="term", fields={"component": K, "direct_deps_commits": f"dict[{K},str]", "memoized_deps_content_versions": f"dict[{K},set[str]]", "_is_synced": "bool",
                                            "_content_expansion": f"dict[{K},set[str]]", "_content_version": "str", "_semantic_expansion": f"dict[{K},str]", "_semantic_version": "str"})
    reg.cls("CodeState", fields={"nodes": f"dict[{K},obj[Node]]"})
    reg.cls("CallTable", fields={"rows": "list[tup[str,str,str]]"})
    reg.cls("ComponentDAG", kind="term", fields={"commits": "dict[str,obj[Commit]]"})
    reg.cls("Versioner", fields={"global_topology": "cell[DependencyGraph]", "nodes": f"dict[{K},obj[Node]]", "component_dags": f"dict[{K},obj[ComponentDAG]]", "versions": f"dict[{K},dict[str,obj[Version]]]", "df": "cell[CallTable]", "strict": "bool"})


def table(reg):
    """the frame of recorded calls: rows in order; a mask by equality keeps the rows it picks, in order"""
    om, og = reg.opaque_methods, reg.opaque_getattr

    def rows(ip, st, p):
        return ip.deref(st, ip.deref(st, p).fields["rows"])

    def cell_item(ip, st, args, kw, e):
        p, k = args
        l = rows(ip, st, p)
        if isinstance(k, str) and k in COLS:
            return [(st, Opaque("vcol", rows=l, col=COLS[k]))]
        if isinstance(k, Opaque) and k.kind == "vmask":
            return [(st, Opaque("vview", rows=picked(ip, st, l, k)))]
        raise Unsup("frame subscript")
    reg.models["CallTable.__getitem__"] = cell_item

    def view_item(ip, st, o, args, kw, e):
        k = args[0]
        if isinstance(k, str) and k in COLS:
            return [(st, Opaque("vcol", rows=o.rows, col=COLS[k]))]
        if isinstance(k, Opaque) and k.kind == "vmask":
            return [(st, Opaque("vview", rows=picked(ip, st, o.rows, k)))]
        raise Unsup("frame subscript")
    om[("vview", "__getitem__")] = view_item
    om[("vcol", "__eq__")] = lambda ip, st, o, args, kw, e: [(st, Opaque("vmask", rows=o.rows, col=o.col, val=args[0]))]
    om[("vview", "__len__")] = lambda ip, st, o, args, kw, e: [(st, T(o.rows.ln, INT))]
    og[("vcol", "values")] = lambda ip, st, o: [(st, o)]
    om[("vcol", "tolist")] = lambda ip, st, o, args, kw, e: [(st, ip.box(st, ListV(o.rows.ln, lambda j: o.rows.at(j).items[o.col], STR)))]

    def picked(ip, st, l, mask):
        if mask.rows is not l:
            raise Unsup("mask of another frame")
        f = ip.fresh(ListT(INT), "picked", st)
        i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        at = lambda x: term(f.at(T(x, INT)), I)
        hit = lambda x: eqf(l.at(T(x, INT)).items[mask.col], coerce(mask.val, STR))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < f.ln), z3.And(0 <= at(i), at(i) < l.ln, hit(at(i))))))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < f.ln), at(i) < at(j))))
        ix = z3.Function(f"pick!{next(core_ctr())}", I, I)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.ln, hit(i)), z3.And(0 <= ix(i), ix(i) < f.ln, at(ix(i)) == i))))
        return ListV(f.ln, lambda x: l.at(f.at(x)), l.ety)
    reg.trust("pandas rows", "df[df[c] == v] keeps exactly the rows with v in column c, in order; df[c].values.tolist() lists column c")


def core_ctr():
    from pyver import core
    return core._ctr


def reading(reg, P, K):
    reg.contract("Node.content_hash", types={"self": "obj[Node]"}, returns="str", assumed=True, ensures=["result == nhash(self)"])
    from contracts.versioning import fn
    fn(reg, "nhash", STR)
    reg.spec(f'''
def topo_known(v):
    """every component met in a trace has a DAG"""
    return forall('{K}', lambda k: implies(k in v.global_topology.nodes, k in v.component_dags))
def current(v, cs, k):
    """k is tracked and its current content has a commit"""
    return nhash(cs.nodes[k]) in v.component_dags[k].commits
def cur_sem(v, cs, k):
    return v.component_dags[k].commits[nhash(cs.nodes[k])].semantic_hash
''')
    V = {"self": "cell[Versioner]", "code_state": "cell[CodeState]"}
    DONE = "done({0}) and {0} in self.global_topology.nodes"
    LOOP = [f"forall('{K}', lambda k: (k in result) == (done(k) and k in self.global_topology.nodes))", f"forall('{K}', lambda k: implies(k in result, current(self, code_state, k) and result[k] == cur_sem(self, code_state, k)))"]
    reg.contract("Versioner.get_codestate_semantic_hashes", types=V, props=P, requires=["topo_known(self)"], raises={"ValueError": f"exists('{K}', lambda k: k in self.global_topology.nodes and k not in code_state.nodes)"}, loops=LOOP,
                 ensures=[f"(result is None) == exists('{K}', lambda k: k in self.global_topology.nodes and not current(self, code_state, k))",
                          f"result is None or forall('{K}', lambda k: (k in result) == (k in self.global_topology.nodes))",
                          f"result is None or forall('{K}', lambda k: implies(k in result, result[k] == cur_sem(self, code_state, k)))"])
    # hash_dict: what lemma.hash_dict proves of the real function, in terms of the dictionary a hash stands for
    reg.builtins["hdom"] = lambda ip, st, args, kw, e: [(st, T(pure("hash_dict_dom", [U, U, U], B)(*[term(a, U) for a in args]), BOOL))]
    fn(reg, "hat", STR)
    reg.builtins["is_hd"] = lambda ip, st, args, kw, e: [(st, T(pure("is_hash_dict", [U], B)(term(args[0], U)), BOOL))]
    reg.spec(f'''
def stands(h, d):
    """h is the hash of d"""
    return is_hd(h) and forall('str,str', lambda a, b: hdom(h, a, b) == ((a, b) in d)) and forall('str,str', lambda a, b: implies((a, b) in d, hat(h, a, b) == d[(a, b)]))
def version_ok(v, x):
    """the ids of a stored version are those of its dependencies, all of which are known"""
    return (stands(x._semantic_version, x._semantic_expansion) and forall('{K}', lambda k: (k in x._semantic_expansion) == (k in x._content_expansion)) and forall('{K}', lambda k: implies(k in x._semantic_expansion, k in v.global_topology.nodes)))
def table_ok(v, component, uid):
    """every call recorded under uid belongs to a stored version of the component, and carries its semantic id"""
    return component in v.versions and forall('int', lambda i: implies(0 <= i and i < len(v.df.rows) and v.df.rows[i][0] == uid,
        v.df.rows[i][2] in v.versions[component] and version_ok(v, v.versions[component][v.df.rows[i][2]]) and v.versions[component][v.df.rows[i][2]]._semantic_version == v.df.rows[i][1]))
def unchanged(v, cs, x):
    """every dependency of version x has a current content equal in meaning to the recorded one"""
    return forall('{K}', lambda k: implies(k in x._semantic_expansion, current(v, cs, k) and cur_sem(v, cs, k) == x._semantic_expansion[k]))
''')
    reg.contract("hash_dict", mod="mandala.deps.utils", types={"d": f"dict[{K},str]"}, returns="str", assumed=True,
                 ensures=["stands(result, d)", "forall('str', lambda h: implies(is_hd(h) and forall('str,str', lambda a, b: hdom(h, a, b) == ((a, b) in d) and implies((a, b) in d, hat(h, a, b) == d[(a, b)])), h == result))"])
    reg.trust("hash_dict", "as lemma.hash_dict proves: the hash stands for exactly one dictionary")
    reg.contract("Versioner.get_semantic_version", types={"self": "cell[Versioner]", "semantic_hashes": f"dict[{K},str]", "support": f"set[{K}]"}, returns="str", props=P, raises={"KeyError": f"exists('{K}', lambda k: k in support and k not in semantic_hashes)"},
                 ensures=["is_hd(result)", "forall('str,str', lambda a, b: hdom(result, a, b) == ((a, b) in support))", "forall('str,str', lambda a, b: implies((a, b) in support, hat(result, a, b) == semantic_hashes[(a, b)]))",
                          "forall('str', lambda h: implies(is_hd(h) and forall('str,str', lambda a, b: hdom(h, a, b) == ((a, b) in support) and implies((a, b) in support, hat(h, a, b) == semantic_hashes[(a, b)])), h == result))"])
    reg.contract("Versioner.lookup_call", types={**V, "component": K, "pre_call_uid": "str"}, props=P, inline=["Versioner.get_codestate_semantic_hashes"], requires=["topo_known(self)", "table_ok(self, component, pre_call_uid)"],
                 raises={"ValueError": f"exists('{K}', lambda k: k in self.global_topology.nodes and k not in code_state.nodes)"},
                 loops=["forall('int', lambda i: implies(0 <= i and i < len(content_versions) and done(i), not unchanged(self, code_state, self.versions[component][content_versions[i]])))"] + LOOP,
                 ensures=["result is None or result[0] in self.versions[component] and unchanged(self, code_state, self.versions[component][result[0]]) and result[1] == self.versions[component][result[0]]._semantic_version",
                          "result is None or exists('int', lambda i: 0 <= i and i < len(self.df.rows) and self.df.rows[i][0] == pre_call_uid and self.df.rows[i][2] == result[0])",
                          f"result is not None or exists('{K}', lambda k: k in self.global_topology.nodes and not current(self, code_state, k)) or forall('int', lambda i: implies(0 <= i and i < len(self.df.rows) and self.df.rows[i][0] == pre_call_uid, not unchanged(self, code_state, self.versions[component][self.df.rows[i][2]])))"])
    recording(reg, P, K)


def recording(reg, P, K):
    """what a version records of a trace"""
    reg.spec(f'''
def is_direct(n):
    return isinstance(n, CallableNode) or isinstance(n, GlobalVarNode)
def points_to(n, k, c):
    """node n stands for a memoized call of component k under content version c"""
    return isinstance(n, TerminalNode) and not is_direct(n) and n.representation.dep_key == k and n.representation.call_content_version == c
def in_expansion(x, k, c):
    return k in x._content_expansion and c in x._content_expansion[k]
def memo(x, d, m):
    return d in x.memoized_deps_content_versions and m in x.memoized_deps_content_versions[d]
''')
    CC = f"forall('{K}', lambda k: implies({{0}}k in nodes, is_direct(nodes[k]) or isinstance(nodes[k], TerminalNode)))"
    DIR = f"forall('{K}', lambda k: (k in {{d}}) == ({{g}}k in nodes and is_direct(nodes[k])))"
    DIRV = f"forall('{K}', lambda k: implies(k in {{d}}, {{d}}[k] == nhash(nodes[k])))"
    MEM = f"forall('{K},str', lambda d, m: (d in {{m}} and m in {{m}}[d]) == exists('{K}', lambda k: {{g}}k in nodes and points_to(nodes[k], d, m)))"
    L, R = dict(d="dynamic_deps_commits", m="memoized_deps_content_versions", g="done(k) and "), dict(d="result.direct_deps_commits", m="result.memoized_deps_content_versions", g="")
    reg.contract("Version.from_trace", types={"component": K, "nodes": f"dict[{K},obj[Node]]", "strict": "bool"}, returns="obj[Version]", props=P, raises={"ValueError": "not " + CC.format("")},
                 loops=[CC.format("done(k) and ")] + [x.format(**L) for x in (DIR, DIRV, MEM)], ensures=["result.component == component", "not result._is_synced"] + [x.format(**R) for x in (DIR, DIRV, MEM)])
    AV = f"dict[{K},dict[str,obj[Version]]]"
    reg.spec(f'''
def known_memos(x, av):
    """the memoized calls a version points to are stored"""
    return forall('{K},str', lambda d, m: implies(memo(x, d, m), d in av and m in av[d]))
def lists(x, av, k):
    """component k is a dependency"""
    return k in x.direct_deps_commits or exists('{K},str', lambda d, m: memo(x, d, m) and k in av[d][m]._content_expansion)
def expands(x, av, k, c):
    """content c of component k is a dependency: its own, or one of a memoized call's version"""
    return (k in x.direct_deps_commits and x.direct_deps_commits[k] == c) or exists('{K},str', lambda d, m: memo(x, d, m) and in_expansion(av[d][m], k, c))
''')
    X = {"self": "obj[Version]"}
    OTHERS = "forall('obj[Version]', lambda x: implies(x != self, x.{0} == old(x.{0})))"
    at = lambda d, e: dict(expr="lambda: " + e, types=[], depth=d)
    REACH = f"forall('{K},str', lambda k, c: implies({{p}} and in_expansion({{v}}, k, c), k in result and c in result[k]))"
    reg.contract("Version._set_content_expansion", types={**X, "all_versions": AV}, props=P, requires=["known_memos(self, all_versions)", "forall('tup[str,str],str', lambda d, m: implies(memo(self, d, m), all_versions[d][m] != self))"],
                 modifies=["self._content_expansion", "F:Version._content_expansion"], manual=True,
                 loops=[f"forall('{K},str', lambda k, c: implies(k in result and c in result[k], expands(self, all_versions, k, c)))",
                        at(0, f"forall('{K}', lambda k: implies(done(k) and k in self.direct_deps_commits, k in result and self.direct_deps_commits[k] in result[k]))"),
                        f"forall('{K}', lambda k: implies(entry(k in result), k in result))", f"forall('{K},str', lambda k, c: implies(entry(k in result and c in result[k]), k in result and c in result[k]))",
                        at(0, f"forall('{K},str,{K},str', lambda d, m, k, c: implies(done(d) and memo(self, d, m) and in_expansion(all_versions[d][m], k, c), k in result and c in result[k]))"),
                        at(1, f"forall('str,{K},str', lambda m, k, c: implies(done(m) and m in memoized_content_versions and in_expansion(all_versions[dep_key][m], k, c), k in result and c in result[k]))"),
                        at(2, f"forall('{K},str', lambda k, c: implies(done(k) and in_expansion(referenced_version, k, c), k in result and c in result[k]))"),
                        f"forall('{K}', lambda k: implies(k in result, lists(self, all_versions, k)))", at(0, f"forall('{K},str,{K}', lambda d, m, k: implies(done(d) and memo(self, d, m) and k in all_versions[d][m]._content_expansion, k in result))"),
                        at(1, f"forall('str,{K}', lambda m, k: implies(done(m) and m in memoized_content_versions and k in all_versions[dep_key][m]._content_expansion, k in result))"), at(2, f"forall('{K}', lambda k: implies(done(k) and k in referenced_version._content_expansion, k in result))")],
                 ensures=[OTHERS.format("_content_expansion"), f"forall('{K}', lambda k: (k in self._content_expansion) == lists(self, all_versions, k))", f"forall('{K},str', lambda k, c: in_expansion(self, k, c) == expands(self, all_versions, k, c))"])
    DG = f"dict[{K},obj[ComponentDAG]]"
    reg.spec(f'''
def committed(x, dags):
    return forall('{K}', lambda k: implies(k in x.direct_deps_commits, k in dags and x.direct_deps_commits[k] in dags[k].commits))
def means(x, dags, av, k, s):
    """component k is a dependency with semantic version s"""
    return (k in x.direct_deps_commits and dags[k].commits[x.direct_deps_commits[k]].semantic_hash == s) or exists('{K},str', lambda d, m: memo(x, d, m) and k in av[d][m]._semantic_expansion and av[d][m]._semantic_expansion[k] == s)
def even(x):
    """a version gives a meaning to exactly the components it lists"""
    return forall('{K}', lambda k: (k in x._semantic_expansion) == (k in x._content_expansion))
def evens(x, av):
    return forall('{K},str', lambda d, m: implies(memo(x, d, m), even(av[d][m])))
def others_older(x, av):
    return forall('{K},str', lambda d, m: implies(memo(x, d, m), av[d][m] != x))
''')
    SEMREQ = ["known_memos(self, all_versions)", "others_older(self, all_versions)", "committed(self, component_dags)"]
    SEML = [f"forall('{K}', lambda k: implies(k in result, means(self, component_dags, all_versions, k, result[k])))",
            at(0, f"forall('{K}', lambda k: implies(done(k) and k in self.direct_deps_commits, k in result and result[k] == component_dags[k].commits[self.direct_deps_commits[k]].semantic_hash))"),
            f"forall('{K}', lambda k: implies(entry(k in result), k in result and result[k] == entry(result[k])))",
            at(0, f"forall('{K},str,{K}', lambda d, m, k: implies(done(d) and memo(self, d, m) and k in all_versions[d][m]._semantic_expansion, k in result and result[k] == all_versions[d][m]._semantic_expansion[k]))"),
            at(1, f"forall('str,{K}', lambda m, k: implies(done(m) and m in memoized_content_versions and k in all_versions[dep_key][m]._semantic_expansion, k in result and result[k] == all_versions[dep_key][m]._semantic_expansion[k]))")]
    CONFLICT = f"exists('{K},str,str', lambda k, s, t: means(self, component_dags, all_versions, k, s) and means(self, component_dags, all_versions, k, t) and s != t)"
    SEMENS = [f"forall('{K}', lambda k: implies(k in self._semantic_expansion, means(self, component_dags, all_versions, k, self._semantic_expansion[k])))",
              f"forall('{K},str', lambda k, s: implies(means(self, component_dags, all_versions, k, s), k in self._semantic_expansion and self._semantic_expansion[k] == s))", "stands(self._semantic_version, self._semantic_expansion)"]
    reg.contract("Version._set_semantic_expansion", types={**X, "component_dags": DG, "all_versions": AV}, props=P, requires=SEMREQ, modifies=["self._semantic_expansion", "self._semantic_version", "F:Version._semantic_expansion", "F:Version._semantic_version"], manual=True, loops=SEML,
                 raises={"ValueError": CONFLICT}, exsures=["self._semantic_expansion == old(self._semantic_expansion)"],
                 ensures=[OTHERS.format("_semantic_expansion"), OTHERS.format("_semantic_version")] + SEMENS)
    reg.contract("Version.set_synced", types=X, props=P, modifies=["self._is_synced", "F:Version._is_synced"], raises={"ValueError": "self._is_synced"}, ensures=["self._is_synced", OTHERS.format("_is_synced")])
    CONENS = [f"forall('{K},str', lambda k, c: in_expansion(self, k, c) == expands(self, all_versions, k, c))", f"forall('{K}', lambda k: (k in self._content_expansion) == lists(self, all_versions, k))"]
    FIELDS = ["_content_expansion", "_content_version", "_semantic_expansion", "_semantic_version", "_is_synced"]
    reg.contract("Version._set_content_version", types=X, assumed=True, modifies=["self._content_version"])
    reg.trust("Version._set_content_version", "sets the content id alone; that the id is the hash of the contents listed is decided by the scenarios")
    reg.contract("Version.sync", types={**X, "component_dags": DG, "all_versions": AV}, props=P, requires=SEMREQ + ["evens(self, all_versions)"], modifies=[f"self.{f}" for f in FIELDS] + [f"F:Version.{f}" for f in FIELDS], raises={"ValueError": f"self._is_synced or {CONFLICT}"},
                 ensures=[OTHERS.format(f) for f in FIELDS] + SEMENS + CONENS + ["even(self)", "self._is_synced"])
    process(reg, P, K, X, FIELDS, OTHERS, SEMENS + CONENS)


def process(reg, P, K, X, FIELDS, OTHERS, SEMENS):
    """a finished trace becomes a version and a row of the table of calls"""
    from contracts.versioning import fn

    def new_dag(ip, st, args, kw, e):
        if not ip.target.startswith("Versioner."):
            return None
        cell = ip.alloc(st, ObjC("ComponentDAG", {"commits": ip.box(st, ip.empty_dict())}))
        return [(st, ip.materialize(st, cell, clsof_t=cls_const("ComponentDAG"), cls="ComponentDAG"))]
    reg.builtins["new:DAG"] = new_dag
    fn(reg, "ncontent")
    reg.contract("Node.content", types={"self": "obj[Node]"}, returns="any", assumed=True, ensures=["result == ncontent(self)"])
    reg.contract("ComponentDAG.init", types={"self": "obj[ComponentDAG]", "initial_content": "any"}, returns="str", assumed=True, requires=["forall('str', lambda c: c not in self.commits)"], modifies=["self.commits"],
                 ensures=["forall('obj[Node]', lambda n: implies(ncontent(n) == initial_content, nhash(n) in self.commits))"])
    reg.trust("ComponentDAG", "a DAG seen from the versioner: DAG.init as proved in C15; a node's content hash is the one its DAG's adapter computes")
    V = {"self": "cell[Versioner]"}
    reg.spec(f'''
def ordinary(n):
    return not isinstance(n, TerminalNode)
def traceable(nodes):
    """functions and globals, and calls of memoized functions"""
    return forall('{K}', lambda k: implies(k in nodes, isinstance(nodes[k], CallableNode) or isinstance(nodes[k], GlobalVarNode) or isinstance(nodes[k], TerminalNode)))
def same_dags(a, b):
    return forall('{K}', lambda k: implies(k in b, k in a and a[k] == b[k]))
def filed(v):
    """a component is known to the versioner as a whole"""
    return forall('{K}', lambda k: implies(k in v.nodes, k in v.component_dags and k in v.versions))
def traced_commits(v, nodes):
    """contents met in a trace of known components are committed"""
    return forall('{K}', lambda k: implies(k in nodes and ordinary(nodes[k]) and k in v.nodes, nhash(nodes[k]) in v.component_dags[k].commits))
''')
    KNEW = [f"forall('{K}', lambda k: implies(k in old(self.versions) and k in old(self.nodes), k in self.versions and self.versions[k] == old(self.versions)[k]))", f"forall('{K}', lambda k: implies(k in old(self.nodes), k in self.nodes and self.component_dags[k] == old(self.component_dags)[k]))", f"forall('{K},str', lambda k, c: implies(k in old(self.nodes) and c in old(self.component_dags[k].commits), c in self.component_dags[k].commits))"]
    KNEW += [f"forall('{K},str', lambda k, c: implies(k in self.versions and c in self.versions[k], k in old(self.versions) and c in old(self.versions)[k] and self.versions[k][c] == old(self.versions)[k][c]))"]
    reg.contract("Versioner.init_component", types={**V, "component": K, "node": "obj[Node]", "initial_content": "any"}, props=P, requires=["filed(self)", "component not in self.nodes", "initial_content == ncontent(node)"],
                 modifies=["self.nodes", "self.component_dags", "self.versions", "F:ComponentDAG.commits"], raises={"ValueError": "not isinstance(node, CallableNode) and not isinstance(node, GlobalVarNode)"}, exsures=["self.nodes == old(self.nodes)"],
                 ensures=["filed(self)", f"forall('{K}', lambda k: (k in self.nodes) == (k == component or k in old(self.nodes)))", "nhash(node) in self.component_dags[component].commits"] + KNEW)
    reg.contract("Versioner.create_new_components_from_nodes", types={**V, "nodes": f"dict[{K},obj[Node]]"}, props=P, requires=["filed(self)", "traced_commits(self, nodes)", "traceable(nodes)"], modifies=["self.nodes", "self.component_dags", "self.versions", "F:ComponentDAG.commits"],
                 loops=["filed(self)", f"forall('{K}', lambda k: (k in self.nodes) == (k in old(self.nodes) or (done(k) and k in nodes and ordinary(nodes[k]))))", f"forall('{K}', lambda k: implies(k in nodes and ordinary(nodes[k]) and k in self.nodes, nhash(nodes[k]) in self.component_dags[k].commits))"] + KNEW,
                 ensures=["filed(self)", f"forall('{K}', lambda k: (k in self.nodes) == (k in old(self.nodes) or (k in nodes and ordinary(nodes[k]))))", f"forall('{K}', lambda k: implies(k in nodes and ordinary(nodes[k]), k in self.nodes and nhash(nodes[k]) in self.component_dags[k].commits))"] + KNEW)
    ids(reg, P, K, V, X, FIELDS, OTHERS, SEMENS)


def ids(reg, P, K, V, X, FIELDS, OTHERS, SEMENS):
    """a version gets its ids and is filed under its content id"""
    reg.spec(f'''
def conflict(x, dags, av):
    """two meanings of one component meet"""
    return exists('{K},str,str', lambda k, s, t: means(x, dags, av, k, s) and means(x, dags, av, k, t) and s != t)
def filed_as(v, c, x):
    return c in v.versions and x._content_version in v.versions[c]
''')
    sub = lambda e: e.replace("component_dags", "self.component_dags").replace("all_versions", "self.versions")
    ren = lambda e: sub(e.replace("self", "version"))
    reg.contract("Versioner.sync_version", types={"self": "cell[Versioner]", "version": "obj[Version]", "require_exists": "bool"}, returns="obj[Version]", props=P,
                 requires=["known_memos(version, self.versions)", "others_older(version, self.versions)", "committed(version, self.component_dags)", "version.component in self.versions",
                           f"forall('{K}', lambda k: implies(k in version.direct_deps_commits, k in self.global_topology.nodes))", f"forall('{K},str', lambda d, m: implies(memo(version, d, m), version_ok(self, self.versions[d][m])))"],
                 modifies=["self.versions"] + [f"F:Version.{f}" for f in FIELDS], raises={"ValueError": None}, exsures=["self.versions == old(self.versions)"],
                 ensures=["result == version", "not conflict(version, self.component_dags, old(self.versions))", "not old(version._is_synced)", "filed_as(self, version.component, version)", "even(version)", "version._is_synced", "version_ok(self, version)"]
                 + [OTHERS.replace("self", "version").format(f) for f in FIELDS]
                 + [ren(e).replace("self.versions", "old(self.versions)") for e in SEMENS]
                 + [f"forall('{K}', lambda k: (k in self.versions) == (k in old(self.versions)))",
                    f"forall('{K},str', lambda k, c: (k in self.versions and c in self.versions[k]) == ((k in old(self.versions) and c in old(self.versions)[k]) or (k == version.component and c == version._content_version)))",
                    f"forall('{K},str', lambda k, c: implies(k in old(self.versions) and c in old(self.versions)[k], self.versions[k][c] == old(self.versions)[k][c]))",
                    "implies(old(version.component not in self.versions) or version._content_version not in old(self.versions)[version.component], self.versions[version.component][version._content_version] == version)"])
    reg.contract("Versioner.update_global_topology", types={"self": "cell[Versioner]", "graph": "cell[DependencyGraph]"}, props=P, modifies=["self.global_topology.nodes", "self.global_topology.edges"],
                 requires=["keyed(self.global_topology)", "keyed(graph)"],
                 loops=["keyed(self.global_topology)", f"forall('{K}', lambda k: (k in self.global_topology.nodes) == (k in old(self.global_topology.nodes) or (k in graph.nodes and done(k) and is_direct(graph.nodes[k]))))"],
                 ensures=["keyed(self.global_topology)", f"forall('{K}', lambda k: (k in self.global_topology.nodes) == (k in old(self.global_topology.nodes) or (k in graph.nodes and is_direct(graph.nodes[k]))))",
                          f"forall('{K},{K}', lambda a, b: ((a, b) in self.global_topology.edges) == ((a, b) in old(self.global_topology.edges) or ((a, b) in graph.edges and a in self.global_topology.nodes and b in self.global_topology.nodes)))"])
    finishing(reg, P, K, V)


def finishing(reg, P, K, V):
    """a finished trace becomes a row of the table of calls, and the invariants lookup_call relies on hold again"""
    frame0 = reg.builtins.get("DataFrame")

    def frame(ip, st, args, kw, e):
        if not ip.target.startswith("Versioner.") or len(args) != 1:
            return frame0(ip, st, args, kw, e) if frame0 else None
        l = ip.deref(st, args[0])
        if not (isinstance(l, ListV) and l.it is not None and l.it.conc is not None and len(l.it.conc) == 1):
            raise Unsup("DataFrame form")
        d = ip.deref(st, l.it.conc[0])
        return [(st, Opaque("vrow", row=[ip.getitem(st, d, c)[0][1] for c in sorted(COLS, key=COLS.get)]))]
    reg.builtins["DataFrame"] = frame

    def concat(ip, st, args, kw, e):
        l = args[0].items if isinstance(args[0], Opaque) and args[0].kind == "olist" else []
        if not (len(l) == 2 and kw.get("ignore_index") is True and isinstance(l[1], Opaque) and isinstance(l[0], Ptr)):
            raise Unsup("concat form")
        old = ip.deref(st, ip.deref(st, l[0]).fields["rows"])
        row = Tup([coerce(x, STR) for x in l[1].row])
        n = ip.alloc(st, ObjC("CallTable", {}))
        new = ListV(old.ln + 1, lambda i: ite(term(i, I) < old.ln, old.at(i), row), old.ety)
        st.heap[n.root] = ObjC("CallTable", {"rows": ip.alloc(st, new)})
        return [(st, n)]
    reg.builtins["pandas.concat"] = concat
    reg.builtins["concat"] = concat
    reg.trust("pandas.concat", "concat([t, DataFrame([row])], ignore_index=True) is t with row at its end")
    reg.spec(f'''
def agree(a, b):
    """two sets of dependencies give the ones they share the same meaning"""
    return forall('{K}', lambda k: implies(k in a and k in b, a[k] == b[k]))
def row_at(v, i, uid):
    return 0 <= i and i < len(v.df.rows) and v.df.rows[i][0] == uid
''')
    reg.contract("Versioner._check_semantic_distinguishability", types={"self": "cell[Versioner]", "component": K, "pre_call_uid": "str", "call_version": "obj[Version]"}, props=P, requires=["table_ok(self, component, pre_call_uid)"],
                 loops=["forall('int', lambda i: implies(done(i), elem(i)[1] in existing_semantic_expansions))", "forall('str', lambda s: implies(s in existing_semantic_expansions, stands(s, existing_semantic_expansions[s])))",
                        "forall('str', lambda s: implies(s in existing_semantic_expansions, exists('int', lambda i: row_at(self, i, pre_call_uid) and self.df.rows[i][1] == s)))",
                        "forall('str', lambda s: implies(s in existing_semantic_expansions and done(s), not agree(existing_semantic_expansions[s], new_semantic_dep_hashes)))"],
                 raises={"ValueError": "exists('int', lambda i: row_at(self, i, pre_call_uid) and agree(self.versions[component][self.df.rows[i][2]]._semantic_expansion, call_version._semantic_expansion))"})
    reg.spec(f'''
def store_ok(v):
    """versions on record have their ids"""
    return filed(v) and forall('{K},str', lambda k, c: implies(k in v.versions and c in v.versions[k], version_ok(v, v.versions[k][c]) and v.versions[k][c]._is_synced and v.versions[k][c]._content_version == c))
def pointers_known(v, g):
    return forall('{K}', lambda k: implies(k in g.nodes and isinstance(g.nodes[k], TerminalNode), g.nodes[k].representation.dep_key in v.nodes and g.nodes[k].representation.call_content_version in v.versions[g.nodes[k].representation.dep_key]))
def met(v, g):
    """the dependencies of a trace are in the topology"""
    return forall('{K}', lambda k: implies(k in g.nodes and is_direct(g.nodes[k]), k in v.global_topology.nodes))
''')
    reg.contract("Versioner.process_trace", types={"self": "cell[Versioner]", "graph": "cell[DependencyGraph]", "pre_call_uid": "str", "outputs": "any", "is_recompute": "bool"}, returns="obj[Version]", props=P,
                 requires=["store_ok(self)", "keyed(graph)", "traceable(graph.nodes)", "traced_commits(self, graph.nodes)", "pointers_known(self, graph)", "met(self, graph)", f"forall('{K}', lambda r: implies(r in graph.roots, is_direct(graph.nodes[r])))",
                           f"forall('{K}', lambda r: implies(r in graph.roots and r in self.nodes, table_ok(self, r, pre_call_uid)))", f"forall('{K}', lambda r: implies(r in graph.roots and r not in self.nodes, not exists('int', lambda i: row_at(self, i, pre_call_uid))))"],
                 modifies=["self.nodes", "self.component_dags", "self.versions", "self.df", "F:ComponentDAG.commits"] + [f"F:Version.{f}" for f in ("_content_expansion", "_content_version", "_semantic_expansion", "_semantic_version", "_is_synced")], raises={"ValueError": None},
                 ensures=["result.component in graph.roots", "len(self.df.rows) == len(old(self.df.rows)) + (0 if is_recompute else 1)", "forall('int', lambda i: implies(0 <= i and i < len(old(self.df.rows)), self.df.rows[i] == old(self.df.rows)[i]))",
                          "implies(not is_recompute, self.df.rows[len(old(self.df.rows))] == (pre_call_uid, result._semantic_version, result._content_version))", "filed_as(self, result.component, result)", "version_ok(self, result)",
                          f"forall('{K}', lambda k: (k in result.direct_deps_commits) == (k in graph.nodes and is_direct(graph.nodes[k])))", "store_ok(self)",
                          "implies(is_recompute or self.versions[result.component][result._content_version] == result, implies(result.component in old(self.nodes) or not is_recompute, table_ok(self, result.component, pre_call_uid)))"])
