"""C14: orderings of directed graphs."""


def install(reg):
    P = ["C14"]
    G, GA = "dict[str,set[str]]", "dict[int,set[int]]"
    reg.spec('''
def ranked(graph, rk):
    """graph is acyclic: rk grows along every edge; every neighbour is a node"""
    return forall('int,int', lambda a, b: implies(member(graph, a, b), b in graph and a in rk and b in rk and rk[a] < rk[b]))
def follows(graph, l):
    """every element of l comes after all its successors in the graph"""
    return forall('int,int', lambda i, b: implies(0 <= i and i < len(l) and member(graph, l[i], b), exists('int', lambda j: 0 <= j and j < i and l[j] == b)))
def distinct(l):
    return forall('int,int', lambda i, j: implies(0 <= i and i < j and j < len(l), l[i] != l[j]))
def open_below(visited, result, rk, n):
    """what was entered and not left yet has a smaller rank than n"""
    return forall('int', lambda v: implies(v in visited and v not in result, v in rk and rk[v] < rk[n]))
''')
    T = {"node": "int", "graph": GA, "visited": "set[int]", "result": "list[int]", "rk": "dict[int,int]"}
    INV = ["distinct(result)", "follows(graph, result)", "forall('int', lambda v: implies(v in result, v in visited))", "forall('int', lambda v: implies(v in visited, v in graph))",
           "len(result) >= len(old(result))", "forall('int', lambda i: implies(0 <= i and i < len(old(result)), result[i] == old(result)[i]))"]
    OLDV = "forall('int', lambda v: implies(v in old(visited), v in visited))"
    reg.contract("topological_sort.dfs", nested=True, mod="mandala.utils", types=T, props=P, manual=True, modifies=["visited", "result"],
                 requires=["node in graph and node in rk", "node not in visited", "ranked(graph, rk)", "open_below(visited, result, rk, node)"] + INV[:4],
                 loops=INV + [OLDV, "node in visited and node not in result", "forall('int', lambda v: (v in visited and v not in result) == (v == node or (v in old(visited) and v not in old(result))))", "forall('int', lambda v: implies(done(v), v in result))"],
                 ensures=INV + [OLDV, "node in result", "forall('int', lambda v: (v in visited and v not in result) == (v in old(visited) and v not in old(result)))"])
    reg.contract("topological_sort", mod="mandala.utils", types={"graph": GA, "rk": "dict[int,int]"}, returns="list[int]", props=P, manual=True, requires=["ranked(graph, rk)", "forall('int', lambda n: implies(n in graph, n in rk))"],
                 loops=["distinct(result)", "follows(graph, result)", "forall('int', lambda v: (v in result) == (v in visited))", "forall('int', lambda v: implies(v in visited, v in graph))", "forall('int', lambda i: implies(done(i), elem(i) in result))"],
                 ensures=["distinct(result)", "forall('int', lambda v: (v in result) == (v in graph))", "forall('int,int', lambda i, b: implies(0 <= i and i < len(result) and member(graph, result[i], b), exists('int', lambda j: i < j and j < len(result) and result[j] == b)))"])
    NS = "node_to_scc"
    KEYS = [f"forall('str', lambda n: implies(n in {NS}, 0 <= {NS}[n] and {NS}[n] < len(sccs) and n in sccs[{NS}[n]]))"]
    D = lambda x, d, t=None: dict(expr="lambda: " + x, types=[], depth=d, **({"target": t} if t else {}))
    PART = ["forall('str', lambda n: implies(n in graph, exists('int', lambda i: 0 <= i and i < len(sccs) and n in sccs[i])))", "forall('str,str', lambda a, b: implies(member(graph, a, b), b in graph))",
            "forall('int,int,str', lambda i, j, n: implies(0 <= i and i < len(sccs) and 0 <= j and j < len(sccs) and n in sccs[i] and n in sccs[j], i == j))"]
    SG = ["forall('int', lambda i: (i in result) == exists('str', lambda n: n in graph and 0 <= i and i < len(sccs) and n in sccs[i]))",
          "forall('int,int', lambda i, j: member(result, i, j) == (i != j and exists('str,str', lambda a, b: 0 <= i and i < len(sccs) and 0 <= j and j < len(sccs) and a in sccs[i] and b in sccs[j] and member(graph, a, b))))"]
    reg.contract("create_super_graph", mod="mandala.utils", types={"graph": G, "sccs": "list[list[str]]"}, returns="dict[int,set[int]]", props=P, manual=True, requires=PART, ensures=SG,
                 loops=KEYS + [D(f"forall('str', lambda n: (n in {NS}) == exists('int', lambda i: done(i) and n in sccs[i]))", 0, "scc"),
                        D(f"forall('str', lambda n: (n in {NS}) == (n in entry({NS}) or exists('int', lambda j: done(j) and scc[j] == n)))", 1, "node"),
                        D(f"forall('int', lambda i: (i in super_graph) == exists('str', lambda n: done(n) and {NS}[n] == i))", 0, "node"),
                        D(f"forall('int,int', lambda i, j: member(super_graph, i, j) == (i != j and exists('str,str', lambda a, b: done(a) and member(graph, a, b) and {NS}[a] == i and {NS}[b] == j)))", 0, "node"),
                        D("forall('int', lambda i: (i in super_graph) == (i in entry(super_graph)))", 1, "neighbor"),
                        D(f"forall('int,int', lambda i, j: member(super_graph, i, j) == (member(entry(super_graph), i, j) or (i == scc_id and j != i and exists('str', lambda b: done(b) and {NS}[b] == j))))", 1, "neighbor")])

    # components: `cl` is the reflexive transitive closure of the graph, `lv` any numbering that never falls along an edge and is equal along an edge only within a component
    reg.spec("""
def mutual(cl, a, b):
    return member(cl, a, b) and member(cl, b, a)
def levels(graph, cl, lv):
    return (forall('str,str', lambda a, b: implies(member(graph, a, b), b in graph and a in lv and b in lv and lv[a] <= lv[b] and (lv[a] != lv[b] or mutual(cl, a, b))))
        and forall('str', lambda n: implies(n in graph, n in lv and member(cl, n, n))) and forall('str,str', lambda a, b: implies(mutual(cl, a, b) and a in graph and b in graph, lv[a] == lv[b])))
def level_order(graph, lv, l):
    return forall('int,int', lambda i, j: implies(0 <= i and i < len(l) and 0 <= j and j < len(l) and member(graph, l[i], l[j]) and lv[l[i]] < lv[l[j]], i < j))
""")
    GH = {"cl": G, "lv": "dict[str,int]", "rk": "dict[int,int]"}
    CELLS = "0 <= i and i < len(result) and 0 <= k and k < len(result[i])"
    reg.contract("find_strongly_connected_components", mod="mandala.utils", types={"graph": G, **GH}, returns="list[list[str]]", props=P, assumed=True, modifies=["rk"], requires=["levels(graph, cl, lv)"],
                 ensures=["forall('str', lambda n: implies(n in graph, exists('int', lambda i: 0 <= i and i < len(result) and n in result[i])))", "forall('int,str', lambda i, n: implies(0 <= i and i < len(result) and n in result[i], n in graph))",
                          "forall('int,int,str', lambda i, j, n: implies(0 <= i and i < len(result) and 0 <= j and j < len(result) and n in result[i] and n in result[j], i == j))",
                          "forall('int', lambda i: implies(0 <= i and i < len(result), distinct(result[i]) and len(result[i]) > 0))",
                          "forall('int,str,str', lambda i, a, b: implies(0 <= i and i < len(result) and a in result[i] and b in graph, (b in result[i]) == mutual(cl, a, b)))",
                          "forall('int', lambda i: implies(0 <= i and i < len(result), i in rk))", "forall('int,str', lambda i, n: implies(0 <= i and i < len(result) and n in result[i], rk[i] == lv[n]))"])
    BLK = "forall('int', lambda i: implies(0 <= i and i < len(result), exists('int', lambda p: done(p) and result[i] in sccs[elem(p)])))"
    SEQ = "forall('int,int', lambda i, j: implies(0 <= i and i < j and j < len(result), exists('int,int', lambda p, q: 0 <= p and p <= q and done(q) and result[i] in sccs[elem(p)] and result[j] in sccs[elem(q)])))"
    reg.contract("almost_topological_sort", mod="mandala.utils", types={"graph": G, **GH}, returns="list[str]", props=P, manual=True, modifies=["rk"], requires=["levels(graph, cl, lv)"],
                 loops=["distinct(result)", BLK, SEQ, "forall('int,int,str,str', lambda p, q, a, b: implies(done(p) and done(q) and a in sccs[elem(p)] and b in sccs[elem(q)] and member(graph, a, b) and lv[a] < lv[b], p < q))", "forall('int,str', lambda p, n: implies(done(p) and n in sccs[elem(p)], n in result))"],
                 ensures=["distinct(result)", "forall('str', lambda n: (n in result) == (n in graph))", "level_order(graph, lv, result)"])
    CF_ = {"self": "obj[ComputationFrame]", "lv": "dict[str,int]"}
    reg.spec("""
def cf_level_order(s, lv, l):
    return forall('int,int,str', lambda i, j, x: implies(0 <= i and i < len(l) and 0 <= j and j < len(l) and edge(s.out, l[i], x, l[j]) and lv[l[i]] < lv[l[j]], i < j))
""")
    reg.contract("ComputationFrame.topsort_modulo_sccs", types=CF_, returns="list[str]", props=P, assumed=True, requires=["graph_inv(self)"],
                 ensures=["distinct(result)", "forall('str', lambda n: (n in result) == is_node(self, n))", "cf_level_order(self, lv, result)"])
    reg.contract("ComputationFrame.sort_nodes", types={**CF_, "nodes": "set[str]"}, returns="list[str]", props=P, requires=["graph_inv(self)"],
                 ensures=["distinct(result)", "forall('str', lambda n: (n in result) == (n in nodes and is_node(self, n)))", "cf_level_order(self, lv, result)"])
