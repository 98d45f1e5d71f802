"""C11-C13: contracts of the computation frame (mandala/cf.py, mandala/utils.py)."""


def install(reg):
    A = "dict[str,dict[str,set[str]]]"
    SD = "dict[str,set[str]]"
    reg.cls("ComputationFrame", fields={"inp": A, "out": A, "vs": SD, "fs": SD, "refinv": SD, "callinv": SD, "creator": "dict[str,str]", "consumers": SD,
                                        "refs": "dict[str,obj[Ref]]", "calls": "dict[str,obj[Call]]", "storage": "any"})
    reg.spec('''
def edge(adj, a, l, b):
    return a in adj and l in adj[a] and b in adj[a][l]
def is_node(s, n):
    return n in s.vs or n in s.fs
def g_in(s):
    return forall('str', lambda n: (n in s.inp) == is_node(s, n))
def g_out(s):
    return forall('str', lambda n: (n in s.out) == is_node(s, n))
def g_kinds(s):
    return forall('str', lambda n: not (n in s.vs and n in s.fs))
def g_mirror(s):
    return forall('str,str,str', lambda a, l, b: edge(s.out, a, l, b) == edge(s.inp, b, l, a))
def g_full(adj):
    return forall('str,str', lambda n, l: implies(n in adj and l in adj[n], exists('str', lambda b: b in adj[n][l])))
def g_sides(s):
    """edges go between a variable and a function"""
    return forall('str,str,str', lambda a, l, b: implies(edge(s.out, a, l, b), a in s.vs and b in s.fs or a in s.fs and b in s.vs))
def graph_inv(s):
    """in- and out-edges mirror each other, join nodes only, and no label is without edges"""
    return g_in(s) and g_out(s) and g_kinds(s) and g_sides(s) and g_mirror(s) and g_full(s.out) and g_full(s.inp)
def member(m, n, e):
    return n in m and e in m[n]
def i_mirror(m, inv):
    return forall('str,str', lambda n, e: member(m, n, e) == member(inv, e, n))
def i_reg(inv, objs):
    return forall('str', lambda e: (e in inv) == (e in objs))
def i_full(inv):
    return forall('str', lambda e: implies(e in inv, exists('str', lambda n: n in inv[e])))
def i_hid(objs):
    return forall('str', lambda e: implies(e in objs, objs[e].hid == e))
def index_inv(m, inv, objs):
    """the elements of the nodes are indexed back, and registered iff some node holds them"""
    return i_mirror(m, inv) and i_reg(inv, objs) and i_full(inv) and i_hid(objs)
''')
    reg.spec('''
def proj(c, x):
    """the edge label an input or output name of the call belongs to"""
    return "elts" if c.op.name == "__make_list__" and x.startswith("elts_") else x
def in_at(c, l, e):
    """e is an input of the call along the label"""
    return exists('str', lambda x: x in c.inputs and proj(c, x) == l and c.inputs[x].hid == e)
def out_at(c, l, e):
    return exists('str', lambda x: x in c.outputs and proj(c, x) == l and c.outputs[x].hid == e)
def has_in(c, e):
    return exists('str', lambda x: x in c.inputs and c.inputs[x].hid == e)
def has_out(c, e):
    return exists('str', lambda x: x in c.outputs and c.outputs[x].hid == e)
def p_creator(s):
    """a recorded creator is a call of the frame with the ref among its outputs"""
    return forall('str', lambda r: implies(r in s.creator, r in s.refs and s.creator[r] in s.calls and has_out(s.calls[s.creator[r]], r)))
def p_consumers(s):
    return forall('str,str', lambda r, c: implies(member(s.consumers, r, c), r in s.refs and c in s.calls and has_in(s.calls[c], r)))
def i_links(s):
    """a call's input is in every variable its function is connected to along the input's label"""
    return forall('str,str,str,str,str', lambda f, c, x, l, v: implies(member(s.fs, f, c) and x in s.calls[c].inputs and l == proj(s.calls[c], x) and edge(s.out, v, l, f), member(s.vs, v, s.calls[c].inputs[x].hid)))
def o_links(s):
    return forall('str,str,str,str,str', lambda f, c, x, l, v: implies(member(s.fs, f, c) and x in s.calls[c].outputs and l == proj(s.calls[c], x) and edge(s.out, f, l, v), member(s.vs, v, s.calls[c].outputs[x].hid)))
''')
    C = {"self": "cell[ComputationFrame]"}
    EDGES = lambda cond: [f"forall('str,str,str', lambda a, l, b: edge(self.out, a, l, b) == ({cond}))"]
    FRAME = lambda *fs: [f"forall('str', lambda n: (n in self.{f}) == (n in old(self.{f})))" for f in fs]
    reg.contract("ComputationFrame.edges", types=C, returns="bag[tup[str,str,str]]", props=["C11", "C13"],
                 ensures=["forall('str,str,str', lambda a, b, l: ((a, b, l) in result) == edge(self.out, a, l, b))"])
    reg.contract("ComputationFrame.in_edges", types={**C, "node": "str"}, returns="set[tup[str,str,str]]", props=["C13"],
                 ensures=["forall('str,str,str', lambda a, b, l: ((a, b, l) in result) == (b == node and edge(self.out, a, l, b)))"])
    reg.contract("ComputationFrame.out_edges", types={**C, "node": "str"}, returns="set[tup[str,str,str]]", props=["C13"],
                 ensures=["forall('str,str,str', lambda a, b, l: ((a, b, l) in result) == (a == node and edge(self.out, a, l, b)))"])
    ND = ["src in self.vs and dst in self.fs or src in self.fs and dst in self.vs"]
    reg.contract("ComputationFrame._add_edge", types={**C, "src": "str", "dst": "str", "label": "str", "allow_existing": "bool"}, props=["C11"],
                 requires=["graph_inv(self)"] + ND, modifies=["self.inp", "self.out"], raises={"ValueError": "edge(self.out, src, label, dst) and not allow_existing"},
                 exsures=["self.inp == old(self.inp)", "self.out == old(self.out)"],
                 ensures=["graph_inv(self)"] + EDGES("edge(old(self.out), a, l, b) or (a == src and l == label and b == dst)"))
    reg.contract("ComputationFrame._drop_edge", types={**C, "src": "str", "dst": "str", "label": "str"}, props=["C11"],
                 requires=["graph_inv(self)", "edge(self.out, src, label, dst)"], modifies=["self.inp", "self.out"],
                 ensures=["graph_inv(self)"] + EDGES("edge(old(self.out), a, l, b) and not (a == src and l == label and b == dst)"))
    reg.contract("ComputationFrame._add_var", types={**C, "vname": "str"}, returns="str", props=["C11"],
                 requires=["graph_inv(self)", "index_inv(self.vs, self.refinv, self.refs)", "not is_node(self, vname)"], modifies=["self.inp", "self.out", "self.vs"],
                 ensures=["graph_inv(self)", "index_inv(self.vs, self.refinv, self.refs)", "result == vname", "not old(is_node(self, result))",
                          "forall('str', lambda n: (n in self.vs) == (n == result or n in old(self.vs)))", "forall('str,str', lambda n, e: member(self.vs, n, e) == member(old(self.vs), n, e))"] + EDGES("edge(old(self.out), a, l, b)"))
    IX = "index_inv(self.vs, self.refinv, self.refs)"
    GI = ["g_in(self)", "g_out(self)", "g_kinds(self)", "g_sides(self)", "g_mirror(self)", "g_full(self.out)", "g_full(self.inp)"]
    IXS = ["i_mirror(self.vs, self.refinv)", "i_reg(self.refinv, self.refs)", "i_full(self.refinv)", "i_hid(self.refs)"]
    PRV = ["p_creator(self)", "p_consumers(self)"]
    LK = ["i_links(self)", "o_links(self)"]
    R = {**C, "vname": "str", "hid": "str"}
    reg.contract("ComputationFrame.add_ref", types={**C, "vname": "str", "ref": "obj[Ref]", "allow_existing": "bool"}, props=["C11"], requires=[IX, "vname in self.vs"],
                 modifies=["self.vs", "self.refinv", "self.refs"], raises={"ValueError": "ref.hid in self.vs[vname] and not allow_existing"},
                 ensures=[IX, "forall('str,str', lambda n, e: member(self.vs, n, e) == (member(old(self.vs), n, e) or (n == vname and e == ref.hid)))"] + FRAME("vs"))
    CC = ["self.vs", "self.refinv", "self.refs", "self.creator", "self.consumers"]
    reg.contract("ComputationFrame.drop_ref", types=R, props=["C11"], requires=[IX, "member(self.vs, vname, hid)"] + PRV, modifies=CC,
                 ensures=PRV + [IX, "forall('str,str', lambda n, e: member(self.vs, n, e) == (member(old(self.vs), n, e) and not (n == vname and e == hid)))"] + FRAME("vs") +
                 [f"forall('str', lambda r: (r in self.{m}) == (r in old(self.{m}) and (r in self.refs or r not in old(self.refs))))" for m in ("creator", "consumers")]
                 + ["forall('str', lambda r: implies(r in self.creator, self.creator[r] == old(self.creator)[r]))", "forall('str,str', lambda r, c: implies(r in self.consumers, member(self.consumers, r, c) == member(old(self.consumers), r, c)))"])
    reg.contract("ComputationFrame.drop_var", types={**C, "vname": "str", "inplace": "const[True]"}, props=["C11"], requires=["graph_inv(self)", IX, "vname in self.vs"] + PRV + LK, modifies=CC + ["self.inp", "self.out"], manual=True,
                 loops=GI + IXS + PRV + ["forall('str,str,str', lambda a, l, b: edge(self.out, a, l, b) == (edge(old(self.out), a, l, b) and not (done((a, b, l)) and (a == vname or b == vname))))",
                        "forall('str,str', lambda n, e: member(self.vs, n, e) == (member(old(self.vs), n, e) and not (n == vname and done(e))))"],
                 ensures=PRV + LK + ["graph_inv(self)", IX, "forall('str', lambda n: (n in self.vs) == (n in old(self.vs) and n != vname))",
                 "forall('str,str', lambda n, e: member(self.vs, n, e) == (member(old(self.vs), n, e) and n != vname))"] + EDGES("edge(old(self.out), a, l, b) and a != vname and b != vname"))

    # --- C12: the dictionaries of sets both frames are built from
    P = ["C12"]
    KU, KI = lambda c: f"forall('str', lambda k: (k in result) == (k in a or k in b))", "forall('str', lambda k: (k in result) == (k in a and k in b))"
    AB = {"a": SD, "b": SD}
    reg.contract("get_setdict_union", mod="mandala.utils", types=AB, returns=SD, props=P, ensures=[KU(0), "forall('str,str', lambda k, x: member(result, k, x) == (member(a, k, x) or member(b, k, x)))"])
    reg.contract("get_setdict_intersection", mod="mandala.utils", types=AB, returns=SD, props=P, ensures=[KI, "forall('str,str', lambda k, x: member(result, k, x) == (member(a, k, x) and member(b, k, x)))"])
    for t, nm in (("str", "str"), ("obj[Ref]", "ref")):
        pass
    AD = {"a": "dict[str,any]", "b": "dict[str,any]"}
    reg.contract("get_dict_union_over_keys", mod="mandala.utils", types=AD, returns="dict[str,any]", props=P, ensures=[KU(0), "forall('str', lambda k: implies(k in result, result[k] == (a[k] if k in a else b[k])))"])
    reg.contract("get_dict_intersection_over_keys", mod="mandala.utils", types=AD, returns="dict[str,any]", props=P, ensures=[KI, "forall('str', lambda k: implies(k in result, result[k] == a[k]))"])
    AA = {"a": A, "b": A}
    reg.contract("get_adjacency_union", mod="mandala.utils", types=AA, returns=A, props=P, ensures=[KU(0), "forall('str,str,str', lambda s, l, t: edge(result, s, l, t) == (edge(a, s, l, t) or edge(b, s, l, t)))",
                 "implies(g_full(a) and g_full(b), g_full(result))"])
    reg.contract("get_adjacency_intersection", mod="mandala.utils", types=AA, returns=A, props=P, ensures=[KI, "forall('str,str,str', lambda s, l, t: edge(result, s, l, t) == (edge(a, s, l, t) and edge(b, s, l, t)))", "g_full(result)"])
    reg.contract("get_nullable_union", mod="mandala.utils", types={"sets": "vtup[set[str]]"}, returns="set[str]", props=P + ["C13"], ensures=["forall('str', lambda x: (x in result) == exists('int', lambda i: 0 <= i and i < len(sets) and x in sets[i]))"])
    INV = ["forall('str,str,str', lambda s, l, t: edge(out, s, l, t) == done((s, t, l)))", "forall('str,str,str', lambda s, l, t: edge(inp, t, l, s) == done((s, t, l)))", "g_full(out)", "g_full(inp)"]
    reg.contract("get_adj_from_edges", mod="mandala.utils", types={"edges": "set[tup[str,str,str]]", "node_support": "set[str]"}, returns=f"tup[{A},{A}]", props=P, manual=True, requires=["forall('str,str,str', lambda s, t, l: implies((s, t, l) in edges, s in node_support and t in node_support))"],
                 loops=INV + ["forall('str', lambda n: implies(n in out or n in inp, n in node_support))"] + ["forall('str', lambda n: implies(done(n), n in out and n in inp))", "forall('str,str,str', lambda s, l, t: edge(out, s, l, t) == ((s, t, l) in edges))", "forall('str,str,str', lambda s, l, t: edge(inp, t, l, s) == ((s, t, l) in edges))"],
                 ensures=["forall('str,str,str', lambda s, l, t: edge(result[0], s, l, t) == ((s, t, l) in edges))", "forall('str,str,str', lambda s, l, t: edge(result[1], t, l, s) == ((s, t, l) in edges))", "g_full(result[0])", "g_full(result[1])",
                          "forall('str', lambda n: (n in result[0]) == (n in node_support))", "forall('str', lambda n: (n in result[1]) == (n in node_support))"])
    reg.class_consts[("global:__make_list__", "name")] = "__make_list__"
    reg.contract("get_nullable_intersection", mod="mandala.utils", types={"sets": "vtup[set[str]]"}, returns="set[str]", props=P, ensures=["forall('str', lambda x: (x in result) == (len(sets) > 0 and forall('int', lambda i: implies(0 <= i and i < len(sets), x in sets[i]))))"])

    # --- C13: neighbours, sources and sinks of the graph; elements along an edge
    G = "graph_inv(self)"
    reg.contract("ComputationFrame.in_neighbors", types={**C, "node": "str"}, returns="set[str]", props=["C13"], requires=["node in self.inp"], ensures=["forall('str', lambda a: (a in result) == exists('str', lambda l: edge(self.inp, node, l, a)))"])
    reg.contract("ComputationFrame.out_neighbors", types={**C, "node": "str"}, returns="set[str]", props=["C13"], requires=["node in self.out"], ensures=["forall('str', lambda b: (b in result) == exists('str', lambda l: edge(self.out, node, l, b)))"])
    reg.contract("ComputationFrame.sources", types=C, returns="set[str]", props=["C13"], requires=[G], ensures=["forall('str', lambda n: (n in result) == (n in self.vs and not exists('str,str', lambda l, a: edge(self.out, a, l, n))))"])
    reg.contract("ComputationFrame.sinks", types=C, returns="set[str]", props=["C13"], requires=[G], ensures=["forall('str', lambda n: (n in result) == (n in self.vs and not exists('str,str', lambda l, a: edge(self.out, n, l, a))))"])
    reg.contract("ComputationFrame.sets", types=C, returns=SD, props=["C13", "C12"], requires=["g_kinds(self)"], ensures=["forall('str', lambda n: (n in result) == is_node(self, n))", "forall('str,str', lambda n, e: member(result, n, e) == (member(self.vs, n, e) or member(self.fs, n, e)))"])
    reg.contract("ComputationFrame.nodes", types=C, returns="set[str]", props=["C11", "C12", "C13"], ensures=["forall('str', lambda n: (n in result) == is_node(self, n))"])
    reg.lemma("lemma.name_projection", "def f(self, call, name):\n    return get_name_proj(call.op)(name)\n", mod="mandala.cf", types={**C, "call": "obj[Call]", "name": "str"}, returns="str", props=["C11", "C13"], ensures=["result == proj(call, name)"])
    reg.spec('''
def wf_call(c):
    """calls of __make_list__ have inputs elts_0, elts_1, ... and an output of another name"""
    return implies(c.op.name == "__make_list__", forall('str', lambda x: implies(x in c.inputs, x.startswith("elts_"))) and forall('str', lambda x: implies(x in c.outputs, x != "elts" and not x.startswith("elts_"))))
def wf_label(c, l):
    return implies(c.op.name == "__make_list__", not l.startswith("elts_"))
''')
    reg.contract("ComputationFrame.get_names_projecting_to", types={**C, "call_hid": "str", "label": "str"}, returns="set[str]", props=["C13"], requires=["call_hid in self.calls", "wf_call(self.calls[call_hid])", "wf_label(self.calls[call_hid], label)"],
                 ensures=["forall('str', lambda x: implies(x in self.calls[call_hid].inputs or x in self.calls[call_hid].outputs, (x in result) == (proj(self.calls[call_hid], x) == label)))"])
    # elements along an edge: outputs of calls, inputs of calls, both ways, within the frame
    reg.spec('''
def wf_edge(s, l):
    return forall('str', lambda c: implies(c in s.calls, wf_call(s.calls[c]) and wf_label(s.calls[c], l)))
def adj_edge(s, a, b, l):
    return a in s.vs and b in s.fs or a in s.fs and b in s.vs
''')
    FWD = ("(edge[0] in self.vs and edge[1] in self.fs and x in self.fs[edge[1]] and exists('str', lambda h: h in hids and in_at(self.calls[x], edge[2], h)))"
           " or (edge[0] in self.fs and edge[1] in self.vs and x in self.vs[edge[1]] and exists('str', lambda c: c in hids and out_at(self.calls[c], edge[2], x)))")
    BWD = ("(edge[1] in self.vs and edge[0] in self.fs and x in self.fs[edge[0]] and exists('str', lambda h: h in hids and h in self.creator and self.creator[h] == x and out_at(self.calls[x], edge[2], h)))"
           " or (edge[1] in self.fs and edge[0] in self.vs and x in self.vs[edge[0]] and exists('str', lambda c: c in hids and in_at(self.calls[c], edge[2], x)))")
    IC = "index_inv(self.fs, self.callinv, self.calls)"
    reg.contract("ComputationFrame.get_adj_elts_edge", types={**C, "edge": "tup[str,str,str]", "hids": "set[str]", "direction": "str"}, returns="set[str]", props=["C13"],
                 requires=["wf_edge(self, edge[2])", "adj_edge(self, edge[0], edge[1], edge[2])", "g_kinds(self)", IC, IX, "p_creator(self)", "direction == 'back' or direction == 'forward'",
                           "implies(direction == 'back', forall('str', lambda e: implies(e in hids, member(self.vs, edge[1], e) or member(self.fs, edge[1], e))))", "implies(direction == 'forward', forall('str', lambda e: implies(e in hids, member(self.vs, edge[0], e) or member(self.fs, edge[0], e))))"],
                 ensures=[f"implies(direction == 'forward', forall('str', lambda x: (x in result) == ({FWD})))", f"implies(direction == 'back', forall('str', lambda x: (x in result) == ({BWD})))"])
    reg.spec('''
def fed(s, a, l, b, e):
    """the element e of b is fed along the edge from a by an element of a"""
    return (a in s.vs and b in s.fs and e in s.fs[b] and exists('str', lambda h: member(s.vs, a, h) and in_at(s.calls[e], l, h))
        or a in s.fs and b in s.vs and e in s.vs[b] and exists('str', lambda c: member(s.fs, a, c) and out_at(s.calls[c], l, e)))
def used(s, a, l, b, e):
    """the element e of a is used along the edge to b by an element of b"""
    return (b in s.vs and a in s.fs and e in s.fs[a] and exists('str', lambda h: member(s.vs, b, h) and h in s.creator and s.creator[h] == e and out_at(s.calls[e], l, h))
        or b in s.fs and a in s.vs and e in s.vs[a] and exists('str', lambda c: member(s.fs, b, c) and in_at(s.calls[c], l, e)))
''')
    WFG = [G, IC, IX, "p_creator(self)", "forall('str,str,str', lambda a, l, b: implies(edge(self.out, a, l, b), wf_edge(self, l)))"]
    for nm, e1, e2 in (("get_source_elts", "edge(self.out, a, l, n) and fed(self, a, l, n, e)", "src"), ("get_sink_elts", "edge(self.out, n, l, a) and used(self, n, l, a, e)", "dst")):
        acc = "hids_with_creators" if e2 == "src" else "hids_with_consumers"
        D, E = ("(a, node, l)", "fed(self, a, l, node, e)") if e2 == "src" else ("(node, a, l)", "used(self, node, l, a, e)")
        reg.contract(f"ComputationFrame.{nm}", types=C, returns=SD, props=["C13"], manual=True, requires=WFG, budget=300,
                 loops=[dict(expr=f"lambda: forall('str', lambda e: (e in {acc}) == exists('str,str', lambda a, l: done({D}) and {E}))", types=[], target="src"),
                        dict(expr=f"lambda: forall('str', lambda n: (n in res) == done(n))", types=[], target="node"),
                        dict(expr=f"lambda: forall('str,str', lambda n, e: implies(done(n), member(res, n, e) == ((member(self.vs, n, e) or member(self.fs, n, e)) and not exists('str,str', lambda a, l: {e1}))))", types=[], target="node")],
                 ensures=["forall('str', lambda n: (n in result) == is_node(self, n))", f"forall('str,str', lambda n, e: member(result, n, e) == ((member(self.vs, n, e) or member(self.fs, n, e)) and not exists('str,str', lambda a, l: {e1})))"])

    reg.contract("ComputationFrame.get_io_proj", types={**C, "call_hid": "str", "name": "str"}, returns="str", props=["C13"], requires=["call_hid in self.calls"], ensures=["result == proj(self.calls[call_hid], name)"])
    reg.spec('''
def fed_by(s, hs, a, l, b, x):
    return (a in s.vs and b in s.fs and x in s.fs[b] and exists('str', lambda h: h in hs and in_at(s.calls[x], l, h))
        or a in s.fs and b in s.vs and x in s.vs[b] and exists('str', lambda c: c in hs and out_at(s.calls[c], l, x)))
def used_by(s, hs, a, l, b, x):
    return (b in s.vs and a in s.fs and x in s.fs[a] and exists('str', lambda h: h in hs and h in s.creator and s.creator[h] == x and out_at(s.calls[x], l, h))
        or b in s.fs and a in s.vs and x in s.vs[a] and exists('str', lambda c: c in hs and in_at(s.calls[c], l, x)))
''')
    BK, FW = "direction == 'back' or direction == 'both'", "direction == 'forward' or direction == 'both'"
    reg.contract("ComputationFrame.get_adj_elts", types={**C, "node": "str", "hids": "set[str]", "direction": "str"}, returns=SD, props=["C13"], manual=True, requires=WFG + ["is_node(self, node)", "forall('str', lambda e: implies(e in hids, member(self.vs, node, e) or member(self.fs, node, e)))", "direction == 'back' or direction == 'forward' or direction == 'both'"],
                 loops=[dict(expr="lambda: forall('str,str', lambda m, x: member(res, m, x) == (member(entry(res), m, x) or exists('str', lambda l: done((m, node, l)) and used_by(self, hids, m, l, node, x))))", types=[], target="src"),
                        dict(expr="lambda: forall('str,str', lambda m, x: member(res, m, x) == (member(entry(res), m, x) or exists('str', lambda l: done((node, m, l)) and fed_by(self, hids, node, l, m, x))))", types=[], target="src")],
                 ensures=[f"forall('str,str', lambda m, x: member(result, m, x) == (({BK}) and exists('str', lambda l: edge(self.out, m, l, node) and used_by(self, hids, m, l, node, x)) or ({FW}) and exists('str', lambda l: edge(self.out, node, l, m) and fed_by(self, hids, node, l, m, x))))"])

    # --- C11: calls enter and leave the frame
    IC = "index_inv(self.fs, self.callinv, self.calls)"
    ICS = ["i_mirror(self.fs, self.callinv)", "i_reg(self.callinv, self.calls)", "i_full(self.callinv)", "i_hid(self.calls)"]
    FM = lambda cond: f"forall('str,str', lambda n, e: member(self.fs, n, e) == ({cond}))"
    VM = lambda cond: f"forall('str,str', lambda n, e: member(self.vs, n, e) == ({cond}))"
    reg.contract("ComputationFrame._add_func", types={**C, "fname": "str"}, returns="str", props=["C11"], requires=[G, IC, "not is_node(self, fname)"], modifies=["self.inp", "self.out", "self.fs"],
                 ensures=[G, IC, "result == fname", "forall('str', lambda n: (n in self.fs) == (n == result or n in old(self.fs)))", FM("member(old(self.fs), n, e)")] + EDGES("edge(old(self.out), a, l, b)"))
    DC = ["self.fs", "self.callinv", "self.calls", "self.creator", "self.consumers"]
    SAMEC = ["forall('str', lambda c: implies(c in self.calls, c in old(self.calls) and self.calls[c] == old(self.calls)[c]))"]
    KEPT = SAMEC + ["forall('str', lambda r: implies(r in self.creator, r in old(self.creator) and self.creator[r] == old(self.creator)[r]))", "forall('str,str', lambda r, c: implies(member(self.consumers, r, c), member(old(self.consumers), r, c)))"]
    reg.contract("ComputationFrame.drop_call", types={**C, "fname": "str", "hid": "str"}, props=["C11"], manual=True, requires=[IC, "member(self.fs, fname, hid)"] + PRV, modifies=DC,
                 loops=KEPT + ["forall('str', lambda r: implies(r in old(self.creator) and old(self.creator)[r] != hid, r in self.creator))", "forall('str,str', lambda r, c: implies(member(old(self.consumers), r, c) and c != hid, member(self.consumers, r, c)))",
                        "forall('str', lambda x: implies(done(x) and call.outputs[x].hid in self.creator, self.creator[call.outputs[x].hid] != hid))", "forall('str', lambda x: implies(done(x), not member(self.consumers, call.inputs[x].hid, hid)))",
                        "forall('str', lambda x: implies(x in call.outputs and call.outputs[x].hid in self.creator, self.creator[call.outputs[x].hid] != hid))"],
                 ensures=[IC, FM("member(old(self.fs), n, e) and not (n == fname and e == hid)")] + FRAME("fs") + PRV + KEPT
                 + ["forall('str', lambda r: implies(r in old(self.creator) and old(self.creator)[r] != hid, r in self.creator))", "forall('str,str', lambda r, c: implies(member(old(self.consumers), r, c) and c != hid, member(self.consumers, r, c)))"])

    reg.contract("ComputationFrame.drop_func", types={**C, "fname": "str", "inplace": "const[True]"}, props=["C11"], manual=True, requires=[G, IC, "fname in self.fs"] + PRV + LK, modifies=DC + ["self.inp", "self.out"],
                 loops=GI + ICS + PRV + SAMEC + ["forall('str,str,str', lambda a, l, b: edge(self.out, a, l, b) == (edge(old(self.out), a, l, b) and not (done((a, b, l)) and (a == fname or b == fname))))",
                        "forall('str,str', lambda n, e: member(self.fs, n, e) == (member(old(self.fs), n, e) and not (n == fname and done(e))))"],
                 ensures=PRV + LK + [G, IC, "forall('str', lambda n: (n in self.fs) == (n in old(self.fs) and n != fname))", FM("member(old(self.fs), n, e) and n != fname")] + EDGES("edge(old(self.out), a, l, b) and a != fname and b != fname"))
    ALLM = sorted(set(CC + DC + ["self.inp", "self.out"]))
    reg.contract("ComputationFrame.drop_node", types={**C, "node": "str", "inplace": "const[True]"}, props=["C11"], requires=[G, IX, IC] + PRV + LK, modifies=ALLM,
              raises={"ValueError": "not is_node(self, node)"}, ensures=PRV + LK + [G, IX, IC, "forall('str', lambda n: (n in self.vs) == (n in old(self.vs) and n != node))", "forall('str', lambda n: (n in self.fs) == (n in old(self.fs) and n != node))", FM("member(old(self.fs), n, e) and n != node"), VM("member(old(self.vs), n, e) and n != node")] + EDGES("edge(old(self.out), a, l, b) and a != node and b != node"))
    LVS = GI + IXS + ICS + PRV + LK
    reg.contract("ComputationFrame.cleanup", types={**C, "inplace": "const[True]"}, props=["C11", "C12"], manual=True, requires=[G, IX, IC] + PRV + LK, modifies=ALLM,
              loops=LVS + [FM("member(old(self.fs), n, e)"), VM("member(old(self.vs), n, e)"), "forall('str', lambda n: implies(is_node(self, n), old(is_node(self, n))))", "forall('str', lambda n: implies(old(is_node(self, n)) and not done(n), is_node(self, n)))",
                     "forall('str', lambda n: implies(done(n) and is_node(self, n), exists('str', lambda e: member(self.vs, n, e) or member(self.fs, n, e))))", "forall('str,str,str', lambda a, l, b: implies(edge(self.out, a, l, b), edge(old(self.out), a, l, b)))"],
              ensures=PRV + LK + [G, IX, IC, FM("member(old(self.fs), n, e)"), VM("member(old(self.vs), n, e)"), "forall('str', lambda n: implies(is_node(self, n), exists('str', lambda e: member(self.vs, n, e) or member(self.fs, n, e))))",
                     "forall('str,str,str', lambda a, l, b: implies(edge(self.out, a, l, b), edge(old(self.out), a, l, b)))"])
    reg.contract("ComputationFrame.drop", types={**C, "nodes": "list[str]", "inplace": "const[True]", "with_dependents": "const[False]"}, props=["C11"], manual=True, requires=[G, IX, IC] + PRV + LK, modifies=ALLM, raises={"ValueError": None},
              loops=LVS + [FM("member(old(self.fs), n, e) and not exists('int', lambda i: done(i) and nodes[i] == n)"), VM("member(old(self.vs), n, e) and not exists('int', lambda i: done(i) and nodes[i] == n)"),
                     *EDGES("edge(old(self.out), a, l, b) and not exists('int', lambda i: done(i) and (nodes[i] == a or nodes[i] == b))")],
              ensures=PRV + LK + [G, IX, IC, FM("member(old(self.fs), n, e) and n not in nodes"), VM("member(old(self.vs), n, e) and n not in nodes")] + EDGES("edge(old(self.out), a, l, b) and a not in nodes and b not in nodes"))
    reg.contract("ComputationFrame.move_ref", types={**C, "source_vname": "str", "target_vname": "str", "hid": "str", "inplace": "const[True]"}, props=["C11"], requires=[IX, "source_vname in self.vs and target_vname in self.vs and source_vname != target_vname"], modifies=["self.vs", "self.refinv"],
                 raises={"ValueError": "hid not in self.vs[source_vname]"}, ensures=[IX, VM("(member(old(self.vs), n, e) and not (n == source_vname and e == hid)) or (n == target_vname and e == hid)")] + FRAME("vs"))
    W = ["self.vs", "self.refinv", "self.refs", "self.fs", "self.callinv", "self.calls", "self.creator", "self.consumers"]
    VK = "forall('str', lambda n: (n in self.vs) == (n in old(self.vs)))"
    RK = "forall('str', lambda r: implies(r in entry(self.refs), r in self.refs))"
    GROW = ["forall('str,str', lambda n, e: implies(member(entry(self.vs), n, e), member(self.vs, n, e)))", RK]
    PC2 = "forall('str,str', lambda r, c: implies(member(self.consumers, r, c), (r in self.refs or r == input_ref.hid) and c in self.calls and has_in(self.calls[c], r)))"
    PR2 = "forall('str', lambda r: implies(r in self.creator, (r in self.refs or r == output_ref.hid) and self.creator[r] in self.calls and has_out(self.calls[self.creator[r]], r)))"
    ALLC = ["forall('str', lambda x: implies(x in call.inputs, input_linked(self, call, fname, x)))"]
    reg.spec('''
def input_linked(s, call, f, x):
    return forall('str', lambda v: implies(edge(s.out, v, proj(call, x), f), member(s.vs, v, call.inputs[x].hid)))
def output_linked(s, call, f, x):
    return forall('str', lambda v: implies(edge(s.out, f, proj(call, x), v), member(s.vs, v, call.outputs[x].hid)))
def reaches(s, call, f, n, e):
    """the call puts the element e into the variable n"""
    return (exists('str', lambda x: x in call.inputs and call.inputs[x].hid == e and edge(s.out, n, proj(call, x), f))
        or exists('str', lambda x: x in call.outputs and call.outputs[x].hid == e and edge(s.out, f, proj(call, x), n)))
''')
    BACK = "forall('str,str', lambda n, e: implies(member(self.vs, n, e), member(old(self.vs), n, e) or (with_refs and reaches(self, call, fname, n, e))))"
    reg.contract("ComputationFrame.add_call", types={**C, "fname": "str", "call": "obj[Call]", "with_refs": "bool", "allow_existing": "bool"}, props=["C11"], manual=True, modifies=W, budget=400,
                 requires=[G, IX, IC, "fname in self.fs", "implies(call.hid in self.calls, self.calls[call.hid] == call)"] + PRV,
                 raises={"ValueError": "call.hid in self.fs[fname] and not allow_existing"},
                 loops=IXS + [VK, BACK] + GROW + [dict(expr="lambda: " + x, types=[], depth=0) for x in PRV + ["forall('str', lambda x: implies(x in call.inputs, input_linked(self, call, fname, x)))"]]
                   + [dict(expr="lambda: " + x, types=[], depth=0, target=t) for t, x in [("input_ref", "forall('str', lambda x: implies(done(x) and x in call.inputs, input_linked(self, call, fname, x)))"), ("output_ref", "forall('str', lambda x: implies(done(x) and x in call.outputs, output_linked(self, call, fname, x)))")]]
                   + [dict(expr="lambda: " + x, types=[], depth=1) for x in ["p_consumers(self)", "p_creator(self)", PC2, PR2, "forall('str', lambda v: implies(done(v), member(self.vs, v, input_ref.hid)))", "forall('str', lambda v: implies(done(v), member(self.vs, v, output_ref.hid)))"]],
                 ensures=[IX, IC, FM("member(old(self.fs), n, e) or (n == fname and e == call.hid)")] + FRAME("fs", "vs") + PRV + [BACK, "forall('str,str', lambda n, e: implies(member(old(self.vs), n, e), member(self.vs, n, e)))", "forall('str', lambda c: implies(c in old(self.calls), c in self.calls and self.calls[c] == old(self.calls)[c]))",
                          "implies(with_refs, forall('str', lambda x: implies(x in call.inputs, input_linked(self, call, fname, x))))", "implies(with_refs, forall('str', lambda x: implies(x in call.outputs, output_linked(self, call, fname, x))))"])
    frames(reg)


def frames(reg):
    """whole frames: copies, selections, intersections"""
    C = {"self": "cell[ComputationFrame]"}
    P = ["C12", "C11"]
    FS = ["inp", "out", "vs", "fs", "refinv", "callinv", "creator", "consumers", "refs", "calls"]
    WF = lambda s: [f"graph_inv({s})", f"index_inv({s}.vs, {s}.refinv, {s}.refs)", f"index_inv({s}.fs, {s}.callinv, {s}.calls)"]
    reg.contract("ComputationFrame.copy", types=C, returns="cell[ComputationFrame]", props=P, ensures=[f"result.{f} == self.{f}" for f in FS])
    IXR = ["i_mirror({0}.vs, {0}.refinv)", "i_reg({0}.refinv, {0}.refs)", "i_full({0}.refinv)", "i_hid({0}.refs)", "i_mirror({0}.fs, {0}.callinv)", "i_reg({0}.callinv, {0}.calls)", "i_full({0}.callinv)", "i_hid({0}.calls)"]
    GR = ["g_in({0})", "g_out({0})", "g_kinds({0})", "g_sides({0})", "g_mirror({0})", "g_full({0}.out)", "g_full({0}.inp)"]
    PV = lambda s: [f"p_creator({s})", f"p_consumers({s})"]
    PL = lambda s: PV(s) + [f"i_links({s})", f"o_links({s})"]
    SAME = ["forall('str', lambda c: implies(c in a.calls and c in b.calls, a.calls[c] == b.calls[c]))", "forall('str', lambda r: implies(r in a.refs and r in b.refs, a.refs[r].hid == b.refs[r].hid))"]
    INV = [x.format("result") for x in GR + IXR] + PV("result")
    LKR = ["i_links(result)", "o_links(result)"]
    EDGE = lambda c: [f"forall('str,str,str', lambda a, l, b: edge(result.out, a, l, b) == ({c}))"]
    reg.contract("ComputationFrame._binary_intersection", types={"a": "cell[ComputationFrame]", "b": "cell[ComputationFrame]"}, returns="cell[ComputationFrame]", props=P, requires=WF("a") + WF("b") + PL("a") + PL("b") + ["not exists('str', lambda n: n in a.vs and n in b.fs or n in a.fs and n in b.vs)"] + SAME,
                 ensures=["forall('str', lambda n: (n in result.vs) == (n in a.vs and n in b.vs))", "forall('str', lambda n: (n in result.fs) == (n in a.fs and n in b.fs))",
                          "forall('str,str', lambda n, e: member(result.vs, n, e) == (member(a.vs, n, e) and member(b.vs, n, e)))", "forall('str,str', lambda n, e: member(result.fs, n, e) == (member(a.fs, n, e) and member(b.fs, n, e)))"]
                 + ["forall('str,str,str', lambda x, l, y: edge(result.out, x, l, y) == (edge(a.out, x, l, y) and edge(b.out, x, l, y)))"]
                 + ["forall('str', lambda e: implies(e in result.refs, result.refs[e] == a.refs[e]))", "forall('str', lambda e: implies(e in result.calls, result.calls[e] == a.calls[e]))"]
                 + ["forall('str,str', lambda r, c: (r in result.creator and result.creator[r] == c) == (r in result.refs and c in result.calls and r in a.creator and r in b.creator and a.creator[r] == c))"]
                 + INV + LKR)
    reg.contract("ComputationFrame.select_nodes", types={**C, "nodes": "set[str]"}, returns="cell[ComputationFrame]", props=P, requires=WF("self") + PL("self"), raises={"ValueError": "exists('str', lambda n: n in nodes and not is_node(self, n))"},
                 ensures=["forall('str', lambda n: (n in result.vs) == (n in self.vs and n in nodes))", "forall('str', lambda n: (n in result.fs) == (n in self.fs and n in nodes))",
                          "forall('str,str', lambda n, e: member(result.vs, n, e) == (member(self.vs, n, e) and n in nodes))", "forall('str,str', lambda n, e: member(result.fs, n, e) == (member(self.fs, n, e) and n in nodes))"]
                 + EDGE("edge(self.out, a, l, b) and a in nodes and b in nodes")
                 + ["forall('str', lambda e: implies(e in result.refs, result.refs[e] == self.refs[e]))", "forall('str', lambda e: implies(e in result.calls, result.calls[e] == self.calls[e]))"] + INV + LKR)
    reg.contract("ComputationFrame.select_subsets", types={**C, "elts": "dict[str,set[str]]"}, returns="cell[ComputationFrame]", props=P, requires=WF("self") + PV("self"),
                 raises={"AssertionError": "exists('str', lambda n: (n in elts) != is_node(self, n)) or exists('str,str', lambda n, e: member(elts, n, e) and not member(self.vs, n, e) and not member(self.fs, n, e))"},
                 ensures=["forall('str', lambda n: (n in result.vs) == (n in self.vs))", "forall('str', lambda n: (n in result.fs) == (n in self.fs))",
                          "forall('str,str', lambda n, e: member(result.vs, n, e) == (n in self.vs and member(elts, n, e)))", "forall('str,str', lambda n, e: member(result.fs, n, e) == (n in self.fs and member(elts, n, e)))"]
                 + EDGE("edge(self.out, a, l, b)")
                 + ["forall('str', lambda e: implies(e in result.refs, result.refs[e] == self.refs[e]))", "forall('str', lambda e: implies(e in result.calls, result.calls[e] == self.calls[e]))"] + INV)
    # the checks of the frame only raise; what they state about the links is proved from the calls being added again
    reg.contract("ComputationFrame._check", types=C, assumed="reads the frame and raises AssertionError at most; nothing is taken from its passing", raises={"AssertionError": None})
    U = ["graph_inv(res)", "index_inv(res.vs, res.refinv, res.refs)", "index_inv(res.fs, res.callinv, res.calls)"]
    UL = [x.format("res") for x in GR + IXR] + PV("res")
    reg.contract("ComputationFrame._binary_union", types={"a": "cell[ComputationFrame]", "b": "cell[ComputationFrame]"}, returns="cell[ComputationFrame]", props=P, manual=True, budget=400,
                 requires=WF("a") + WF("b") + PL("a") + PL("b") + ["not exists('str', lambda n: n in a.vs and n in b.fs or n in a.fs and n in b.vs)"] + SAME, raises={"AssertionError": None},
                 inline=["get_dict_union_over_keys"],
                 loops=UL + ["forall('str', lambda n: (n in res.vs) == (n in a.vs or n in b.vs))", "forall('str', lambda n: (n in res.fs) == (n in a.fs or n in b.fs))",
                        "forall('str,str', lambda n, e: member(res.fs, n, e) == (member(a.fs, n, e) or member(b.fs, n, e)))", "forall('str,str', lambda n, e: implies(member(a.vs, n, e) or member(b.vs, n, e), member(res.vs, n, e)))",
                        "forall('str,str,str', lambda x, l, y: edge(res.out, x, l, y) == (edge(a.out, x, l, y) or edge(b.out, x, l, y)))"]
                 + [dict(expr="lambda: " + x, types=[], depth=d, target=t) for d, t, x in [
                    (0, "fname", "forall('str,str,str,str,str', lambda f, c, x, l, v: implies(done(f) and member(res.fs, f, c) and x in res.calls[c].inputs and l == proj(res.calls[c], x) and edge(res.out, v, l, f), member(res.vs, v, res.calls[c].inputs[x].hid)))"),
                    (0, "fname", "forall('str,str,str,str,str', lambda f, c, x, l, v: implies(done(f) and member(res.fs, f, c) and x in res.calls[c].outputs and l == proj(res.calls[c], x) and edge(res.out, f, l, v), member(res.vs, v, res.calls[c].outputs[x].hid)))"),
                    (1, "hid", "forall('str,str,str,str', lambda c, x, l, v: implies(done(c) and x in res.calls[c].inputs and l == proj(res.calls[c], x) and edge(res.out, v, l, fname), member(res.vs, v, res.calls[c].inputs[x].hid)))"),
                    (1, "hid", "forall('str,str,str,str', lambda c, x, l, v: implies(done(c) and x in res.calls[c].outputs and l == proj(res.calls[c], x) and edge(res.out, fname, l, v), member(res.vs, v, res.calls[c].outputs[x].hid)))"),
                    (1, "hid", "forall('str', lambda c: implies(c in entry(res.calls), c in res.calls and res.calls[c] == entry(res.calls)[c]))"), (1, "hid", "forall('str,str', lambda n, e: implies(member(entry(res.vs), n, e), member(res.vs, n, e)))")]],
                 ensures=LKR + ["forall('str', lambda n: (n in result.vs) == (n in a.vs or n in b.vs))", "forall('str', lambda n: (n in result.fs) == (n in a.fs or n in b.fs))",
                          "forall('str,str', lambda n, e: member(result.fs, n, e) == (member(a.fs, n, e) or member(b.fs, n, e)))", "forall('str,str', lambda n, e: implies(member(a.vs, n, e) or member(b.vs, n, e), member(result.vs, n, e)))",
                          "forall('str,str,str', lambda x, l, y: edge(result.out, x, l, y) == (edge(a.out, x, l, y) or edge(b.out, x, l, y)))"] + INV)

    # --- variables renamed and merged
    G, IX, IC = WF("self")
    SF = ["inp", "out", "vs", "fs", "refinv", "callinv", "creator", "consumers", "refs", "calls"]
    LOOPI = [x.format("self") for x in GR + IXR] + PV("self")
    MG = "node_to_merge"
    FR = ["forall('str', lambda n: (n in self.vs) == (n in old(self.vs)))", "forall('str', lambda n: (n in self.fs) == (n in old(self.fs)))"]
    reg.spec('''
def weak_i(s, w, t):
    """links, with the elements of the variable w looked up in the variable t too"""
    return forall('str,str,str,str,str', lambda f, c, x, l, v: implies(member(s.fs, f, c) and x in s.calls[c].inputs and l == proj(s.calls[c], x) and edge(s.out, v, l, f), member(s.vs, v, s.calls[c].inputs[x].hid) or v == w and member(s.vs, t, s.calls[c].inputs[x].hid)))
def weak_o(s, w, t):
    return forall('str,str,str,str,str', lambda f, c, x, l, v: implies(member(s.fs, f, c) and x in s.calls[c].outputs and l == proj(s.calls[c], x) and edge(s.out, f, l, v), member(s.vs, v, s.calls[c].outputs[x].hid) or v == w and member(s.vs, t, s.calls[c].outputs[x].hid)))
def ren(adj, n, l, b, w, t):
    """the edge of the table, with the node w called t"""
    return b != w and edge(adj, n, l, b) or b == t and edge(adj, n, l, w)
''')
    WK = ["weak_i(self, node_to_merge, merge_into)", "weak_o(self, node_to_merge, merge_into)"]
    reg.contract("ComputationFrame.merge_into", types={**C, "node_to_merge": "str", "merge_into": "str", "inplace": "const[True]"}, props=["C11"], manual=True, budget=300,
                 requires=[G, IX, IC, "node_to_merge in self.vs and merge_into in self.vs and node_to_merge != merge_into"] + PL("self"), modifies=[f"self.{f}" for f in SF],
                 loops=LOOPI + FR + WK + ["forall('str,str', lambda n, e: member(self.fs, n, e) == member(old(self.fs), n, e))",
                        dict(expr="lambda: forall('str,str', lambda n, e: member(self.vs, n, e) == (member(old(self.vs), n, e) and not (n == node_to_merge and done(e)) or (n == merge_into and done(e))))", types=[], target="hid"),
                        dict(expr="lambda: forall('str,str,str', lambda a, l, b: edge(self.out, a, l, b) == (edge(entry(self.out), a, l, b) and not (b == node_to_merge and done((a, b, l))) or (b == merge_into and done((a, node_to_merge, l)))))", types=[], target="src"),
                        dict(expr="lambda: forall('str,str,str', lambda a, l, b: edge(self.out, a, l, b) == (edge(entry(self.out), a, l, b) and not (a == node_to_merge and done((a, b, l))) or (a == merge_into and done((node_to_merge, b, l)))))", types=[], target="src")],
                 ensures=[G, IX, IC] + PL("self") + ["forall('str', lambda n: (n in self.vs) == (n in old(self.vs) and n != node_to_merge))", "forall('str', lambda n: (n in self.fs) == (n in old(self.fs)))",
                          "forall('str,str', lambda n, e: member(self.fs, n, e) == member(old(self.fs), n, e))", "forall('str,str', lambda n, e: member(self.vs, n, e) == (n != node_to_merge and (member(old(self.vs), n, e) or n == merge_into and member(old(self.vs), node_to_merge, e))))",
                          "forall('str,str,str', lambda a, l, b: edge(self.out, a, l, b) == (a != node_to_merge and b != node_to_merge and (edge(old(self.out), a, l, b) or b == merge_into and edge(old(self.out), a, l, node_to_merge) or a == merge_into and edge(old(self.out), node_to_merge, l, b))))"])
    reg.contract("ComputationFrame.rename_var", types={**C, "vname": "str", "new_vname": "str", "inplace": "const[True]"}, props=["C11"], manual=True, budget=300, requires=[G, IX, IC, "vname in self.vs"] + PL("self"),
                 modifies=["self.vs", "self.inp", "self.out", "self.refinv"], raises={"ValueError": "is_node(self, new_vname)"},
                 loops=[dict(expr=f"lambda: {x}", types=[], target=t) for m in ("inp", "out") for t, x in [
                   ("neighbor_nodes", f"forall('str,str,str', lambda n, l, b: edge(self.{m}, n, l, b) == (ren(entry(self.{m}), n, l, b, vname, new_vname) if n == node and done(l) else edge(entry(self.{m}), n, l, b)))"),
                   ("node", f"forall('str,str,str', lambda n, l, b: edge(self.{m}, n, l, b) == (ren(entry(self.{m}), n, l, b, vname, new_vname) if done(n) else edge(entry(self.{m}), n, l, b)))"),
                   ("neighbor_nodes", f"g_full(self.{m})"), ("node", f"g_full(self.{m})"), ("neighbor_nodes", f"forall('str', lambda n: (n in self.{m}) == (n in entry(self.{m})))"), ("node", f"forall('str', lambda n: (n in self.{m}) == (n in entry(self.{m})))")]],
                 ensures=[G, IX, IC] + PL("self") + ["forall('str', lambda n: (n in self.vs) == (n == new_vname or n in old(self.vs) and n != vname))", "forall('str,str', lambda n, e: member(self.vs, n, e) == (n == new_vname and member(old(self.vs), vname, e) or n != vname and member(old(self.vs), n, e)))",
                          "forall('str,str,str', lambda a, l, b: edge(self.out, a, l, b) == (a != vname and b != vname and (edge(old(self.out), a, l, b) or a == new_vname and edge(old(self.out), vname, l, b) or b == new_vname and edge(old(self.out), a, l, vname))))"])
    # --- elements of some variables with the calls next to them; frames of given refs
    reg.spec('''
def next_to(s, v, hs, f, c):
    """the call c of f has an element of hs, in the variable v, as an input or output along an edge"""
    return exists('str', lambda l: edge(s.out, f, l, v) and used_by(s, hs, f, l, v, c)) or exists('str', lambda l: edge(s.out, v, l, f) and fed_by(s, hs, v, l, f, c))
''')
    WFG = WF("self") + ["p_creator(self)", "forall('str,str,str', lambda a, l, b: implies(edge(self.out, a, l, b), wf_edge(self, l)))"]
    reg.contract("ComputationFrame._add_adj_calls", types={**C, "vars_view": "dict[str,set[str]]"}, returns="dict[str,set[str]]", props=["C11", "C13"], manual=True, requires=WFG + ["forall('str', lambda v: implies(v in vars_view, v in self.vs))", "forall('str,str', lambda v, e: implies(member(vars_view, v, e), member(self.vs, v, e)))"],
                 loops=["forall('str', lambda n: implies(n in vars_view, n in res))", "forall('str,str', lambda n, e: implies(n in self.vs, member(res, n, e) == member(vars_view, n, e)))", "forall('str,str', lambda n, e: implies(member(res, n, e), is_node(self, n)))",
                        "forall('str,str', lambda f, c: implies(f in self.fs, member(res, f, c) == exists('str', lambda v: done(v) and v in vars_view and next_to(self, v, vars_view[v], f, c))))"],
                 ensures=["forall('str', lambda n: (n in result) == is_node(self, n))", "forall('str,str', lambda v, e: implies(v in self.vs, member(result, v, e) == member(vars_view, v, e)))",
                          "forall('str,str', lambda f, c: implies(f in self.fs, member(result, f, c) == exists('str', lambda v: v in vars_view and next_to(self, v, vars_view[v], f, c))))"])
    reg.contract("ComputationFrame.from_vars", types={"storage": "any", "vars": "dict[str,list[obj[Ref]]]"}, returns="cell[ComputationFrame]", props=["C11"], manual=True, raises={"ValueError": None},
                 loops=[x.format("res") for x in GR + IXR] + PV("res") + ["forall('str', lambda f: f not in res.fs)", "forall('str', lambda f: f not in res.creator and f not in res.consumers)", "forall('str,str,str', lambda a, l, b: not edge(res.out, a, l, b))",
                    dict(expr="lambda: forall('str', lambda n: (n in res.vs) == done(n))", types=[], depth=0),
                    dict(expr="lambda: forall('str,str', lambda n, e: member(res.vs, n, e) == (done(n) and exists('int', lambda i: 0 <= i and i < len(vars[n]) and vars[n][i].hid == e)))", types=[], depth=0),
                    dict(expr="lambda: forall('str', lambda n: (n in res.vs) == (n in entry(res.vs)))", types=[], depth=1),
                    dict(expr="lambda: forall('str,str', lambda n, e: member(res.vs, n, e) == (member(entry(res.vs), n, e) or n == vname and exists('int', lambda i: done(i) and refs[i].hid == e)))", types=[], depth=1)],
                 ensures=WF("result") + PL("result") + ["forall('str', lambda n: (n in result.vs) == (n in vars))", "forall('str,str', lambda n, e: member(result.vs, n, e) == (n in vars and exists('int', lambda i: 0 <= i and i < len(vars[n]) and vars[n][i].hid == e)))", "forall('str', lambda f: f not in result.fs)"])
    PICK = "(self.refs[e].cid in values if by == 'cid' else e in values)"
    reg.contract("ComputationFrame.isin", types={**C, "values": "set[str]", "by": "str", "node_class": "const['var']"}, returns="cell[ComputationFrame]", props=["C11", "C13"], manual=True, requires=WFG + ["p_consumers(self)", "by == 'hid' or by == 'cid'"],
                 loops=["forall('str', lambda v: (v in subsets) == done(v))", f"forall('str,str', lambda v, e: implies(done(v), member(subsets, v, e) == (member(self.vs, v, e) and {PICK})))"],
                 ensures=["forall('str', lambda n: (n in result.vs) == (n in self.vs))", "forall('str', lambda n: (n in result.fs) == (n in self.fs))", f"forall('str,str', lambda v, e: member(result.vs, v, e) == (member(self.vs, v, e) and {PICK}))"] + EDGE("edge(self.out, a, l, b)") + INV)
    for k in ("v", "f"):
        reg.contract(f"ComputationFrame.get_new_{k}name", types={**C, "name_hint": "str"}, returns="str", props=["C11"], ensures=["not is_node(self, result)"] + (["implies(not is_node(self, name_hint), result == name_hint)"] if k == "f" else []))
    reg.contract("ComputationFrame.from_refs", types={"storage": "any", "refs": "list[obj[Ref]]"}, returns="cell[ComputationFrame]", props=["C11"], manual=True, raises={"ValueError": None},
                 loops=[x.format("res") for x in GR + IXR] + PV("res") + ["forall('str', lambda f: f not in res.fs)", "forall('str', lambda f: f not in res.creator and f not in res.consumers)", "forall('str,str,str', lambda a, l, b: not edge(res.out, a, l, b))",
                    "forall('str', lambda n: (n in res.vs) == (n == vname))", "forall('str,str', lambda n, e: member(res.vs, n, e) == (n == vname and exists('int', lambda i: done(i) and refs[i].hid == e)))"],
                 ensures=WF("result") + PL("result") + ["forall('str,str', lambda n, m: implies(n in result.vs and m in result.vs, n == m))", "forall('str,str', lambda n, e: member(result.vs, n, e) == (n in result.vs and exists('int', lambda i: 0 <= i and i < len(refs) and refs[i].hid == e)))", "forall('str', lambda f: f not in result.fs)", "exists('str', lambda n: n in result.vs)"])
