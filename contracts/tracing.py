"""C19: what a trace records."""
from pyver.core import *
import z3


def install(reg):
    P = ["C19"]
    K = "tup[str,str]"
    reg.cls("Node", kind="term", fields={"module_name": "str", "obj_name": "str"})
    reg.cls("CallableNode", kind="term", fields={"runtime_description": "any", "_representation": "any", "_content_hash": "any"}, bases=["Node"])
    reg.cls("GlobalVarNode", kind="term", fields={"_representation": "tup[str,str]"}, bases=["Node"])
    reg.cls("TerminalData", kind="term", fields={"op_internal_name": "str", "op_version": "any", "call_content_version": "str", "call_semantic_version": "str", "dep_key": K})
    reg.cls("TerminalNode", kind="term", fields={"representation": "obj[TerminalData]"}, bases=["Node"])
    reg.cls("PyFunc", kind="term", fields={"__module__": "str", "__qualname__": "str", "__code__": "any"})
    reg.cls("DependencyGraph", fields={"nodes": f"dict[{K},obj[Node]]", "roots": f"set[{K}]", "edges": f"set[tup[{K},{K}]]"})
    reg.cls("DecTracer", fields={"call_stack": "list[obj[CallableNode]]", "graph": "cell[DependencyGraph]", "paths": "any", "strict": "bool", "track_globals": "bool",
                                 "skip_unhashable_globals": "bool", "skip_globals_silently": "bool", "allow_methods": "bool"})
    reg.cls("TracerState", fields={})
    reg.class_state[("TracerState", "tracer")] = "any"
    reg.spec('''
def node_key(n):
    return (n.module_name, n.obj_name)
def keyed(g):
    """nodes are filed under their own keys; edges and roots connect nodes"""
    return (forall('tup[str,str]', lambda k: implies(k in g.nodes, node_key(g.nodes[k]) == k)) and forall('tup[str,str],tup[str,str]', lambda a, b: implies((a, b) in g.edges, a in g.nodes and b in g.nodes))
            and forall('tup[str,str]', lambda k: implies(k in g.roots, k in g.nodes)))
def traced(t):
    """the frames on the stack are nodes of the graph"""
    return keyed(t.graph) and forall('int', lambda i: implies(0 <= i and i < len(t.call_stack), node_key(t.call_stack[i]) in t.graph.nodes))
def key_of(f):
    return (f.__module__, f.__qualname__)
''')
    G = {"self": "cell[DependencyGraph]"}
    reg.contract("DependencyGraph.add_node", types={**G, "node": "obj[Node]"}, props=P, requires=["keyed(self)"], modifies=["self.nodes"],
                 ensures=["keyed(self)", f"forall('{K}', lambda k: (k in self.nodes) == (k in old(self.nodes) or k == node_key(node)))", "self.nodes[node_key(node)] == node", f"forall('{K}', lambda k: implies(k in old(self.nodes) and k != node_key(node), self.nodes[k] == old(self.nodes[k])))"])
    reg.contract("DependencyGraph.add_edge", types={**G, "source": "obj[Node]", "target": "obj[Node]"}, props=P, requires=["keyed(self)"], modifies=["self.nodes", "self.edges"],
                 ensures=["keyed(self)", f"forall('{K}', lambda k: (k in self.nodes) == (k in old(self.nodes) or k == node_key(source) or k == node_key(target)))", f"forall('{K}', lambda k: implies(k in old(self.nodes), self.nodes[k] == old(self.nodes[k])))",
                          "implies(node_key(target) not in old(self.nodes) and node_key(source) != node_key(target), self.nodes[node_key(target)] == target)",
                          f"forall('{K},{K}', lambda a, b: ((a, b) in self.edges) == ((a, b) in old(self.edges) or (a == node_key(source) and b == node_key(target))))"])
    reg.contract("DependencyGraph.get_trace_state", types=G, returns=f"tup[{K},dict[{K},obj[Node]]]", props=P, raises={"ValueError": "len(self.roots) != 1"}, ensures=["result[0] in self.roots", "result[1] == self.nodes"])
    # the tracer
    T0 = {"self": "cell[DecTracer]"}
    reg.contract("get_runtime_description", mod="mandala.deps.utils", types={"code": "any"}, returns="any", assumed=True)
    reg.contract("extract_code", mod="mandala.deps.utils", types={"obj": "any"}, returns="any", assumed=True)
    reg.contract("get_closure_names", mod="mandala.deps.tracers.tracer_base", types={"code_obj": "any", "func_qualname": "str"}, returns="any", assumed=True)
    reg.contract("GlobalVarNode.represent", types={"obj": "any", "skip_unhashable": "bool", "skip_silently": "bool"}, returns="tup[str,str]", assumed=True, raises={"RuntimeError": None})
    W = ["self.call_stack", "self.graph.nodes", "self.graph.edges", "self.graph.roots"]
    SAME = [f"{w} == old({w})" for w in W]
    OLDN = f"forall('{K}', lambda k: implies(k in old(self.graph.nodes) and k != node_key(result), self.graph.nodes[k] == old(self.graph.nodes[k])))"
    reg.contract("DecTracer.register_call", types={**T0, "func": "obj[PyFunc]"}, returns="obj[CallableNode]", props=P, requires=["traced(self)"], modifies=W, raises={"RuntimeError": None}, exsures=SAME,
                 ensures=["traced(self)", "node_key(result) == key_of(func)", "len(self.call_stack) == len(old(self.call_stack)) + 1", "self.call_stack[:-1] == old(self.call_stack)", "self.call_stack[-1] == result",
                          f"forall('{K}', lambda k: (k in self.graph.nodes) == (k in old(self.graph.nodes) or k == node_key(result)))", OLDN,
                          f"forall('{K}', lambda k: (k in self.graph.roots) == (k in old(self.graph.roots) or (k == node_key(result) and len(old(self.call_stack)) == 0)))",
                          f"forall('{K},{K}', lambda a, b: ((a, b) in self.graph.edges) == ((a, b) in old(self.graph.edges) or (len(old(self.call_stack)) > 0 and a == node_key(old(self.call_stack[-1])) and b == node_key(result))))"])
    reg.contract("DecTracer.register_return", types={**T0, "node": "obj[CallableNode]"}, props=P, requires=["len(self.call_stack) > 0"], modifies=["self.call_stack"], raises={"AssertionError": "self.call_stack[-1] != node"}, exsures=["self.call_stack == old(self.call_stack)"],
                 ensures=["self.call_stack == old(self.call_stack)[:-1]"])
    TOP = "old(self.call_stack[-1])"
    reg.contract("DecTracer.register_global_access", types={**T0, "key": "str", "value": "any"}, props=P, requires=["traced(self)"], modifies=W[1:3], raises={"RuntimeError": None, "AssertionError": "self.track_globals and len(self.call_stack) == 0"}, exsures=SAME[1:3],
                 ensures=["traced(self)", "implies(not self.track_globals, self.graph.nodes == old(self.graph.nodes) and self.graph.edges == old(self.graph.edges))",
                          f"implies(self.track_globals, forall('{K}', lambda k: (k in self.graph.nodes) == (k in old(self.graph.nodes) or k == ({TOP}.module_name, key))))",
                          f"forall('{K}', lambda k: implies(k in old(self.graph.nodes), self.graph.nodes[k] == old(self.graph.nodes[k])))",
                          f"implies(self.track_globals, forall('{K},{K}', lambda a, b: ((a, b) in self.graph.edges) == ((a, b) in old(self.graph.edges) or (a == node_key({TOP}) and b == ({TOP}.module_name, key)))))"])
    reg.contract("DecTracer.register_leaf_event", types={"trace_obj": "cell[DecTracer]", "data": "obj[TerminalData]"}, props=P, requires=["traced(trace_obj)"], modifies=["trace_obj.graph.nodes", "trace_obj.graph.edges"],
                 ensures=["traced(trace_obj)", "implies(len(trace_obj.call_stack) == 0, trace_obj.graph.nodes == old(trace_obj.graph.nodes) and trace_obj.graph.edges == old(trace_obj.graph.edges))",
                          f"forall('{K}', lambda k: implies(k in old(trace_obj.graph.nodes), k in trace_obj.graph.nodes and trace_obj.graph.nodes[k] == old(trace_obj.graph.nodes[k])))",
                          f"forall('{K}', lambda k: (k in trace_obj.graph.nodes) == (k in old(trace_obj.graph.nodes) or (len(trace_obj.call_stack) > 0 and k == leaf_key(data))))",
                          f"forall('{K},{K}', lambda a, b: ((a, b) in trace_obj.graph.edges) == ((a, b) in old(trace_obj.graph.edges) or (len(trace_obj.call_stack) > 0 and a == node_key(trace_obj.call_stack[-1]) and b == leaf_key(data))))"])
    reg.spec('''
def leaf_key(d):
    return (d.dep_key[0], "_".join([d.op_internal_name, str(d.op_version), d.call_content_version, d.call_semantic_version]))
''')
    reg.contract("DecTracer.get_active_trace_obj", returns="any", props=P, ensures=["result == TracerState.tracer"])
    reg.contract("DecTracer.set_active_trace_obj", types={"trace_obj": "any"}, props=P, modifies=["TracerState.tracer"], raises={"ValueError": "trace_obj is not None and TracerState.tracer is not None"}, exsures=["TracerState.tracer == old(TracerState.tracer)"],
                 ensures=["TracerState.tracer == trace_obj"])
    # the wrapper a tracked function is replaced by
    old_hook = reg.unknown_calls["any"]

    def hook(ip, st, fv, args, kw, e):
        p = st.heap.get(("G", "TracerState", "tracer"))
        if ip.target != "track.wrapper":
            return old_hook(ip, st, fv, args, kw, e)
        if not isinstance(p, Ptr):
            return ip.apply_contract(reg.contracts["untraced_body"], [], {}, st, e, None)
        return ip.apply_contract(reg.contracts["traced_body"], [p], {}, st, e, None)
    reg.unknown_calls["any"] = hook
    GROWS = [f"forall('{K}', lambda k: implies(k in old(tr.graph.nodes), k in tr.graph.nodes))", f"forall('{K},{K}', lambda a, b: implies((a, b) in old(tr.graph.edges), (a, b) in tr.graph.edges))",
             f"forall('{K}', lambda k: implies(k in old(tr.graph.roots), k in tr.graph.roots))", "traced(tr)"]
    reg.contract("traced_body", types={"tr": "cell[DecTracer]"}, returns="any", assumed=True, requires=["traced(tr)"], modifies=["tr.graph.nodes", "tr.graph.edges", "tr.graph.roots"], raises={"MethodError": None}, exsures=GROWS, ensures=GROWS)
    reg.trust("traced_body", "what a tracked function runs reaches the tracer only through its methods and nested wrappers, each proved to restore the call stack and to grow the graph")
    reg.contract("untraced_body", types={}, returns="any", assumed=True, raises={"MethodError": None})
    TR = "TracerState.tracer"
    ON = lambda x: f"{TR} is None or ({x})"
    KEPT = [ON(f"{TR}.call_stack == old({TR}.call_stack)"), ON(f"traced({TR})"), ON(f"forall('{K}', lambda k: implies(k in old({TR}.graph.nodes), k in {TR}.graph.nodes))"),
            ON(f"forall('{K},{K}', lambda a, b: implies((a, b) in old({TR}.graph.edges), (a, b) in {TR}.graph.edges))")]
    reg.contract("track.wrapper", nested=True, types={"args": "list[any]", "kwargs": "dict[str,any]", "obj": "obj[PyFunc]", TR: "optcell[DecTracer]"}, returns="any", props=P, inline=["DecTracer.get_active_trace_obj"],
                 requires=[ON(f"traced({TR})")], modifies=[f"{TR}.{w}" for w in ("call_stack", "graph.nodes", "graph.edges", "graph.roots")], raises={"RuntimeError": None, "MethodError": None}, exsures=KEPT,
                 ensures=KEPT + [ON(f"key_of(obj) in {TR}.graph.nodes"), ON(f"implies(len({TR}.call_stack) > 0, (node_key({TR}.call_stack[-1]), key_of(obj)) in {TR}.graph.edges)"), ON(f"implies(len({TR}.call_stack) == 0, key_of(obj) in {TR}.graph.roots)")])
