"""Contracts of the op-call path: output names (C04), argument binding (C03), contexts (C17), memoization (C02)."""
from pyver.core import *
from pyver.interp import close, Exc
from pyver import theory
import z3


def install(reg):
    outputs(reg)
    contexts(reg)


def contexts(reg):
    """C17: entering and leaving restores mode and current storage, whatever the block does"""
    from contracts.storage import DB, OV, DIRTY
    reg.cls("Context", fields={"storage": "any"})
    reg.class_state[("Context", "current_context")] = "any"
    reg.contract("Storage.sync_code", types={"self": "cell[Storage]"}, returns="tup[any,any]", raises={"ValueError": None}, assumed=True)
    reg.trust("Storage.sync_code", "touches no context state (its versioning duties are those of C15 and C16)")

    def hook(ip, st, fv, args, kw, e):
        if not (len(args) == 1 and isinstance(args[0], Ptr) and getattr(ip.deref(st, args[0]), "cls", None) == "Storage"):
            raise Unsup("call of a value")
        return [(st, T(z3.FreshConst(U, "ret"), ANY))]
    reg.callable_any, reg.unknown_calls["any"] = True, hook
    reg.trust("exit hooks", "functions in Storage._exit_hooks (nothing in /repo registers any) leave the modelled state alone and do not raise")
    st = {"self": "cell[Storage]"}
    M = ["self._context_stack", "self._mode_stack", "self.cached_versioner", "self.code_state", "Context.current_context"]
    NEXT = "self._next_mode == (self._mode_stack[-1] if len(self._mode_stack) > 0 else 'run')"
    SAME = ["self._mode_stack == old(self._mode_stack)", "self._context_stack == old(self._context_stack)", "Context.current_context == old(Context.current_context)"]
    PRE = ["st_inv(self)", "implies(self._versioned, 'versioner' in self.sources.cache)", "len(self._exit_hooks) == 0", "len(self._mode_stack) == len(self._context_stack)"]
    reg.contract("Storage.__enter__", types=st, props=["C17"], modifies=M + ["self._next_mode"], raises={"ValueError": None}, exsures=SAME + [NEXT],
                 ensures=["self._next_mode == old(self._next_mode)", "Context.current_context.storage is self", "len(self._mode_stack) == len(old(self._mode_stack)) + 1", "self._mode_stack[-1] == old(self._next_mode)",
                          "self._mode_stack[:-1] == old(self._mode_stack)", "self._context_stack[:-1] == old(self._context_stack)", "self._context_stack[-1] == old(Context.current_context)"])
    POP = ["self._mode_stack == old(self._mode_stack)[:-1]", "self._context_stack == old(self._context_stack)[:-1]", "Context.current_context == old(self._context_stack[-1])", NEXT]
    errs = {"ValueError": None, "OperationalError": None}
    D = DB + OV + DIRTY
    reg.contract("Storage.__exit__", types={**st, "exc_type": "any", "exc_value": "any", "traceback": "any"}, props=["C17", "C07"], modifies=M + D + ["self._next_mode"], raises=errs,
                 requires=PRE + ["len(self._mode_stack) > 0"], exsures=POP,
                 ensures=POP + ["implies(len(old(self._mode_stack)) == 1, not self.atoms.dirty_keys and not self.shapes.dirty_keys and not self.ops.dirty_keys and not self.calls.dirty_hids)", "st_inv(self)"])
    # a block inside: `body` may do anything to the contents and raise anything, and leaves contexts as it found them
    om = reg.opaque_methods

    def body(ip, st, fv, args, kw, e):
        line = getattr(e, "lineno", None)
        b = z3.FreshConst(B, "raises")
        x, y = ip.fork(st, b, line)
        return ([ip.raise_(x, "MethodError", line)] if x is not None else []) + ([(y, T(z3.FreshConst(U, "ret"), ANY))] if y is not None else [])
    om[("ctxbody", "__call__")] = body
    RESTORED = SAME + [NEXT]
    X = dict(props=["C17"], modifies=M + D + ["self._next_mode"], raises={**errs, "MethodError": None}, exsures=RESTORED, timeout=8000)
    T0 = {"self": "cell[Storage]", "body": "opaque[ctxbody]", "mode": "str"}
    START = PRE + [NEXT]
    reg.lemma("lemma.context_restores", """
def f(self, body, mode):
    with self(mode):
        m = self.mode
        s = Context.current_context.storage
        body()
    return m == mode and s is self
""", types=T0, returns="bool", requires=START, ensures=["result"] + RESTORED, **X)
    reg.lemma("lemma.noop_restores", """
def f(self, body):
    with self:
        with noop():
            m = self.mode
            s = Context.current_context.storage
            body()
        after = self.mode
    return m == 'noop' and s is self and after == 'run'
""", types={"self": T0["self"], "body": T0["body"]}, returns="bool", requires=START + ["len(self._mode_stack) == 0"], ensures=["result"] + RESTORED, inline=["Storage.__enter__", "Storage.__exit__"], **X)
    reg.lemma("lemma.noop_outside", """
def f(body):
    with noop():
        return body()
""", types={"body": T0["body"]}, returns="any", requires=["Context.current_context is None"], raises={"MethodError": None}, ensures=["Context.current_context is None"], exsures=["Context.current_context is None"], props=["C17"])
    # outside any context an op is the plain function
    def ufn(ip, st, fv, args, kw, e):
        if set(kw) != {"k"} or len(args) != 2:
            ip.oblig(st, f"{ip.target}: the function gets the caller's arguments", z3.BoolVal(False))
            return [(st, None)]
        b = z3.FreshConst(B, "raises")
        x, y = ip.fork(st, b, getattr(e, "lineno", None))
        r = T(pure("userfn", [U, U, U], U)(term(args[0], U), term(args[1], U), term(kw["k"], U)), ANY)
        return ([ip.raise_(x, "MethodError", getattr(e, "lineno", None))] if x is not None else []) + ([(y, r)] if y is not None else [])
    om[("userfn", "__call__")] = ufn
    reg.builtins["userfn"] = lambda ip, st, args, kw, e: [(st, T(pure("userfn", [U, U, U], U)(*[term(a, U) for a in args]), ANY))]
    reg.cls("noop", fields={})
    reg.cls("Op:fn", fields={"f": "opaque[userfn]"})
    reg.lemma("lemma.op_outside_context", "def f(op, a, b, c):\n    return op(a, b, k=c)\n", types={"op": "cell[Op:fn]", "a": "any", "b": "any", "c": "any"}, returns="any", requires=["Context.current_context is None"],
              raises={"MethodError": None}, ensures=["result == userfn(a, b, c)"], props=["C17"])


def outputs(reg):
    """C04: outputs keep position and name"""
    i = z3.Const("i!oname", I)
    onm = fstr_fn("output_{}", [I])
    last = pure("str_split_at", [U, U, I], U)(onm(i), lit("_"), pure("str_split_len", [U, U], I)(onm(i), lit("_")) - 1)
    theory.register(["str_split_at", "str_split_len", "fstr!output_{}", "py_int"], z3.ForAll([i], pure("py_int", [U], I)(last) == i, patterns=[onm(i)]))
    txt = fstr_fn("{}", [I])
    theory.register(["fstr!{}", "py_int"], z3.ForAll([i], pure("py_int", [U], I)(txt(i)) == i, patterns=[txt(i)]))
    reg.trust("decimal text of integers", "the text of an integer holds no underscore and int() reads it back")
    reg.cls("Signature", kind="term", fields={"return_annotation": "any"})
    reg.cls("Annotation", kind="term", fields={"__origin__": "any", "__args__": "list[any]"})
    reg.duck["__origin__"] = reg.duck["__args__"] = "Annotation"
    reg.duck["return_annotation"] = "Signature"
    reg.cls("Op:generic", fields={"output_names": "none"})
    reg.cls("Op:named", fields={"output_names": "list[str]"})
    reg.lemma("lemma.output_name_roundtrip", "def f(i):\n    return parse_output_name(dump_output_name(i))\n", types={"i": "int"}, returns="int", props=["C04"], mod="mandala.utils", ensures=["result == i"])
    reg.lemma("lemma.output_names_distinct", "def f(i, j):\n    return dump_output_name(i) == dump_output_name(j)\n", types={"i": "int", "j": "int"}, returns="bool", props=["C04"], mod="mandala.utils", ensures=["result == (i == j)"])
    reg.lemma("lemma.named_output", "def f(i, names):\n    return dump_output_name(i, names)\n", types={"i": "int", "names": "list[str]"}, returns="str", requires=["0 <= i"], props=["C04"], mod="mandala.utils",
              ensures=["implies(i < len(names), result == names[i])", "implies(i >= len(names), result == f'output_{i}')"])
    reg.lemma("lemma.generic_outputs_in_order", mentions=[(I, lambda c: T(onm(c), STR))], src="def f(op, d, n):\n    return op.get_ordered_outputs(d)\n", types={"op": "cell[Op:generic]", "d": "dict[str,any]", "n": "int"}, returns="vtup[any]", props=["C04"], mod="mandala.utils",
              requires=["len(d) == n", "forall('str', lambda k: implies(k in d, exists('int', lambda i: 0 <= i and i < n and k == f'output_{i}')))",
                        "forall('int', lambda i: implies(0 <= i and i < n, f'output_{i}' in d))"],
              ensures=["len(result) == n", "forall('int', lambda i: implies(0 <= i and i < n, result[i] == d[f'output_{i}']))"])
    A = {"sig": "any", "returns": "vtup[any]"}
    ty = ["implies(sig.return_annotation is not inspect._empty, hasattr(sig.return_annotation, '__origin__'))"]
    for nm, pt, nout, names, req, n, exc in (
            ("auto_tuple", {}, "'auto'", "None", [], "len(returns)", None),
            ("var", {}, "'var'", "None", [], "len(returns)", None),
            ("counted", {"n": "int"}, "n", "None", [], "n", "len(returns) != n"),
            ("auto_named", {"names": "list[str]"}, "'auto'", "names", [], "len(names)", "len(returns) != len(names)")):
        reg.lemma(f"lemma.parse_returns_{nm}", f"def f(sig, returns, {', '.join(pt)}):\n    return parse_returns(sig, returns, {nout}, {names})[0]\n", types={**A, **pt}, returns="dict[str,any]", props=["C04"], inline=["parse_returns"], mod="mandala.utils",
                  requires=["sig.return_annotation is inspect._empty"] + (["forall('int,int', lambda i, j: implies(0 <= i and i < len(names) and 0 <= j and j < len(names) and names[i] == names[j], i == j))"] if names != "None" else []),
                  raises={"AssertionError": exc} if exc else {},
                  ensures=[f"forall('int', lambda i: implies(0 <= i and i < {n}, " + (f"f'output_{{i}}' in result and result[f'output_{{i}}'] == returns[i]" if names == "None" else "names[i] in result and result[names[i]] == returns[i]") + "))",
                           f"forall('str', lambda k: implies(k in result, exists('int', lambda i: 0 <= i and i < {n} and k == " + ("f'output_{i}'" if names == "None" else "names[i]") + ")))"])
    reg.lemma("lemma.parse_returns_single", "def f(sig, value):\n    return parse_returns(sig, value, 'auto', None)[0]\n", types={"sig": "any", "value": "any"}, returns="dict[str,any]", props=["C04"], inline=["parse_returns"], mod="mandala.utils",
              requires=["sig.return_annotation is inspect._empty", "not isinstance(value, tuple)"], ensures=["result['output_0'] == value", "forall('str', lambda k: (k in result) == (k == 'output_0'))"])
    for nd in ("n", "'var'"):
        reg.lemma(f"lemma.parse_returns_{'counted' if nd == 'n' else 'var'}_single", f"def f(sig, value, n):\n    return parse_returns(sig, value, {nd}, None)\n", types={"sig": "any", "value": "any", "n": "int"}, props=["C04"], inline=["parse_returns"], mod="mandala.utils",
                  requires=["not isinstance(value, tuple)"], raises={"AssertionError": "True"}, ensures=["False"])
    src = "def f(sig, returns):\n    return parse_returns(sig, returns, 'auto', None)[1]\n"
    ann = "sig.return_annotation"
    reg.lemma("lemma.parse_returns_annotated", src, types=A, returns="dict[str,any]", props=["C04"], inline=["parse_returns"], mod="mandala.utils",
              requires=[f"{ann} is not inspect._empty", f"hasattr({ann}, '__origin__')", f"{ann}.__origin__ is tuple", f"len({ann}.__args__) == len(returns)", f"not (len({ann}.__args__) == 2 and {ann}.__args__[1] == Ellipsis)"],
              ensures=[f"forall('int', lambda i: implies(0 <= i and i < len(returns), f'output_{{i}}' in result and result[f'output_{{i}}'] == {ann}.__args__[i]))"])
    reg.lemma("lemma.parse_returns_ellipsis", src, types=A, returns="dict[str,any]", props=["C04"], inline=["parse_returns"], mod="mandala.utils",
              requires=[f"{ann} is not inspect._empty", f"hasattr({ann}, '__origin__')", f"{ann}.__origin__ is tuple", f"len({ann}.__args__) == 2 and {ann}.__args__[1] == Ellipsis"],
              ensures=[f"forall('int', lambda i: implies(0 <= i and i < len(returns), f'output_{{i}}' in result and result[f'output_{{i}}'] == {ann}.__args__[0]))"])
    reg.lemma("lemma.named_outputs_in_order", "def f(op, d):\n    return op.get_ordered_outputs(d)\n", types={"op": "cell[Op:named]", "d": "dict[str,any]"}, returns="vtup[any]", props=["C04"],
              requires=["forall('int', lambda i: implies(0 <= i and i < len(op.output_names), op.output_names[i] in d))"],
              ensures=["len(result) == len(op.output_names)", "forall('int', lambda i: implies(0 <= i and i < len(result), result[i] == d[op.output_names[i]]))"])
