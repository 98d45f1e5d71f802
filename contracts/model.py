"""Contracts of mandala/model.py and the small helpers of utils.py."""
from pyver.core import *
import z3


def layouts(reg):
    reg.cls("Ref", kind="term", fields={"cid": "str", "hid": "str", "in_memory": "bool", "obj": "any"})
    for c in ("AtomRef", "ListRef", "DictRef", "SetRef"):
        reg.cls(c, kind="term", fields={}, bases=["Ref"])
    reg.cls("_Ignore", kind="term", fields={"value": "any"})
    reg.cls("_NewArgDefault", kind="term", fields={}, bases=["_Ignore"])
    reg.cls("ValuePointer", kind="term", fields={"id": "str", "obj": "any"})
    reg.cls("Op", kind="term", fields={"name": "str", "nout": "any", "version": "any", "f": "any", "__structural__": "bool"})
    reg.cls("Call", kind="term", fields={"op": "obj[Op]", "cid": "str", "hid": "str", "inputs": "dict[str,obj[Ref]]",
                                         "outputs": "dict[str,obj[Ref]]", "semantic_version": "any", "content_version": "any"})


def install(reg):
    layouts(reg)
    hashing(reg)
    call_ids(reg)
    wrapping(reg)
    reg.builtins["time.time"] = lambda ip, st, args, kw, e: [(st, ip.fresh(REAL, "now", st))]
    reg.trust("logging, tqdm, time", "have no effect on the verified state")


def hashing(reg):
    from pyver.lib import content_hash
    from pyver import theory
    reg.models["get_content_hash"] = content_hash
    reg.models["mandala.utils.get_content_hash"] = content_hash
    x = z3.Const("x!hash", U)
    theory.register(["content_hash"], z3.ForAll([x], z3.Function("content_unhash", U, U)(pure("content_hash", [U], U)(x)) == x))
    reg.trust("get_content_hash", "deterministic, depends on the content only, and injective: equal hashes mean equal contents (dicts compare by key, lists by position)")


def call_ids(reg):
    """C01: ids are equal exactly when what was called is equal"""
    reg.spec('''
def hashed(ins, k):
    """input k takes part in the call's identity"""
    return k in ins and not isinstance(ins[k].obj, _Ignore)
def same_by_hid(a, b):
    return forall('str', lambda k: hashed(a, k) == hashed(b, k) and implies(hashed(a, k), a[k].hid == b[k].hid))
def same_by_cid(a, b):
    return forall('str', lambda k: hashed(a, k) == hashed(b, k) and implies(hashed(a, k), a[k].cid == b[k].cid))
''')
    D = "dict[str,obj[Ref]]"
    T2 = {"op1": "obj[Op]", "op2": "obj[Op]", "a": D, "b": D, "va": "any", "vb": "any"}
    same_op = "op1.name == op2.name and op1.version == op2.version and va == vb"
    reg.lemma("lemma.call_history_ids", """
def ids(op1, op2, a, b, va, vb):
    return op1.get_call_history_id(a, va) == op2.get_call_history_id(b, semantic_version=vb)
""", types=T2, returns="bool", props=["C01"], ensures=[f"result == ({same_op} and same_by_hid(a, b))"])
    reg.lemma("lemma.call_content_ids", """
def ids(op1, op2, a, b, va, vb):
    return op1.get_call_content_id(a, va) == op2.get_call_content_id(b, semantic_version=vb)
""", types=T2, returns="bool", props=["C01"], ensures=[f"result == ({same_op} and same_by_cid(a, b))"])
    reg.lemma("lemma.pre_call_ids", """
def ids(op1, op2, a, b):
    return op1.get_pre_call_id(a) == op2.get_pre_call_id(b)
""", types={k: T2[k] for k in ("op1", "op2", "a", "b")}, returns="bool", props=["C01", "C16"], ensures=["result == (op1.name == op2.name and same_by_cid(a, b))"])
    reg.contract("Op.get_output_history_ids", types={"self": "obj[Op]", "call_history_id": "str", "output_names": "list[str]"}, returns="dict[str,str]", props=["C01", "C04"],
                 ensures=["forall('str', lambda k: (k in result) == (k in output_names))", "forall('str', lambda k: implies(k in result, result[k] == out_hid(call_history_id, k)))"])
    reg.builtins["out_hid"] = lambda ip, st, args, kw, e: reg.models["get_content_hash"](ip, st, [Tup(args)], {}, e)
    reg.lemma("lemma.output_ids", """
def ids(op1, op2, h1, h2, n1, n2, i, j):
    return op1.get_output_history_ids(h1, n1)[i] == op2.get_output_history_ids(h2, n2)[j]
""", types={"op1": "obj[Op]", "op2": "obj[Op]", "h1": "str", "h2": "str", "n1": "list[str]", "n2": "list[str]", "i": "str", "j": "str"}, returns="bool", props=["C01"],
              requires=["i in n1", "j in n2"], ensures=["result == (h1 == h2 and i == j)"])


def wrapping(reg):
    """C10: refs keep ids and values"""
    reg.builtins["chash"] = lambda ip, st, args, kw, e: reg.models["get_content_hash"](ip, st, args, kw, e)
    reg.contract("wrap_atom", types={"obj": "any", "history_id": "any"}, returns="obj[AtomRef]", props=["C10", "C01"],
                 requires=["history_id is None or isinstance(history_id, str)", "obj.id is not None and obj.id != '' if isinstance(obj, ValuePointer) else True"],
                 raises={"ValueError": "isinstance(obj, Ref) and not isinstance(obj, AtomRef)", "AssertionError": "isinstance(obj, AtomRef) and history_id is not None"},
                 ensures=["implies(isinstance(obj, Ref), result == obj)",
                          "implies(not isinstance(obj, Ref) and not isinstance(obj, ValuePointer), result.cid == chash(obj) and result.obj == obj and result.in_memory and implies(history_id is None, result.hid == chash(chash(obj))) and implies(history_id is not None, result.hid == history_id))"])
    for nm, extra, obj, mem in (("with_hid", {"hid": "str"}, "self.obj", "self.in_memory"), ("detached", {}, "None", "False"), ("attached", {"obj": "any"}, "obj", "True"), ("shallow_copy", {}, "self.obj", "self.in_memory")):
        for c in ("AtomRef", "ListRef", "DictRef"):
            reg.lemma(f"lemma.{c}.{nm}", f"def f(self, {', '.join(extra)}):\n    return self.{nm}({', '.join(extra)})\n", types={"self": f"obj[{c}]", **extra}, returns=f"obj[{c}]", props=["C10"],
                      ensures=["result.cid == self.cid", "result.hid == " + ("hid" if nm == "with_hid" else "self.hid"), f"result.obj == {obj}", f"result.in_memory == {mem}",
                               "self.cid == old(self.cid) and self.hid == old(self.hid) and self.obj == old(self.obj) and self.in_memory == old(self.in_memory)"])
