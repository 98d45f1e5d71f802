"""C02: contracts of saving, looking up and running calls (mandala/storage.py)."""
from pyver.core import *
from pyver import theory
import z3


CACHES = ["self.shapes.cache", "self.atoms.cache", "self.ops.cache"]
KEEP = [f"forall('str', lambda k: cd_has(self.{x}, k) == old(cd_has(self.{x}, k)) and implies(cd_has(self.{x}, k), cd_val(self.{x}, k) == old(cd_val(self.{x}, k))))" for x in ("shapes", "atoms", "ops")]
FOUND = "(cc_has(self.calls, {h}) or r_hasc(self.calls.cache.df.rows, {c}) or r_hasc(self.calls.persistent.rows, {c}))"


def install(reg):
    saving(reg)
    lookup(reg)
    running(reg)


def saving(reg):
    """values are content-addressed: the value stored under a content id is the one with that hash"""
    wf = pure("ref_tree", [U], B)
    r = z3.Const("r!tree", U)
    reg.builtins["ref_tree"] = lambda ip, st, args, kw, e: [(st, T(wf(term(args[0], U)), BOOL))]
    reg.builtins["as_ref"] = lambda ip, st, args, kw, e: [(st, T(term(args[0], U), Obj("Ref")))]
    reg.spec('''
def addressed(s):
    return forall('str', lambda k: implies(cd_has(s.atoms, k), k == chash(deser(cd_val(s.atoms, k))) and ser(deser(cd_val(s.atoms, k))) == cd_val(s.atoms, k)))
def named(s):
    """a shape is stored under its own history id"""
    return forall('str', lambda k: implies(cd_has(s.shapes, k), as_ref(cd_val(s.shapes, k)).hid == k))
def own_cid(r):
    return implies(isinstance(r, AtomRef) and r.in_memory, r.cid == chash(r.obj))
''')
    KEPT = [f"forall('str', lambda k: implies(old(cd_has(self.{x}, k)), cd_has(self.{x}, k) and cd_val(self.{x}, k) == old(cd_val(self.{x}, k))))" for x in ("shapes", "atoms")]
    W = ["self.shapes.cache", "self.shapes.dirty_keys", "self.atoms.cache", "self.atoms.dirty_keys"]
    PRE = ["cd_inv(self.shapes)", "cd_inv(self.atoms)", "addressed(self)", "named(self)"]
    POST = PRE + KEPT + ["cd_has(self.shapes, ref.hid)", "implies(not old(cd_has(self.shapes, ref.hid)), as_ref(cd_val(self.shapes, ref.hid)).cid == ref.cid)",
                         "implies(not old(cd_has(self.shapes, ref.hid)) and isinstance(ref, AtomRef) and ref.in_memory, cd_has(self.atoms, ref.cid) and deser(cd_val(self.atoms, ref.cid)) == ref.obj)"]
    ONLY = ["forall('str', lambda k: implies(cd_has(self.shapes, k), k == ref.hid or old(cd_has(self.shapes, k))))", "forall('str', lambda k: implies(cd_has(self.atoms, k), k == ref.cid and ref.in_memory or old(cd_has(self.atoms, k))))"]
    reg.lemma("lemma.save_atom_ref", "def f(self, ref):\n    self.save_ref(ref)\n", types={"self": "cell[Storage]", "ref": "obj[AtomRef]"}, props=["C02"], requires=PRE + ["own_cid(ref)"], modifies=W, ensures=POST + ONLY, inline=["Storage.save_ref"])
    reg.contract("Storage.save_ref", types={"self": "cell[Storage]", "ref": "obj[Ref]"}, requires=PRE + ["own_cid(ref)"], modifies=W, ensures=POST, assumed=True)
    reg.trust("Storage.save_ref for list and dict refs", "recursion over nested refs: assumed to satisfy the contract proved for atoms (bounded scenarios cover them)")
    CM = ["self.calls.cache.df.rows", "self.calls.cache.call_hids", "self.calls.dirty_hids", "self.ops.cache", "self.ops.dirty_keys"]
    IO = "forall('str', lambda n: implies(n in call.{io}, cd_has(self.shapes, call.{io}[n].hid)))"
    row = "self.calls.cache.df.rows"
    reg.contract("Storage.save_call", types={"self": "cell[Storage]", "call": "obj[Call]"}, props=["C02", "C06"],
                 requires=PRE + ["cd_inv(self.ops)", "cc_inv(self.calls)", "call_ok(call)", "forall('str', lambda n: implies(n in call.inputs, own_cid(call.inputs[n])) and implies(n in call.outputs, own_cid(call.outputs[n])))"],
                 modifies=W + CM,
                 loops=PRE + KEPT + ["forall('int', lambda i: implies(0 <= i and i < len(io_refs) and done(i), cd_has(self.shapes, io_refs[i].hid)))"], manual=True,
                 ensures=PRE + KEPT + ["cd_inv(self.ops)", "cc_inv(self.calls)",
                                       "forall('str', lambda h: cc_has(self.calls, h) == (h == call.hid or old(cc_has(self.calls, h))))",
                                       f"forall('str,str', lambda h, n: ((h, n) in {row}) == ((h, n) in old({row}) or (not old(cc_has(self.calls, call.hid)) and h == call.hid and (n in call.inputs or n in call.outputs))))",
                                       f"forall('str,str', lambda h, n: implies((h, n) in {row} and h != call.hid, {row}[(h, n)] == old({row})[(h, n)]))",
                                       f"implies(not old(cc_has(self.calls, call.hid)), forall('str', lambda n: implies((call.hid, n) in {row}, {row}[(call.hid, n)] == call_row(call, n))))",
                                       *[f"implies(not old(cc_has(self.calls, call.hid)), {IO.format(io=io)})" for io in ("inputs", "outputs")],
                                       "implies(not old(cc_has(self.calls, call.hid)), cd_has(self.ops, call.op.name))"])


def lookup(reg):
    """a call is found exactly when one with its history id or content id is stored, in the cache or the database"""
    from contracts.storage_utils import REC
    INV = ["cd_inv(self.shapes)", "cd_inv(self.atoms)", "cd_inv(self.ops)"]
    names = lambda io: f"forall('str', lambda n: (n in result.{io}puts) == (n in call_data['{io}put_hids']))"
    reg.contract("Storage._get_call_from_data", types={"self": "cell[Storage]", "call_data": REC, "in_memory": "bool"}, returns="obj[Call]", assumed=True, modifies=CACHES,
                 ensures=[f"implies(old({' and '.join(INV)}), {x})" for x in INV + KEEP] + ["result is not None", "result.hid == call_data['hid']", "result.cid == call_data['cid']", names("in"), names("out")])
    reg.trust("Storage._get_call_from_data", "builds the call from its record and the stored refs (bounded scenarios cover it)")
    D = "dict[str,obj[Ref]]"
    # the ids are computed by the real functions whose meaning C01 proves
    reg.lemma("lemma.lookup_call", """
def f(self, op, inputs):
    h = op.get_call_history_id(inputs)
    c = op.get_call_content_id(inputs)
    known = self.calls.exists(h) or self.calls.exists_content(c)
    r = self.lookup_call(op, inputs)
    return h, c, known, r
""", types={"self": "cell[Storage]", "op": "cell[Op:generic]", "inputs": D}, returns="tup[str,str,bool,any]", props=["C02"], requires=INV + ["cc_inv(self.calls)"], modifies=CACHES + ["Ref.hid", "Call.hid"], raises={"KeyError": None}, budget=200,
              ensures=INV + KEEP + ["result[2] == " + FOUND.format(h="result[0]", c="result[1]"), "(result[3] is not None) == result[2]"])


def running(reg):
    """the body runs exactly when no matching call is stored"""
    INV = ["cd_inv(self.shapes)", "cd_inv(self.atoms)", "cd_inv(self.ops)"]
    reg.cls("Op:memo", fields={"output_names": "none", "f": "opaque[memofn]", "runs": "int", "__structural__": "const[False]", "nout": "any"})
    om = reg.opaque_methods

    def body(ip, st, fv, args, kw, e):
        line = getattr(e, "lineno", None)
        o = ip.entry_state.envs[ip.entry_state.cur]["op"]
        f = dict(ip.deref(st, o).fields)
        f["runs"] = T(term(f["runs"], I) + 1, INT)
        st.heap[o.root] = ObjC("Op", f)
        b = z3.FreshConst(B, "raises")
        x, y = ip.fork(st, b, line)
        return ([ip.raise_(x, "MethodError", line)] if x is not None else []) + ([(y, T(z3.FreshConst(U, "ret"), ANY))] if y is not None else [])
    om[("memofn", "__call__")] = body
    reg.builtins["inspect.signature"] = lambda ip, st, args, kw, e: [(st, T(z3.FreshConst(U, "sig"), Obj("Signature")))]
    reg.contract("Storage.construct", types={"self": "cell[Storage]", "tp": "any", "val": "any"}, returns="tup[obj[Ref],list[any]]", assumed=True, modifies=CACHES, ensures=["implies(isinstance(val, Ref), result[0] == val and len(result[1]) == 0)"])
    reg.contract("Storage.destruct", types={"self": "cell[Storage]", "ref": "any", "tp": "any"}, returns="tup[obj[Ref],list[any]]", assumed=True, modifies=CACHES)
    reg.trust("Storage.construct, Storage.destruct", "run only the built-in struct builders (no user code) and save nothing")
    reg.contract("parse_returns", types={"sig": "any", "returns": "any", "nout": "any", "output_names": "any"}, returns="tup[dict[str,any],dict[str,any]]", assumed=True, raises={"AssertionError": None}, ensures=["forall('str', lambda k: (k in result[0]) == (k in result[1]))", "forall('str', lambda k: implies(k in result[0] and isinstance(result[0][k], ValuePointer), result[0][k].id is not None and result[0][k].id != ''))"])
    reg.trust("parse_returns (in the memoization lemma)", "annotates exactly the outputs it names; C04 proves what it returns; a ValuePointer returned by the body is assumed to name something")
    reg.contract("Type.from_annotation", types={"annotation": "any"}, returns="any", assumed=True)
    D = "dict[str,obj[Ref]]"
    reg.lemma("lemma.memoized", """
def f(self, op, inputs, tps, ba):
    h = op.get_call_history_id(inputs)
    c = op.get_call_content_id(inputs)
    known = self.calls.exists(h) or self.calls.exists_content(c)
    outs, call, others = self.call_internal(op, inputs, tps, ba)
    return known, call
""", types={"self": "cell[Storage]", "op": "cell[Op:memo]", "inputs": D, "tps": "dict[str,any]", "ba": "cell[BoundArguments]"}, returns="tup[bool,any]", props=["C02", "C17"], manual=True,
              requires=["cc_inv(self.calls)", "not self._versioned", "forall('str', lambda k: implies(k in inputs, k in tps))"], modifies=CACHES + ["Ref.hid", "Call.hid", "op.runs"], budget=230,
              raises={"KeyError": None, "MethodError": None, "RuntimeError": None, "AssertionError": None},
              inline=["boundargs_to_args_kwargs", "Storage.lookup_call"], exsures=["op.runs <= old(op.runs) + 1", "implies(not self._allow_new_calls, op.runs == old(op.runs))"],
              loops=["len(input_calls) == 0", "forall('str', lambda k: implies(k in wrapped_inputs, k in storage_inputs and wrapped_inputs[k] == storage_inputs[k]))", "forall('str', lambda k: implies(done(k), k in wrapped_inputs))"],
              ensures=["op.runs == old(op.runs) + (0 if result[0] else 1)", "implies(not self._allow_new_calls, op.runs == old(op.runs))"])
