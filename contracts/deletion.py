"""C09: contracts of dropping calls and cleaning up refs (mandala/storage.py)."""
from contracts.storage_utils import REC


def install(reg):
    PERS = "self.calls.persistent.rows"
    CACHE = "self.calls.cache.df.rows"
    HIDS = "self.calls.cache.call_hids"
    DIRTY = "self.calls.dirty_hids"
    M = [PERS, "self.calls.cache.df", CACHE, HIDS, DIRTY]
    SAME = [f"forall('str,str', lambda h, n: implies((h, n) in {t}, {t}[(h, n)] == old({t})[(h, n)]))" for t in (PERS, CACHE)]
    SETS = lambda g: [f"forall('str', lambda h: (h in {x}) == (h in old({x}) and not {g}))" for x in (HIDS, DIRTY)]
    GONE = lambda t, g: f"forall('str,str', lambda h, n: ((h, n) in {t}) == ((h, n) in old({t}) and not {g}))"
    T0 = {"self": "cell[Storage]"}
    # first loop: the cache; second loop: the database
    LOOPS = ["cc_inv(self.calls)"] + SAME + [GONE(CACHE, "done(h)"), *SETS("done(h)"), GONE(PERS, "done(h)")]
    for nm, ty, gone in (("hids", "list[str]", "h in given"), ("calls", "list[obj[Call]]", "exists('int', lambda i: 0 <= i and i < len(given) and given[i].hid == h)")):
        reg.lemma(f"lemma.drop_{nm}", "def f(self, given):\n    self.drop_calls(given, delete_dependents=False)\n", types={**T0, "given": ty}, props=["C09"], manual=True,
                  requires=["cc_inv(self.calls)"], modifies=M, loops=LOOPS, ensures=["cc_inv(self.calls)"] + SAME + SETS(gone) + [GONE(CACHE, gone), GONE(PERS, gone)])
    CL = [f"use_closed({t}, R, C)" for t in (PERS, CACHE)]
    LEFT = [f"forall('str,str', lambda h, n: ((h, n) in {t}) == ((h, n) in old({t}) and cc_has(self.calls, h)))" for t in (PERS, CACHE)]
    FOLLOW = [f"forall('str,str,str,str', lambda h, n, k, m: implies((h, n) in old({a}) and old({a})[(h, n)][0] == 'out' and (k, m) in old({b}) and old({b})[(k, m)][0] == 'in' and old({a})[(h, n)][3] == old({b})[(k, m)][3] and not cc_has(self.calls, h), not cc_has(self.calls, k)))" for a in (PERS, CACHE) for b in (PERS, CACHE)]
    reg.lemma("lemma.drop_dependents", "def f(self, given):\n    self.drop_calls(given, delete_dependents=True)\n", types={**T0, "given": "list[str]", "R": "set[str]", "C": "set[str]"}, props=["C09"], manual=True,
              requires=["cc_inv(self.calls)", *CL, "forall('str', lambda h: implies(h in given, h in C))"], modifies=M,
              loops=LOOPS + ["forall('str', lambda h: implies(h in given, h in hids))", "forall('str', lambda h: implies(h in hids, h in C))", "forall('str', lambda r: implies(r in ref_hids, r in R))"],
              ensures=["cc_inv(self.calls)"] + SAME + LEFT + FOLLOW + ["forall('str', lambda h: implies(h in given, not cc_has(self.calls, h)))",
                       "forall('str', lambda h: implies(h not in C, cc_has(self.calls, h) == old(cc_has(self.calls, h))))"])
    reg.lemma("lemma.drop_then_commit", "def f(self, given):\n    self.drop_calls(given, delete_dependents=False)\n    self.calls.commit()\n", types={**T0, "given": "list[str]"}, props=["C09"], manual=True,
              requires=["cc_inv(self.calls)"], modifies=M, loops=LOOPS, ensures=["forall('str', lambda h: cc_has(self.calls, h) == (old(cc_has(self.calls, h)) and h not in given))", "not self.calls.dirty_hids"])
    cleanup(reg)


def cleanup(reg):
    CACHES = ["self.shapes.cache"]
    INV = ["cd_inv(self.shapes)"]
    reg.spec('''
def is_elt(v, b):
    """b is the history id of an element of the collection v"""
    return ((isinstance(v, ListRef) and exists('int', lambda i: 0 <= i and i < len(as_ref(v).obj) and as_ref(as_ref(v).obj[i]).hid == b))
        or (isinstance(v, DictRef) and exists('str', lambda k: k in as_ref(v).obj and as_ref(as_ref(v).obj[k]).hid == b)))
def needs(s, a, b):
    """the stored ref a is a collection with the element b"""
    return d_has(s.shapes.persistent, a) and is_elt(d_val(s.shapes.persistent, a), b)
def all_elts(s, a, S):
    return forall('str', lambda b: implies(needs(s, a, b), b in S))
def mentioned(s, r):
    return exists('str,str', lambda h, n: (h, n) in s.calls.persistent.rows and s.calls.persistent.rows[(h, n)][3] == r)
''')
    INV.append("forall('str', lambda k: implies(d_has(self.shapes.persistent, k) and (isinstance(d_val(self.shapes.persistent, k), ListRef) or isinstance(d_val(self.shapes.persistent, k), DictRef)), as_ref(d_val(self.shapes.persistent, k)).in_memory))")
    reg.duck["hid"] = reg.duck["cid"] = "Ref"
    reg.contract("ListRef.__getitem__", types={"self": "obj[ListRef]", "i": "int"}, returns="any", assumed=True)
    reg.contract("Storage.get_orphans", types={"self": "cell[Storage]", "K": "set[str]"}, returns="set[str]", props=["C09"], requires=INV + ["forall('str', lambda r: implies(mentioned(self, r), r in K))", "forall('str', lambda a: implies(a in K, all_elts(self, a, K)))"],
                 raises={"NotImplementedError": "Context.current_context is not None"}, modifies=CACHES, manual=True,
                 loops=INV + ["forall('str', lambda r: implies(r in needed_hids, r in K))", "forall('str', lambda r: implies(r in queue, d_has(self.shapes.persistent, r)))", "forall('str', lambda r: implies(mentioned(self, r), r in needed_hids))", "forall('str', lambda r: implies(r in queue, r in needed_hids))", "forall('str', lambda r: implies(r in needed_hids and r not in queue, all_elts(self, r, needed_hids)))"],
                 ensures=INV + ["forall('str', lambda r: implies(r in result, d_has(self.shapes.persistent, r) and not mentioned(self, r)))", "forall('str', lambda a: forall('str', lambda b: implies(d_has(self.shapes.persistent, a) and a not in result and needs(self, a, b), b not in result)))", "forall('str', lambda r: implies(d_has(self.shapes.persistent, r) and r not in K, r in result))"])
    reg.spec('''
def cid_used(s, c):
    return (exists('str,str', lambda h, n: (h, n) in s.calls.persistent.rows and s.calls.persistent.rows[(h, n)][2] == c)
        or exists('str', lambda k: d_has(s.shapes.persistent, k) and as_ref(d_val(s.shapes.persistent, k)).cid == c))
''')
    INVA = INV + ["cd_inv(self.atoms)"]
    reg.contract("Storage.get_unreferenced_cids", types={"self": "cell[Storage]"}, returns="set[str]", props=["C09"], requires=INVA,
                 raises={"NotImplementedError": "Context.current_context is not None"},
                 ensures=["forall('str', lambda c: (c in result) == (d_has(self.atoms.persistent, c) and not cid_used(self, c)))"])
    SAMEV = lambda x: [f"forall('str', lambda k: implies(d_has(self.{x}.persistent, k), old(d_has(self.{x}.persistent, k)) and d_val(self.{x}.persistent, k) == old(d_val(self.{x}.persistent, k))))"]
    reg.contract("Storage.cleanup_refs", types={"self": "cell[Storage]", "K": "set[str]"}, props=["C09"],
                 requires=INVA + ["forall('str', lambda r: implies(mentioned(self, r), r in K))", "forall('str', lambda a: implies(a in K, all_elts(self, a, K)))"],
                 raises={"NotImplementedError": "Context.current_context is not None"}, modifies=["self.shapes", "self.atoms"], manual=True,
                 loops=INVA + SAMEV("shapes") + SAMEV("atoms") + [f"forall('str', lambda k: d_has(self.{x}.persistent, k) == (old(d_has(self.{x}.persistent, k)) and not done(k)))" for x in ("shapes", "atoms")],
                 ensures=INVA + SAMEV("shapes") + SAMEV("atoms") + ["forall('str', lambda r: implies(old(d_has(self.shapes.persistent, r)) and r not in K, not d_has(self.shapes.persistent, r)))",
                   "forall('str', lambda r: implies(old(d_has(self.shapes.persistent, r)) and mentioned(self, r), d_has(self.shapes.persistent, r)))",
                   "forall('str', lambda a: forall('str', lambda b: implies(old(d_has(self.shapes.persistent, a) and d_has(self.shapes.persistent, b) and needs(self, a, b)) and d_has(self.shapes.persistent, a), d_has(self.shapes.persistent, b))))",
                   "forall('str', lambda c: implies(old(d_has(self.atoms.persistent, c)) and cid_used(self, c), d_has(self.atoms.persistent, c)))", "forall('str', lambda c: implies(d_has(self.atoms.persistent, c), old(d_has(self.atoms.persistent, c)) and cid_used(self, c)))"])
