"""Contracts of mandala/storage.py (and the transaction decorator): transactions, commits, deletion, refs, memoization."""
from pyver.core import *
from pyver.interp import close, Exc
import z3


def install(reg):
    layouts(reg)
    transactions(reg)
    commits(reg)


def layouts(reg):
    CD = "cell[CachedDictStorage]"
    reg.cls("Storage", fields={"db": "cell[DBAdapter]", "atoms": CD, "shapes": CD, "ops": CD, "sources": CD, "calls": "cell[CachedCallStorage]", "_versioned": "bool",
                            "_mode_stack": "list[str]", "_context_stack": "list[any]", "_next_mode": "str", "_allow_new_calls": "bool", "cached_versioner": "any", "code_state": "any", "_exit_hooks": "list[any]"},
            alias={"call_cache": "calls.cache", "call_storage": "calls.persistent"})
    reg.optnone += [f".{x}.persistent.overflow_storage" for x in ("shapes", "ops", "sources")]
    reg.trust("Storage overflow", "only the atoms store has an overflow store (set so in __init__)")
    reg.trust("Storage aliases", "call_cache is calls.cache and call_storage is calls.persistent (set so in __init__, never rebound)")
    reg.spec('''
def st_inv(s):
    return cd_inv(s.atoms) and cd_inv(s.shapes) and cd_inv(s.ops) and cc_inv(s.calls)
''')


DB = [f"self.{x}.persistent.rows" for x in ("atoms", "shapes", "ops", "sources", "calls")]
OV = [f"self.{x}.persistent.overflow_storage.files" for x in ("atoms", "shapes", "ops", "sources")]
DIRTY = ["self.atoms.dirty_keys", "self.shapes.dirty_keys", "self.ops.dirty_keys", "self.calls.dirty_hids"]


def commits(reg):
    st = {"self": "cell[Storage]"}
    reg.contract("Storage.commit", types=st, props=["C07"], requires=["st_inv(self)", "implies(self._versioned, 'versioner' in self.sources.cache)"],
                 modifies=DB + OV + DIRTY, raises={"ValueError": None, "OperationalError": None},
                 faults=["CachedDictStorage.commit", "SQLiteDictStorage.set", "CachedCallStorage.commit", "commit"],
                 exsures=[f"{x} == old({x})" for x in DB + DIRTY],
                 ensures=["st_inv(self)", *[f"not {x}" for x in DIRTY],
                          *[f"forall('str', lambda k: d_has(self.{x}.persistent, k) == (old(d_has(self.{x}.persistent, k)) or k in old(self.{x}.dirty_keys)))" for x in ("atoms", "shapes", "ops")],
                          "forall('str', lambda h: r_has(self.calls.persistent.rows, h) == (old(r_has(self.calls.persistent.rows, h)) or h in old(self.calls.dirty_hids)))"])


def transactions(reg):
    """C07: a database with committed (`saved`) and connection-local (`data`) content, driven by the real wrapper"""
    reg.cls("TxOwner", fields={"mem": "bool", "intx": "bool", "saved": "any", "data": "any", "runs": "int", "begun": "int", "committed": "int",
                               "rolled": "int", "start": "any", "last": "any", "res": "any"})

    def get(ip, st, o):
        return dict(ip.deref(st, o).fields)

    def put(ip, st, o, **kw):
        f = get(ip, st, o)
        f.update(kw)
        st.heap[o.root] = ObjC("TxOwner", f)

    def bump(ip, v):
        return T(term(v, I) + 1, INT)

    def fork(ip, st, n, line):
        """n+1 copies of st"""
        out = []
        for _ in range(n):
            b = z3.FreshConst(B, "choice")
            x, st = ip.fork(st, b, line)
            out.append(x)
        return out + [st]

    def conn(ip, st, args, kw, e):
        o = args[0]
        f = get(ip, st, o)
        # a file database hands out a fresh connection (no transaction, committed content); an in-memory one its only connection
        put(ip, st, o, intx=ite(term(f["mem"]), f["intx"], False), data=ite(term(f["mem"]), f["data"], f["saved"]))
        return [(st, Opaque("txconn", owner=o))]
    reg.models["TxOwner.conn"] = conn
    om = reg.opaque_methods

    def execute(ip, st, c, args, kw, e):
        line = getattr(e, "lineno", None)
        txt = args[0]
        if not isinstance(txt, str):
            raise Unsup("SQL in the transaction wrapper")
        if not txt.strip().upper().startswith("BEGIN"):
            raise Unsup(f"statement {txt!r} in the transaction wrapper")
        f = get(ip, st, c.owner)
        a, b = fork(ip, st, 1, line)
        out = [ip.raise_(a, "OperationalError", line)]       # locked by somebody else
        x, y = ip.fork(b, term(f["intx"]), line)
        if x is not None:
            out.append(ip.raise_(x, "OperationalError", line))
        if y is not None:
            put(ip, y, c.owner, intx=True, begun=bump(ip, f["begun"]), data=f["saved"])
            out.append((y, Opaque("cursor", it=None, count=None)))
        return out
    om[("txconn", "execute")] = execute

    def commit(ip, st, c, args, kw, e):
        f = get(ip, st, c.owner)
        put(ip, st, c.owner, saved=f["data"], intx=False, committed=bump(ip, f["committed"]))
        return [(st, None)]

    def rollback(ip, st, c, args, kw, e):
        f = get(ip, st, c.owner)
        put(ip, st, c.owner, data=f["saved"], intx=False, rolled=bump(ip, f["rolled"]))
        return [(st, None)]
    om[("txconn", "commit")], om[("txconn", "rollback")] = commit, rollback

    def cclose(ip, st, c, args, kw, e):
        f = get(ip, st, c.owner)
        put(ip, st, c.owner, data=f["saved"], intx=False)
        return [(st, None)]
    om[("txconn", "close")] = cclose

    def txmethod(ip, st, fv, args, kw, e):
        """the decorated method: writes anything through the connection it is given, returns anything or raises anything"""
        line = getattr(e, "lineno", None)
        o = args[0]
        k = kw.get("conn")
        bad = [a for a in args[1:] if not isinstance(a, T)] or [x for x in kw if x not in ("conn",)]
        f = get(ip, st, o)
        if not (isinstance(k, Opaque) and k.kind in ("txconn", "givenconn")) or bad or len(args) != 2:
            ip.oblig(st, f"{ip.target}: the method is called with its own arguments and a connection", z3.BoolVal(False))
            return [(st, None)]
        ip.oblig(st, f"{ip.target}: the method is called with the caller's arguments", eqf(args[1], ip.entry_state.envs[ip.entry_state.cur]["a"]))
        d = T(z3.FreshConst(U, "written"), ANY)
        r = T(z3.FreshConst(U, "ret"), ANY)
        put(ip, st, o, runs=bump(ip, f["runs"]), start=f["data"], data=d, last=d, res=r)
        out = []
        xs = fork(ip, st, 4, line)
        for s, ex in zip(xs, ("OperationalError", "MethodError", "IntegrityError", "KeyboardInterrupt")):
            out.append(ip.raise_(s, ex, line))
        return out + [(xs[-1], r)]
    om[("txmethod", "__call__")] = txmethod
    reg.models["is_in_memory_db"] = lambda ip, st, args, kw, e: [(st, get(ip, st, args[0].owner)["mem"])]
    reg.models["mandala.storage_utils.is_in_memory_db"] = reg.models["is_in_memory_db"]
    reg.trust("is_in_memory_db", "recognises the connection of an in-memory database")
    reg.builtins["time.sleep"] = lambda ip, st, args, kw, e: [(st, None)]
    TX = {"self": "cell[TxOwner]", "method": "opaque[txmethod]", "a": "any", "conn": "opaque[givenconn]"}
    idle = ["not self.intx", "self.data == self.saved"]
    M = ["self." + x for x in ("intx", "saved", "data", "runs", "begun", "committed", "rolled", "start", "last", "res")]
    src = "def tx(self, method, a, conn):\n    return transaction(method)(self, a{})\n"
    errs = {"OperationalError": None, "MethodError": None, "IntegrityError": None, "KeyboardInterrupt": None}
    LP = ["not self.intx", "self.data == self.saved", "self.saved == old(self.saved)", "self.committed == old(self.committed)", "self.runs >= old(self.runs)"]
    done = ["result == self.res", "self.saved == self.last", "self.start == old(self.saved)", "not self.intx", "self.data == self.saved",
            "self.committed == old(self.committed) + 1", "self.runs >= old(self.runs) + 1"]
    undone = ["self.saved == old(self.saved)", "self.data == old(self.saved)", "not self.intx", "self.committed == old(self.committed)"]
    for nm, ext in (("without", ""), ("none", ", conn=None")):
        reg.lemma(f"lemma.transaction_{nm}_connection", src.format(ext), types=TX, returns="any", requires=idle, raises=errs, modifies=M, ensures=done, exsures=undone, loops=LP, props=["C07"])
    reg.lemma("lemma.transaction_folded", src.format(", conn=conn"), types=TX, returns="any", raises=errs, modifies=["self." + x for x in ("data", "runs", "start", "last", "res")], props=["C07"],
              ensures=["result == self.res", "self.runs == old(self.runs) + 1", "self.data == self.last", "self.start == old(self.data)"],
              exsures=["self.runs == old(self.runs) + 1", "self.data == self.last"])
    reg.lemma("lemma.transaction_nested", src.format(""), types=TX, returns="any", requires=["self.intx", "self.mem"], raises={"OperationalError": "True"},
              exsures=["self.runs == old(self.runs)"], modifies=M, loops=["self.intx", "self.saved == old(self.saved)", "self.data == old(self.data)", "self.runs == old(self.runs)"], ensures=["False"], props=["C07"])
