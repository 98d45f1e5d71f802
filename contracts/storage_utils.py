"""Contracts of mandala/storage_utils.py: dict storages, call storages, their caches."""
from pyver.core import *
from pyver.interp import close
import z3

ROW = "tup[str,str,str,str,str,str,str]"       # direction, call cid, ref cid, ref hid, op, semantic v., content v.
ROWS = f"dict[tup[str,str],{ROW}]"
REC = ("rec[op_name:str,cid:str,hid:str,input_hids:dict[str,str],output_hids:dict[str,str],"
       "input_cids:dict[str,str],output_cids:dict[str,str],semantic_version:str,content_version:str]")


def install(reg):
    # ------------------------------------------------------------------ ghost database
    reg.models["DBAdapter.conn"] = lambda ip, st, args, kw, e: [(st, Opaque("conn", own=True))]
    reg.cls("DBAdapter", fields={"db_path": "str"})
    reg.trust("sqlite3", "SQL statements of the modelled grammar have the relational meaning given in pyver/sqlmodel.py; "
              "distinct table names denote distinct relations; durability and isolation of committed transactions")
    reg.trust("serialize/deserialize", "deserialize(serialize(x)) == x up to observable equality; size is a function of the value")
    reg.trust("joblib files", "one file per key: dump then load gives the value back; exists/remove/listdir reflect the files present")
    reg.trust("pandas", "DataFrame.loc/query/groupby/drop/index of the modelled idioms have the relational meaning in pyver/sqlmodel.py")

    # ------------------------------------------------------------------ plain dict storages
    reg.cls("JoblibDictStorage", fields={"root": "str", "files": "dict[str,any]"})
    P = {"self": "cell[JoblibDictStorage]", "key": "str", "value": "any"}
    A = dict(assumed=True)
    reg.contract("JoblibDictStorage.get", types=P, returns="any", raises={"FileNotFoundError": "key not in self.files"},
                 ensures=["result == self.files[key]"], **A)
    reg.contract("JoblibDictStorage.exists", types=P, returns="bool", ensures=["result == (key in self.files)"], **A)
    reg.contract("JoblibDictStorage.drop", types=P, raises={"FileNotFoundError": "key not in self.files"},
                 modifies=["self.files"], ensures=["self.files == without(old(self.files), key)"], **A)
    reg.contract("JoblibDictStorage.keys", types=P, returns="list[str]",
                 ensures=["forall('str', lambda k: (k in result) == (k in self.files))"], **A)
    reg.contract("JoblibDictStorage.values", types=P, returns="list[any]", ensures=["forall('any', lambda v: (v in result) == exists('str', lambda k: k in self.files and self.files[k] == v))"], props=["C18"])
    # the write-once rule and load_all run on real bodies over the file primitives
    reg.builtins["dump"] = joblib_dump
    reg.models["JoblibDictStorage.get_path_for_key"] = lambda ip, st, args, kw, e: [(st, Opaque("jpath", owner=args[0], key=args[1]))]
    reg.contract("JoblibDictStorage.set", types=P, modifies=["self.files"],
                 ensures=["self.files == (old(self.files) if key in old(self.files) else upd(old(self.files), key, value))"], props=["C18"])
    reg.contract("JoblibDictStorage.load_all", types=P, returns="dict[str,any]", ensures=["result == self.files"], props=["C18"])

    reg.cls("SQLiteDictStorage", fields={"db": "cell[DBAdapter]", "table": "str", "overflow_storage": "optcell[JoblibDictStorage]",
                                         "overflow_threshold_MB": "real", "rows": "dict[str,any]"}, tables={"table": "rows"})
    reg.models["serialize"] = lambda ip, st, args, kw, e: [(st, T(pure("ser", [U], U)(term(ip.content(st, args[0]), U)), ANY))]
    reg.models["deserialize"] = lambda ip, st, args, kw, e: [(st, T(pure("deser", [U], U)(term(args[0], U)), ANY))]
    from pyver import theory
    x = z3.Const("x!ser", U)
    theory.register(["ser", "deser"], z3.ForAll([x], pure("deser", [U], U)(pure("ser", [U], U)(x)) == x))
    reg.spec('''
def d_has(s, k):
    """key present in the (possibly overflowing) dict storage"""
    return k in s.rows or (s.overflow_storage is not None and k in s.overflow_storage.files)
def d_val(s, k):
    """value the storage holds for key k"""
    return deser(s.rows[k]) if k in s.rows else (s.overflow_storage.files[k] if s.overflow_storage is not None else None)
def d_wo(s, key, value):
    """write-once use: keys are content addresses, a key is only ever set again to the same value"""
    return implies(d_has(s, key), d_val(s, key) == value)
def d_inv(s):
    """a key lives in exactly one of the two stores, chosen by the size of its serialized value"""
    return (forall('str', lambda k: implies(k in s.rows, not (len(s.rows[k]) / 1024 / 1024 > s.overflow_threshold_MB)))
        and forall('str', lambda k: implies(k in s.rows, ser(deser(s.rows[k])) == s.rows[k]))
        and (s.overflow_storage is None or forall('str', lambda k: implies(k in s.overflow_storage.files, k not in s.rows and len(ser(s.overflow_storage.files[k])) / 1024 / 1024 > s.overflow_threshold_MB))))
''')
    reg.builtins["deser"] = lambda ip, st, args, kw, e: [(st, T(pure("deser", [U], U)(term(args[0], U)), ANY))]
    reg.builtins["ser"] = lambda ip, st, args, kw, e: [(st, T(pure("ser", [U], U)(term(args[0], U)), ANY))]
    S = {"self": "cell[SQLiteDictStorage]", "key": "str", "value": "any"}
    reg.contract("SQLiteDictStorage.get", types=S, returns="any", props=["C18"],
                 raises={"KeyError": "not d_has(self, key) and self.overflow_storage is None",
                         "FileNotFoundError": "not d_has(self, key) and self.overflow_storage is not None"},
                 ensures=["result == d_val(self, key)"])
    reg.contract("SQLiteDictStorage.exists", types=S, returns="bool", ensures=["result == d_has(self, key)"], props=["C18"])
    big = "len(ser(value)) / 1024 / 1024 > self.overflow_threshold_MB"
    reg.contract("SQLiteDictStorage.set", types=S, props=["C18"],
                 raises={"ValueError": f"{big} and self.overflow_storage is None"}, exsures=["self.rows == old(self.rows)"],
                 modifies=["self.rows", "self.overflow_storage.files"],
                 ensures=[f"self.rows == (old(self.rows) if {big} else upd(old(self.rows), key, ser(value)))",
                          f"self.overflow_storage.files == (upd(old(self.overflow_storage.files), key, value) if {big} and key not in old(self.overflow_storage.files) else old(self.overflow_storage.files))"])
    reg.contract("SQLiteDictStorage.drop", types=S, props=["C18", "C09"], modifies=["self.rows", "self.overflow_storage.files"],
                 ensures=["self.rows == without(old(self.rows), key)",
                          "self.overflow_storage.files == without(old(self.overflow_storage.files), key)"])
    reg.contract("SQLiteDictStorage.keys", types=S, returns="list[str]", props=["C18"],
                 ensures=["forall('str', lambda k: (k in result) == d_has(self, k))"])
    reg.contract("SQLiteDictStorage.values", types=S, returns="list[any]", props=["C18", "C09"], requires=["d_inv(self)"],
                 ensures=["forall('str', lambda k: implies(d_has(self, k), d_val(self, k) in result))", "forall('any', lambda v: implies(v in result, exists('str', lambda k: d_has(self, k) and d_val(self, k) == v)))"])
    reg.contract("SQLiteDictStorage.load_all", types=S, returns="dict[str,any]", props=["C18"], requires=["d_inv(self)"],
                 ensures=["forall('str', lambda k: (k in result) == d_has(self, k))",
                          "forall('str', lambda k: implies(k in result, result[k] == d_val(self, k)))"])
    # lemma: the two stores together behave as one write-once dictionary
    reg.lemma("lemma.overflow_write", """
def overflow_write(self, key, value):
    self.set(key, value)
""", types=S, props=["C18"], requires=["d_inv(self)", "d_wo(self, key, value)"], raises={"ValueError": None},
              modifies=["self.rows", "self.overflow_storage.files"],
              ensures=["d_inv(self)", "forall('str', lambda k: d_has(self, k) == (k == key or old(d_has(self, k))))",
                       "forall('str', lambda k: implies(d_has(self, k), d_val(self, k) == (value if k == key else old(d_val(self, k)))))"])

    # ------------------------------------------------------------------ write-back dict cache
    reg.cls("CachedDictStorage", fields={"persistent": "cell[SQLiteDictStorage]", "cache": "dict[str,any]", "dirty_keys": "set[str]"})
    C = {"self": "cell[CachedDictStorage]", "key": "str", "value": "any"}
    reg.spec('''
def cd_inv(s):
    """dirty keys are cached; every clean cached value is the persisted one; a dirty key already persisted has the persisted value"""
    return (forall('str', lambda k: implies(k in s.dirty_keys, k in s.cache))
        and forall('str', lambda k: implies(k in s.cache and k not in s.dirty_keys, d_has(s.persistent, k)))
        and forall('str', lambda k: implies(k in s.cache and d_has(s.persistent, k), d_val(s.persistent, k) == s.cache[k]))
        and d_inv(s.persistent))
def cd_has(s, k):
    return k in s.cache or d_has(s.persistent, k)
def cd_val(s, k):
    return s.cache[k] if k in s.cache else d_val(s.persistent, k)
''')
    same = ["forall('str', lambda k: cd_has(self, k) == old(cd_has(self, k)))",
            "forall('str', lambda k: implies(cd_has(self, k), cd_val(self, k) == old(cd_val(self, k))))"]
    PR = ["self.persistent.rows", "self.persistent.overflow_storage.files"]
    reg.contract("CachedDictStorage.get", types=C, returns="any", props=["C05"], requires=["cd_inv(self)"], modifies=["self.cache"],
                 raises={"KeyError": "not cd_has(self, key) and self.persistent.overflow_storage is None",
                         "FileNotFoundError": "not cd_has(self, key) and self.persistent.overflow_storage is not None"},
                 ensures=["cd_inv(self)", "result == old(cd_val(self, key))"] + same)
    reg.contract("CachedDictStorage.set", types=C, props=["C05"],
                 requires=["cd_inv(self)", "implies(cd_has(self, key), cd_val(self, key) == value)"],
                 modifies=["self.cache", "self.dirty_keys"],
                 ensures=["cd_inv(self)", "key in self.dirty_keys",
                          "forall('str', lambda k: cd_has(self, k) == (k == key or old(cd_has(self, k))))",
                          "forall('str', lambda k: implies(cd_has(self, k), cd_val(self, k) == (value if k == key else old(cd_val(self, k)))))"])
    reg.contract("CachedDictStorage.exists", types=C, returns="bool", props=["C05"], ensures=["result == cd_has(self, key)"])
    reg.contract("CachedDictStorage.clear", types={**C, "allow_uncommited": "bool"}, props=["C05"], requires=["cd_inv(self)"],
                 modifies=["self.cache", "self.dirty_keys"],
                 raises={"ValueError": "len(self.dirty_keys) > 0 and not allow_uncommited"},
                 exsures=["self.cache == old(self.cache)", "self.dirty_keys == old(self.dirty_keys)"],
                 ensures=["cd_inv(self)", "not self.dirty_keys", "forall('str', lambda k: cd_has(self, k) == d_has(self.persistent, k))",
                          "implies(not old(self.dirty_keys), forall('str', lambda k: cd_has(self, k) == old(cd_has(self, k))))"])
    reg.contract("CachedDictStorage.drop", types=C, props=["C05", "C09"], requires=["cd_inv(self)"],
                 modifies=["self.cache", "self.dirty_keys"] + PR,
                 ensures=["cd_inv(self)", "forall('str', lambda k: cd_has(self, k) == (k != key and old(cd_has(self, k))))",
                          "forall('str', lambda k: d_has(self.persistent, k) == (k != key and old(d_has(self.persistent, k))))",
                          "forall('str', lambda k: implies(cd_has(self, k), cd_val(self, k) == old(cd_val(self, k))))"])
    reg.contract("CachedDictStorage.commit", types=C, props=["C05", "C07"], requires=["cd_inv(self)"],
                 raises={"ValueError": None}, modifies=["self.dirty_keys"] + PR, exsures=["self.dirty_keys == old(self.dirty_keys)"],
                 loops=["d_inv(self.persistent)", "forall('str', lambda k: d_has(self.persistent, k) == (old(d_has(self.persistent, k)) or done(k)))",
                        "forall('str', lambda k: implies(k in self.cache and d_has(self.persistent, k), d_val(self.persistent, k) == self.cache[k]))",
                        "forall('str', lambda k: implies(old(d_has(self.persistent, k)), d_val(self.persistent, k) == old(d_val(self.persistent, k))))"],
                 ensures=["cd_inv(self)", "not self.dirty_keys",
                          "forall('str', lambda k: d_has(self.persistent, k) == (old(d_has(self.persistent, k)) or k in old(self.dirty_keys)))",
                          "forall('str', lambda k: implies(k in self.cache, d_val(self.persistent, k) == self.cache[k]))"] + same)

    call_storages(reg)


def call_storages(reg):
    """ghost view of a call table: rows[(call hid, name)] = (direction, call cid, ref cid, ref hid, op, sem, content)"""
    reg.cls("InMemCallStorage", fields={"df": "cell[DataFrame]", "call_hids": "set[str]"})
    reg.cls("SQLiteCallStorage", fields={"db": "cell[DBAdapter]", "table_name": "str", "rows": ROWS}, tables={"table_name": "rows"})
    reg.cls("CachedCallStorage", fields={"persistent": "cell[SQLiteCallStorage]", "cache": "cell[InMemCallStorage]", "dirty_hids": "set[str]"})
    reg.spec('''
def r_has(rows, h):
    """the table holds a call with history id h"""
    return exists('str', lambda n: (h, n) in rows)
def r_hasc(rows, c):
    return exists('str,str', lambda h, n: (h, n) in rows and rows[(h, n)][1] == c)
def r_inv(rows):
    """the rows of one call agree on everything but name, direction and ref"""
    return forall('str,str,str', lambda h, n, m: implies((h, n) in rows and (h, m) in rows,
        rows[(h, n)][1] == rows[(h, m)][1] and rows[(h, n)][4] == rows[(h, m)][4] and rows[(h, n)][5] == rows[(h, m)][5] and rows[(h, n)][6] == rows[(h, m)][6]))
def r_dirs(rows):
    return forall('str,str', lambda h, n: implies((h, n) in rows, rows[(h, n)][0] == "in" or rows[(h, n)][0] == "out"))
def im_inv(s):
    return (forall('str', lambda h: (h in s.call_hids) == r_has(s.df.rows, h)) and r_inv(s.df.rows) and r_dirs(s.df.rows))
def call_row(call, n):
    return (("out", call.cid, call.outputs[n].cid, call.outputs[n].hid, call.op.name, call.semantic_version, call.content_version) if n in call.outputs
        else ("in", call.cid, call.inputs[n].cid, call.inputs[n].hid, call.op.name, call.semantic_version, call.content_version))
def call_ok(call):
    """a storable call: at least one input or output, and no name used for both"""
    return (exists('str', lambda n: n in call.inputs or n in call.outputs) and forall('str', lambda n: not (n in call.inputs and n in call.outputs)))
def rec_of(r, rows, h):
    """record r is exactly the call h of the table"""
    return (r["hid"] == h
        and forall('str', lambda n: (n in r["input_hids"]) == ((h, n) in rows and rows[(h, n)][0] == "in"))
        and forall('str', lambda n: (n in r["output_hids"]) == ((h, n) in rows and rows[(h, n)][0] == "out"))
        and forall('str', lambda n: (n in r["input_cids"]) == ((h, n) in rows and rows[(h, n)][0] == "in"))
        and forall('str', lambda n: (n in r["output_cids"]) == ((h, n) in rows and rows[(h, n)][0] == "out"))
        and forall('str', lambda n: implies((h, n) in rows, rows[(h, n)][1] == r["cid"] and rows[(h, n)][4] == r["op_name"]
            and rows[(h, n)][5] == r["semantic_version"] and rows[(h, n)][6] == r["content_version"]
            and implies(rows[(h, n)][0] == "in", r["input_hids"][n] == rows[(h, n)][3] and r["input_cids"][n] == rows[(h, n)][2])
            and implies(rows[(h, n)][0] == "out", r["output_hids"][n] == rows[(h, n)][3] and r["output_cids"][n] == rows[(h, n)][2]))))
''')
    I = {"self": "cell[InMemCallStorage]", "call": "obj[Call]", "hid": "str", "cid": "str"}
    IM = ["self.df.rows", "self.call_hids"]
    saved = lambda rows: [f"forall('str,str', lambda h, n: ((h, n) in {rows}) == ((h, n) in old({rows}) or (h == call.hid and (n in call.inputs or n in call.outputs))))",
                          f"forall('str,str', lambda h, n: implies((h, n) in {rows}, {rows}[(h, n)] == (call_row(call, n) if h == call.hid else old({rows})[(h, n)])))"]
    reg.contract("InMemCallStorage.save", types={k: I[k] for k in ("self", "call")}, requires=["im_inv(self)", "call_ok(call)"], modifies=IM, props=["C05", "C06"],
                 ensures=["im_inv(self)", "self.call_hids == old(self.call_hids) | {call.hid}",
                          "implies(call.hid in old(self.call_hids), self.df.rows == old(self.df.rows))",
                          *[f"implies(call.hid not in old(self.call_hids), {x})" for x in saved("self.df.rows")]])
    reg.contract("InMemCallStorage.drop", types={k: I[k] for k in ("self", "hid")}, requires=["im_inv(self)"], modifies=["self.df", "self.df.rows", "self.call_hids"], props=["C05", "C09"],
                 raises={"ValueError": "hid not in self.call_hids"}, exsures=["self.call_hids == old(self.call_hids)", "self.df.rows == old(self.df.rows)"],
                 ensures=["im_inv(self)", "self.call_hids == old(self.call_hids) - {hid}",
                          "forall('str,str', lambda h, n: ((h, n) in self.df.rows) == (h != hid and (h, n) in old(self.df.rows)))",
                          "forall('str,str', lambda h, n: implies((h, n) in self.df.rows, self.df.rows[(h, n)] == old(self.df.rows)[(h, n)]))"])
    reg.contract("InMemCallStorage.exists", types={k: I[k] for k in ("self", "hid")}, returns="bool", ensures=["result == (hid in self.call_hids)"], props=["C05", "C06"])
    reg.contract("InMemCallStorage.exists_content", types={k: I[k] for k in ("self", "cid")}, returns="bool", ensures=["result == r_hasc(self.df.rows, cid)"], props=["C05", "C06"])
    reg.contract("InMemCallStorage.get_data", types={"self": I["self"], "call_history_id": "str"}, returns=REC, requires=["im_inv(self)"], props=["C05", "C06"],
                 raises={"ValueError": "call_history_id not in self.call_hids"}, ensures=["rec_of(result, self.df.rows, call_history_id)"])
    reg.contract("InMemCallStorage.mget_data", types={"self": I["self"], "call_hids": "list[str]"}, returns=f"list[{REC}]", props=["C06"],
                 requires=["im_inv(self)", "forall('str', lambda h: implies(h in call_hids, h in self.call_hids))"],
                 manual=True,
                 loops=["forall('str', lambda h: (h in res_dict) == done(h))", "forall('str', lambda h: implies(h in res_dict, rec_of(res_dict[h], self.df.rows, h)))",
                        *[f"forall('str', lambda n: (n in {f}) == (done(hid, n) and self.df.rows[(hid, n)][0] == '{d}'))"
                          for f, d in (("input_hids", "in"), ("input_cids", "in"), ("output_hids", "out"), ("output_cids", "out"))],
                        *[f"forall('str', lambda n: implies(n in {f}, {f}[n] == self.df.rows[(hid, n)][{j}]))"
                          for f, j in (("input_hids", 3), ("input_cids", 2), ("output_hids", 3), ("output_cids", 2))]],
                 ensures=["len(result) == len(call_hids)", "forall('int', lambda i: implies(0 <= i and i < len(call_hids), rec_of(result[i], self.df.rows, call_hids[i])))"])
    reg.contract("InMemCallStorage.get_data_content", types={k: I[k] for k in ("self", "cid")}, returns=REC, requires=["im_inv(self)"], props=["C05", "C06"],
                 raises={"IndexError": "not r_hasc(self.df.rows, cid)"},
                 ensures=["r_has(self.df.rows, result['hid'])", "rec_of(result, self.df.rows, result['hid'])", "result['cid'] == cid"])

    Q = {"self": "cell[SQLiteCallStorage]", "hid": "str", "cid": "str", "call_history_id": "str", "call_data": REC}
    reg.spec('''
def rec_ok(r):
    return (forall('str', lambda n: (n in r["input_hids"]) == (n in r["input_cids"])) and forall('str', lambda n: (n in r["output_hids"]) == (n in r["output_cids"]))
        and forall('str', lambda n: not (n in r["input_hids"] and n in r["output_hids"])))
def rec_row(r, n):
    return (("out", r["cid"], r["output_cids"][n], r["output_hids"][n], r["op_name"], r["semantic_version"], r["content_version"]) if n in r["output_hids"]
        else ("in", r["cid"], r["input_cids"][n], r["input_hids"][n], r["op_name"], r["semantic_version"], r["content_version"]))
''')
    reg.contract("SQLiteCallStorage.save", types={k: Q[k] for k in ("self", "call_data")}, requires=["rec_ok(call_data)"], modifies=["self.rows"], props=["C05", "C06"],
                 ensures=["forall('str,str', lambda h, n: ((h, n) in self.rows) == ((h, n) in old(self.rows) or (h == call_data['hid'] and (n in call_data['input_hids'] or n in call_data['output_hids']))))",
                          "forall('str,str', lambda h, n: implies((h, n) in self.rows, self.rows[(h, n)] == (rec_row(call_data, n) if h == call_data['hid'] and (n in call_data['input_hids'] or n in call_data['output_hids']) else old(self.rows)[(h, n)])))"])
    reg.contract("SQLiteCallStorage.drop", types={k: Q[k] for k in ("self", "hid")}, modifies=["self.rows"], props=["C09"],
                 ensures=["forall('str,str', lambda h, n: ((h, n) in self.rows) == (h != hid and (h, n) in old(self.rows)))",
                          "forall('str,str', lambda h, n: implies((h, n) in self.rows, self.rows[(h, n)] == old(self.rows)[(h, n)]))"])
    reg.contract("SQLiteCallStorage.exists", types={k: Q[k] for k in ("self", "call_history_id")}, returns="bool", ensures=["result == r_has(self.rows, call_history_id)"], props=["C06"])
    reg.contract("SQLiteCallStorage.exists_content", types={k: Q[k] for k in ("self", "cid")}, returns="bool", ensures=["result == r_hasc(self.rows, cid)"], props=["C06"])
    reg.contract("SQLiteCallStorage.exists_ref_hid", types={k: Q[k] for k in ("self", "hid")}, returns="bool", props=["C09"],
                 ensures=["result == exists('str,str', lambda h, n: (h, n) in self.rows and self.rows[(h, n)][3] == hid)"])
    reg.contract("SQLiteCallStorage.mget_data", types={"self": Q["self"], "call_hids": "list[str]"}, returns=f"list[{REC}]", props=["C06"], manual=True,
                 requires=["r_inv(self.rows)", "r_dirs(self.rows)", "forall('str', lambda h: implies(h in call_hids, r_has(self.rows, h)))"],
                 loops=["forall('str,str', lambda h, n: implies(done(h, n), h in call_data))",
                        "forall('str', lambda h: implies(h in call_data, exists('str', lambda n: done(h, n))))",
                        "forall('str', lambda h: implies(h in call_data, call_data[h]['hid'] == h))",
                        *[f"forall('str,str', lambda h, n: implies(h in call_data, (n in call_data[h]['{f}']) == (done(h, n) and self.rows[(h, n)][0] == '{d}')))"
                          for f, d in (("input_hids", "in"), ("input_cids", "in"), ("output_hids", "out"), ("output_cids", "out"))],
                        *[f"forall('str,str', lambda h, n: implies(done(h, n) and h in call_data and self.rows[(h, n)][0] == '{d}', call_data[h]['{f}'][n] == self.rows[(h, n)][{j}]))"
                          for f, d, j in (("input_hids", "in", 3), ("input_cids", "in", 2), ("output_hids", "out", 3), ("output_cids", "out", 2))],
                        *[f"forall('str,str', lambda h, n: implies(done(h, n) and h in call_data, call_data[h]['{f}'] == self.rows[(h, n)][{j}]))"
                          for f, j in (("cid", 1), ("op_name", 4), ("semantic_version", 5), ("content_version", 6))]],
                 ensures=["len(result) == len(call_hids)", "forall('int', lambda i: implies(0 <= i and i < len(call_hids), rec_of(result[i], self.rows, call_hids[i])))"])
    reg.contract("SQLiteCallStorage.get_data", types={k: Q[k] for k in ("self", "call_history_id")}, returns=REC, props=["C06"],
                 requires=["r_inv(self.rows)", "r_dirs(self.rows)", "r_has(self.rows, call_history_id)"], ensures=["rec_of(result, self.rows, call_history_id)"])
    reg.contract("SQLiteCallStorage.get_data_content", types={k: Q[k] for k in ("self", "cid")}, returns=REC, props=["C06"],
                 requires=["r_inv(self.rows)", "r_dirs(self.rows)", "r_hasc(self.rows, cid)"],
                 ensures=["r_has(self.rows, result['hid'])", "rec_of(result, self.rows, result['hid'])", "result['cid'] == cid"])

    C = {"self": "cell[CachedCallStorage]", "call": "obj[Call]", "hid": "str", "cid": "str", "call_history_id": "str"}
    reg.spec('''
def cc_inv(s):
    """dirty calls are cached; a clean cached call, and a dirty one already in the database, is exactly the one in the database"""
    return (im_inv(s.cache) and r_inv(s.persistent.rows) and r_dirs(s.persistent.rows)
        and forall('str', lambda h: implies(h in s.dirty_hids, h in s.cache.call_hids))
        and forall('str', lambda h: implies(h in s.cache.call_hids and h not in s.dirty_hids, r_has(s.persistent.rows, h)))
        and forall('str', lambda h: implies(h in s.cache.call_hids and r_has(s.persistent.rows, h),
            forall('str', lambda n: ((h, n) in s.cache.df.rows) == ((h, n) in s.persistent.rows) and implies((h, n) in s.persistent.rows, s.cache.df.rows[(h, n)] == s.persistent.rows[(h, n)])))))
def cc_has(s, h):
    return h in s.cache.call_hids or r_has(s.persistent.rows, h)
''')
    reg.contract("CachedCallStorage.exists", types={k: C[k] for k in ("self", "call_history_id")}, returns="bool", ensures=["result == cc_has(self, call_history_id)"], props=["C05"])
    reg.contract("CachedCallStorage.exists_content", types={k: C[k] for k in ("self", "cid")}, returns="bool", props=["C05", "C02"],
                 ensures=["result == (r_hasc(self.cache.df.rows, cid) or r_hasc(self.persistent.rows, cid))"])
    reg.contract("CachedCallStorage.get_data", types={k: C[k] for k in ("self", "call_history_id")}, returns=REC, requires=["cc_inv(self)", "cc_has(self, call_history_id)"], props=["C05", "C02"],
                 ensures=["implies(call_history_id in self.cache.call_hids, rec_of(result, self.cache.df.rows, call_history_id))",
                          "implies(r_has(self.persistent.rows, call_history_id), rec_of(result, self.persistent.rows, call_history_id))"])
    reg.contract("CachedCallStorage.get_data_content", types={k: C[k] for k in ("self", "cid")}, returns=REC, props=["C05", "C02"],
                 requires=["cc_inv(self)", "r_hasc(self.cache.df.rows, cid) or r_hasc(self.persistent.rows, cid)"],
                 ensures=["result['cid'] == cid", "rec_of(result, self.cache.df.rows if r_has(self.cache.df.rows, result['hid']) else self.persistent.rows, result['hid'])"])
    reg.contract("CachedCallStorage.save", types={k: C[k] for k in ("self", "call")}, props=["C05", "C02"],
                 requires=["cc_inv(self)", "call_ok(call)", "not cc_has(self, call.hid)"],
                 modifies=["self.cache.df.rows", "self.cache.call_hids", "self.dirty_hids"],
                 ensures=["cc_inv(self)", "forall('str', lambda h: cc_has(self, h) == (h == call.hid or old(cc_has(self, h))))", "call.hid in self.dirty_hids",
                          *saved("self.cache.df.rows")])
    reg.contract("CachedCallStorage.drop", types={k: C[k] for k in ("self", "hid")}, props=["C05", "C09"], requires=["cc_inv(self)"],
                 raises={"ValueError": "hid not in self.cache.call_hids"}, exsures=["self.dirty_hids == old(self.dirty_hids)"],
                 modifies=["self.cache.df", "self.cache.df.rows", "self.cache.call_hids", "self.dirty_hids"],
                 ensures=["cc_inv(self)", "forall('str', lambda h: (h in self.cache.call_hids) == (h != hid and h in old(self.cache.call_hids)))",
                          "forall('str', lambda h: (h in self.dirty_hids) == (h != hid and h in old(self.dirty_hids)))",
                          "forall('str,str', lambda h, n: ((h, n) in self.cache.df.rows) == (h != hid and (h, n) in old(self.cache.df.rows)))",
                          "forall('str,str', lambda h, n: implies((h, n) in self.cache.df.rows, self.cache.df.rows[(h, n)] == old(self.cache.df.rows)[(h, n)]))"])
    reg.contract("CachedCallStorage.clear", types={"self": C["self"], "allow_uncommited": "bool"}, props=["C05"], requires=["cc_inv(self)"],
                 modifies=["self.cache.df", "self.cache.df.rows", "self.cache.call_hids", "self.dirty_hids"],
                 raises={"ValueError": "len(self.dirty_hids) > 0 and not allow_uncommited"},
                 exsures=["self.cache.df.rows == old(self.cache.df.rows)", "self.cache.call_hids == old(self.cache.call_hids)", "self.dirty_hids == old(self.dirty_hids)"],
                 ensures=["cc_inv(self)", "not self.dirty_hids", "not self.cache.call_hids",
                          "implies(not old(self.dirty_hids), forall('str', lambda h: cc_has(self, h) == old(cc_has(self, h))))"])
    reg.contract("CachedCallStorage.commit", types={"self": C["self"]}, props=["C05", "C07"], requires=["cc_inv(self)"], modifies=["self.persistent.rows", "self.dirty_hids"],
                 loops=["r_inv(self.persistent.rows)", "r_dirs(self.persistent.rows)",
                        "forall('str,str', lambda h, n: ((h, n) in self.persistent.rows) == ((h, n) in old(self.persistent.rows) or (done(h) and (h, n) in self.cache.df.rows)))",
                        "forall('str,str', lambda h, n: implies((h, n) in self.persistent.rows, self.persistent.rows[(h, n)] == (self.cache.df.rows[(h, n)] if done(h) else old(self.persistent.rows)[(h, n)])))"],
                 ensures=["cc_inv(self)", "not self.dirty_hids", "forall('str', lambda h: cc_has(self, h) == old(cc_has(self, h)))",
                          "forall('str', lambda h: r_has(self.persistent.rows, h) == (old(r_has(self.persistent.rows, h)) or h in old(self.dirty_hids)))"])


    provenance(reg)


def provenance(reg):
    """C08: creators/consumers/inputs/outputs are exact, dependencies/dependents are the least closed sets"""
    reg.spec('''
def creates(rows, h, r):
    """the stored call h outputs the ref r"""
    return exists('str', lambda n: (h, n) in rows and rows[(h, n)][0] == "out" and rows[(h, n)][3] == r)
def takes(rows, h, r):
    return exists('str', lambda n: (h, n) in rows and rows[(h, n)][0] == "in" and rows[(h, n)][3] == r)
def dep_closed(rows, R, C):
    """closed backwards: creators of the refs and inputs of the calls are included"""
    return (forall('str,str', lambda h, n: implies((h, n) in rows and rows[(h, n)][0] == "out" and rows[(h, n)][3] in R, h in C))
        and forall('str,str', lambda h, n: implies((h, n) in rows and rows[(h, n)][0] == "in" and h in C, rows[(h, n)][3] in R)))
def use_closed(rows, R, C):
    """closed forwards: consumers of the refs and outputs of the calls are included"""
    return (forall('str,str', lambda h, n: implies((h, n) in rows and rows[(h, n)][0] == "in" and rows[(h, n)][3] in R, h in C))
        and forall('str,str', lambda h, n: implies((h, n) in rows and rows[(h, n)][0] == "out" and h in C, rows[(h, n)][3] in R)))
''')
    for cls, rows in (("InMemCallStorage", "self.df.rows"), ("SQLiteCallStorage", "self.rows")):
        me = f"cell[{cls}]"
        for nm, d, arg, res in (("get_creator_hids", "out", 3, 0), ("get_consumer_hids", "in", 3, 0), ("get_input_hids", "in", 0, 3), ("get_output_hids", "out", 0, 3)):
            p = "ref_hids" if arg == 3 else "call_hids"
            k = (f"forall('str', lambda h: (h in result) == exists('str', lambda n: (h, n) in {rows} and {rows}[(h, n)][0] == '{d}' and {rows}[(h, n)][3] in {p}))" if arg == 3 else
                 f"forall('str', lambda r: (r in result) == exists('str,str', lambda h, n: (h, n) in {rows} and {rows}[(h, n)][0] == '{d}' and {rows}[(h, n)][3] == r and h in {p}))")
            reg.contract(f"{cls}.{nm}", types={"self": me, p: "set[str]"}, returns="set[str]", ensures=[k], props=["C08"])
        for nm, cl, di, do in (("get_dependencies", "dep_closed", "in", "out"), ("get_dependents", "use_closed", "out", "in")):
            T3 = {"self": me, "ref_hids": "set[str]", "call_hids": "set[str]", "R": "set[str]", "C": "set[str]"}
            step = [f"forall('str,str', lambda h, n: implies((h, n) in {rows} and {rows}[(h, n)][0] == '{do}' and {rows}[(h, n)][3] in refs_result and {rows}[(h, n)][3] not in cur_refs, h in calls_result))",
                    f"forall('str,str', lambda h, n: implies((h, n) in {rows} and {rows}[(h, n)][0] == '{di}' and h in calls_result and h not in cur_calls, {rows}[(h, n)][3] in refs_result))"]
            reg.contract(f"{cls}.{nm}", types=T3, returns="tup[set[str],set[str]]", props=["C08"],
                         requires=[f"{cl}({rows}, R, C)", "forall('str', lambda r: implies(r in ref_hids, r in R))", "forall('str', lambda h: implies(h in call_hids, h in C))"],
                         loops=["forall('str', lambda r: implies(r in ref_hids, r in refs_result))", "forall('str', lambda h: implies(h in call_hids, h in calls_result))",
                                "forall('str', lambda r: implies(r in cur_refs, r in refs_result))", "forall('str', lambda h: implies(h in cur_calls, h in calls_result))",
                                "forall('str', lambda r: implies(r in refs_result, r in R))", "forall('str', lambda h: implies(h in calls_result, h in C))"] + step,
                         ensures=["forall('str', lambda r: implies(r in ref_hids, r in result[0]))", "forall('str', lambda h: implies(h in call_hids, h in result[1]))",
                                  f"{cl}({rows}, result[0], result[1])",
                                  "forall('str', lambda r: implies(r in result[0], r in R))", "forall('str', lambda h: implies(h in result[1], h in C))"])
    reg.contract("SQLiteCallStorage.get_df", types={"self": "cell[SQLiteCallStorage]"}, returns="cell[DataFrame]", ensures=["result.rows == self.rows"], props=["C08", "C05"])


def joblib_dump(ip, st, args, kw, e):
    p = args[1]
    if not (isinstance(p, Opaque) and p.kind == "jpath"):
        raise Unsup("joblib.dump target")
    f = ip.deref(st, p.owner).fields["files"]
    st.heap[f.root] = ip.dict_set(st, ip.deref(st, f), p.key, args[0])
    return [(st, None)]
