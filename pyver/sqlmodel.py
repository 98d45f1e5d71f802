"""Ghost semantics of the few SQL statements and pandas idioms the storages use.

A class declares `tables={'table': 'rows'}`: an f-string hole `{self.table}` in a SQL text denotes the
relation stored in the ghost field `rows` of the same object.  The schema (columns, primary key) is read
from the class's own CREATE TABLE statement in /repo on every run.  Statements outside the grammar below
make the function undecided; nothing is guessed."""
from __future__ import annotations
import ast
import re
import z3
from .core import *
from . import core
from .interp import close, exists_elem, Exc


def schema(ip, cls):
    """[(column, ...)], [pk columns] from CREATE TABLE in the class body"""
    if not hasattr(ip.repo, "_schemas"):
        ip.repo._schemas = {}
    if cls in ip.repo._schemas:
        return ip.repo._schemas[cls]
    m, node = ip.repo.classes[cls]
    for n in ast.walk(node):
        if isinstance(n, (ast.JoinedStr, ast.Constant)):
            txt = "".join(v.value if isinstance(v, ast.Constant) else "{T}" for v in n.values) if isinstance(n, ast.JoinedStr) else n.value
            if isinstance(txt, str) and re.match(r"\s*CREATE TABLE", txt, re.I):
                body = txt[txt.index("(") + 1: txt.rindex(")")]
                pk = None
                mm = re.search(r"PRIMARY KEY\s*\(([^)]*)\)", body, re.I)
                if mm:
                    pk = [x.strip() for x in mm.group(1).split(",")]
                    body = body[: mm.start()] + body[mm.end():]
                cols = []
                for part in body.split(","):
                    w = part.split()
                    if not w:
                        continue
                    cols.append(w[0])
                    if "PRIMARY KEY" in part.upper():
                        pk = [w[0]]
                ip.repo._schemas[cls] = (cols, pk or [])
                return ip.repo._schemas[cls]
    raise Unsup(f"no CREATE TABLE in {cls}")


class Row:
    """generic row of a relation: binders for the key, column terms"""
    def __init__(self, ip, st, ptr, cls):
        self.cols, self.pk = schema(ip, cls)
        self.rows = ip.deref(st, ptr)
        self.ks = kconsts(self.rows.kty, "r")
        self.kv = unflat(self.ks, self.rows.kty)
        self.guard = self.rows.mem(self.kv)
        kitems = self.kv.items if isinstance(self.kv, Tup) else [self.kv]
        at = self.rows.at(self.kv)
        vitems = at.items if isinstance(at, Tup) else [at]
        names = list(self.pk) + [c for c in self.cols if c not in self.pk]
        self.val = dict(zip(names, list(kitems) + list(vitems)))


def sql_text(v):
    """-> (text with {n} holes, [hole values])"""
    if isinstance(v, str):
        return v, []
    if isinstance(v, FStr):
        t, hs = "", []
        for p in v.parts:
            if isinstance(p, str):
                t += p
            else:
                t += f"\0{len(hs)}\0"
                hs.append(p)
        return t, hs
    raise Unsup("SQL text")


def table_of(ip, st, hole):
    v, origin = hole
    if origin is None:
        raise Unsup("table name is not a field")
    root, field = origin
    c = st.heap[root]
    for k in ip.mro(c.cls):
        d = ip.reg.classes.get(k)
        if d and d.get("tables") and field in d["tables"]:
            g = c.fields[d["tables"][field]]
            return c.cls if k == c.cls else k, g
    raise Unsup(f"no ghost relation for {c.cls}.{field}")


def params_of(ip, st, args):
    if len(args) < 2:
        return []
    p = args[1]
    c = ip.deref(st, p)
    if isinstance(c, Tup):
        return list(c.items)
    if isinstance(c, ListV) and c.it is not None and c.it.conc is not None:
        return list(c.it.conc)
    return c     # symbolic list


HOLE = r"\0(\d+)\0"


def parse_where(ip, st, txt, holes, row, params):
    """formula for the WHERE clause; `params` is a list of values or one symbolic list"""
    conj = []
    pos = 0
    for c in re.split(r"\s+AND\s+", txt.strip(), flags=re.I):
        c = c.strip()
        m = re.match(rf"^(\w+)\s*=\s*\?$", c)
        if m:
            if not isinstance(params, list):
                raise Unsup("mixed parameters")
            conj.append(eqf(col(row, m.group(1)), params[pos]))
            pos += 1
            continue
        m = re.match(r"""^(\w+)\s*=\s*['"](\w+)['"]$""", c)
        if m:
            conj.append(eqf(col(row, m.group(1)), m.group(2)))
            continue
        m = re.match(rf"^(\w+)\s+IN\s*\({HOLE}\)$", c, re.I)
        if m:
            h = holes[int(m.group(2))][0]
            if not (isinstance(h, Opaque) and h.kind == "placeholders"):
                raise Unsup("IN list")
            if isinstance(params, list):
                # as many placeholders as parameters: only known when the source is the parameter list
                raise Unsup("IN with concrete parameters")
            conj.append(params.has(col(row, m.group(1))))
            continue
        m = re.match(r"^(\w+)\s+IN\s*\(([\s?,]*)\)$", c, re.I)
        if m and isinstance(params, list):
            n = m.group(2).count("?")
            xs = params[pos:pos + n]
            pos += n
            conj.append(z3.Or(*[eqf(col(row, m.group(1)), x) for x in xs]) if xs else z3.BoolVal(False))
            continue
        raise Unsup(f"WHERE clause {c!r}")
    if isinstance(params, list) and pos != len(params):
        raise Unsup("parameter count")
    return z3.And(*conj) if conj else z3.BoolVal(True)


def col(row, name):
    if name not in row.val:
        raise Unsup(f"no column {name}")
    return row.val[name]


def execute(ip, st, c, args, kw, e):
    txt, holes = sql_text(ip.deref(st, args[0]))
    txt = re.sub(r"\s+", " ", txt).strip()
    up = txt.upper()
    if up.startswith("BEGIN"):
        owner(ip, st, c, "BEGIN")
        st.heap[("TX",)] = Opaque("txsnap", rows={c.fields[g].root: st.heap[c.fields[g].root] for c in list(st.heap.values()) if isinstance(c, ObjC)
                                                 for k in ip.mro(c.cls) for g in ((ip.reg.classes.get(k) or {}).get("tables") or {}).values()})
    if up.startswith(("BEGIN", "PRAGMA", "CREATE TABLE", "VACUUM")):
        return [(st, Opaque("cursor", it=None, count=None))]
    params = params_of(ip, st, args)
    m = re.match(rf"^SELECT (DISTINCT )?(.+?) FROM {HOLE}(?: WHERE (.*))?$", txt, re.I)
    if m:
        distinct, what, hole, where = m.group(1), m.group(2).strip(), int(m.group(3)), m.group(4)
        cls, g = table_of(ip, st, holes[hole])
        row = Row(ip, st, g, cls)
        f = parse_where(ip, st, where, holes, row, params) if where else z3.BoolVal(True)
        guard = z3.And(row.guard, f)
        if what.upper() == "COUNT(*)":
            return [(st, Opaque("cursor", it=None, count=(row.ks, guard)))]
        names = row.cols if what == "*" else [x.strip() for x in what.split(",")]
        el = Tup([col(row, n) for n in names])
        return [(st, Opaque("cursor", it=Iter(row.ks, guard, el, uniq=not distinct and set(row.pk) <= set(names)), count=None, names=names))]
    m = re.match(rf"^DELETE FROM {HOLE}(?: WHERE (.*))?$", txt, re.I)
    if m:
        cls, g = table_of(ip, st, holes[int(m.group(1))])
        rows = ip.deref(st, g)
        row = Row(ip, st, g, cls)
        f = parse_where(ip, st, m.group(2), holes, row, params) if m.group(2) else z3.BoolVal(True)

        def mem(k):
            return z3.And(rows.mem(k), z3.Not(subst_t(f, list(zip(row.ks, flat(k, rows.kty))))))
        st.heap[g.root] = DictV(mem, rows.at, rows.kty, rows.vty, rows.touched)
        return [(st, Opaque("cursor", it=None, count=None))]
    m = re.match(rf"^INSERT (OR REPLACE |OR IGNORE )?INTO {HOLE}(?: \(([^)]*)\))? VALUES \(([\s?,]*)\)$", txt, re.I)
    if m:
        if not isinstance(params, list):
            raise Unsup("symbolic INSERT parameters")
        cls, g = table_of(ip, st, holes[int(m.group(2))])
        cols, pk = schema(ip, cls)
        names = [x.strip() for x in m.group(3).split(",")] if m.group(3) else cols
        if m.group(4).count("?") != len(params) or len(names) != len(params):
            return [ip.raise_(st, "OperationalError", getattr(e, "lineno", None))]
        vals = dict(zip(names, params))
        rows = ip.deref(st, g)
        order = [x for x in cols if x not in pk]
        kv = vals[pk[0]] if len(pk) == 1 else Tup([vals[x] for x in pk])
        vv = vals[order[0]] if len(order) == 1 else Tup([vals[x] for x in order])
        kv = coerce(ip.content(st, kv), rows.kty)
        vv = coerce(ip.content(st, vv), rows.vty)
        mode = (m.group(1) or "").strip().upper()
        if mode == "OR REPLACE":
            st.heap[g.root] = ip.dict_set(st, rows, kv, vv)
            return [(st, Opaque("cursor", it=None, count=None))]
        out = []
        a, b = ip.fork(st, rows.mem(kv), getattr(e, "lineno", None))
        if b is not None:
            b.heap[g.root] = ip.dict_set(b, rows, kv, vv)
            out.append((b, Opaque("cursor", it=None, count=None)))
        if a is not None:
            if mode == "OR IGNORE":
                out.append((a, Opaque("cursor", it=None, count=None)))
            else:
                out.append(ip.raise_(a, "IntegrityError", getattr(e, "lineno", None)))
        return out
    raise Unsup(f"SQL statement {txt[:60]!r}")


def fetchall(ip, st, c, args, kw, e):
    if c.it is None:
        raise Unsup("fetchall without rows")
    return [(st, ip.it_opaque(c.it))]


def fetchone(ip, st, c, args, kw, e):
    if c.count is not None:
        ks, guard = c.count
        bs = ip.allb()
        n = z3.Function(f"count!{next(core._ctr)}", *[b.sort() for b in bs], I)(*bs) if bs else z3.FreshConst(I, "count")
        st.assume(close(bs, n >= 0))
        st.assume(close(bs, (n > 0) == z3.Exists(ks, guard)))
        return [(st, Tup([T(n, INT)]))]
    if c.it is None:
        raise Unsup("fetchone")
    it = c.it.fresh()
    line = getattr(e, "lineno", None)
    out = []
    a, b = ip.fork(st, z3.Exists(it.binders, it.guard), line)
    if b is not None:
        out.append((b, None))
    if a is not None:
        ws = [z3.FreshConst(x.sort(), "w") for x in it.binders]
        ps = list(zip(it.binders, ws))
        a.assume(subst_t(it.guard, ps))
        out.append((a, subst(it.elem, ps)))
    return out


# ---------------------------------------------------------------- pandas (call frames)
def owner(ip, st, c, what):
    if not getattr(c, "own", False):
        ip.oblig(st, f"{ip.target}: a method given a connection leaves the transaction to its owner (no {what})", z3.BoolVal(False))


def conn_commit(ip, st, c, a, kw, e):
    owner(ip, st, c, "commit")
    st.heap[("TX",)] = None
    return [(st, None)]


def conn_rollback(ip, st, c, a, kw, e):
    owner(ip, st, c, "rollback")
    t = st.heap.get(("TX",))
    if t is not None:
        for r, v in t.rows.items():
            st.heap[r] = v
        st.heap[("TX",)] = None
    return [(st, None)]


def conn_exit(ip, st, c, a, kw, e):
    """`with conn`: commits on normal exit; after an exception, rolls back to the last BEGIN (without one: an
    in-memory connection is in autocommit mode and keeps everything written).  The commit itself may fail."""
    owner(ip, st, c, "commit at the end of a with block")

    def back(s):
        t = s.heap.get(("TX",))
        if t is not None:
            for r, v in t.rows.items():
                s.heap[r] = v
            s.heap[("TX",)] = None
    if st.exc:
        back(st)
        return [(st, a[0])]
    out = []
    if "commit" in ip.faults:
        b = st.copy()
        back(b)
        b.exc = Exc("OperationalError", None, getattr(e, "lineno", None))
        out.append((b, "raise"))
    st.heap[("TX",)] = None
    return out + [(st, a[0])]


def install(reg):
    om = reg.opaque_methods
    om[("conn", "execute")] = execute
    om[("conn", "close")] = lambda ip, st, c, a, k, e: [(st, None)]
    om[("conn", "commit")] = conn_commit
    om[("conn", "rollback")] = conn_rollback
    om[("conn", "__enter__")] = lambda ip, st, c, a, k, e: [(st, c)]
    om[("conn", "__exit__")] = conn_exit
    om[("cursor", "fetchall")] = fetchall
    om[("cursor", "fetchone")] = fetchone
    om[("cursor", "__iter__")] = lambda ip, st, c, a, k, e: c.it
    reg.opaque_cls["conn"] = {"Connection"}
    install_df(reg)


def framecls(ip, st, ptr):
    c = ip.deref(st, ptr)
    return c


def install_df(reg):
    om = reg.opaque_methods
    og = reg.opaque_getattr
    reg.cls("DataFrame", fields={"rows": "dict[tup[str,str],tup[str,str,str,str,str,str,str]]"})
    for a in ("loc", "index", "query", "call_content_id", "drop"):
        reg.opaque_attrs[("DataFrame", a)] = "df_" + a
    NAMES = lambda ip: frame_schema(ip)

    def rows_of(ip, st, o):
        return ip.deref(st, ip.deref(st, o.owner).fields["rows"])

    def frow(ip, st, rows):
        cols = frame_schema(ip)
        ks = kconsts(rows.kty, "r")
        kv = unflat(ks, rows.kty)
        at = rows.at(kv)
        return ks, rows.mem(kv), dict(zip(cols, list(kv.items) + list(at.items)))

    def loc_set(ip, st, o, args, kw, e):
        k, v = args
        k = ip.deref(st, k)
        if isinstance(k, Tup) and len(k.items) == 2 and isinstance(k.items[1], Opaque) and k.items[1].kind == "slice":
            k = k.items[0]
        rp = ip.deref(st, o.owner).fields["rows"]
        st.heap[rp.root] = ip.dict_set(st, ip.deref(st, rp), k, v)
        return [(st, None)]
    om[("df_loc", "__setitem__")] = loc_set

    def getattr_levels(ip, st, o):
        return [(st, Opaque("df_levels", owner=o.owner))]
    og[("df_index", "levels")] = getattr_levels

    def level0(ip, st, o, args, kw, e):
        rows = rows_of(ip, st, o)
        k0 = args[0] if args else 0
        ks, g, val = frow(ip, st, rows)
        if k0 not in (0, 1):
            raise Unsup("index level")
        return [(st, ip.it_opaque(Iter(ks, g, list(val.values())[k0], uniq=False)))]
    om[("df_index", "get_level_values")] = level0
    om[("df_levels", "__getitem__")] = level0

    def query(ip, st, o, args, kw, e):
        rows = rows_of(ip, st, o)
        ks, g, val = frow(ip, st, rows)
        txt = args[0]
        if not isinstance(txt, str):
            raise Unsup("query text")
        conj = []
        for c in re.split(r"\s+and\s+", txt.strip()):
            m = re.match(r"^(\w+)\s*==\s*['\"](\w+)['\"]$", c)
            if m:
                conj.append(eqf(val[m.group(1)], m.group(2)))
                continue
            m = re.match(r"^(\w+)\s*(in|==)\s*@(\w+)$", c)
            if m:
                v = ip.lookup(st, m.group(3), None)
                if m.group(2) == "==":
                    conj.append(eqf(val[m.group(1)], v))
                else:
                    f = ip.contains(val[m.group(1)], v, st)
                    conj.append(z3.BoolVal(f) if isinstance(f, bool) else f)
                continue
            raise Unsup(f"query {c!r}")
        return [(st, Opaque("df_view", ks=ks, guard=z3.And(g, *conj), val=val))]
    om[("df_query", "__call__")] = query

    def view_level(ip, st, o, args, kw, e):
        return [(st, ip.it_opaque(Iter(o.view.ks, o.view.guard, list(o.view.val.values())[args[0]], uniq=False)))]
    og[("df_view", "index")] = lambda ip, st, o: [(st, Opaque("view_index", view=o))]
    om[("view_index", "get_level_values")] = view_level
    for cname in ("ref_history_id", "ref_content_id", "call_content_id", "direction", "op", "semantic_version", "content_version"):
        og[("df_view", cname)] = lambda ip, st, o, cname=cname: [(st, ip.it_opaque(Iter(o.ks, o.guard, o.val[cname], uniq=False)))]

    def unique(ip, st, c, args, kw, e):
        s = ip.to_set(c, st)
        ks = kconsts(s.kty, "u")
        k = unflat(ks, s.kty)
        return [(st, ip.it_opaque(Iter(ks, s.mem(k), k)))]
    om[("iter", "unique")] = unique

    def column(ip, st, args, kw, e):
        """df["column"]"""
        ks, g, val = frow(ip, st, ip.deref(st, ip.deref(st, args[0]).fields["rows"]))
        if not isinstance(args[1], str) or args[1] not in val:
            raise Unsup("frame column")
        return [(st, ip.it_opaque(Iter(ks, g, val[args[1]], uniq=False)))]
    reg.models["DataFrame.__getitem__"] = column

    def content_series(ip, st, o, args, kw, e):
        rows = rows_of(ip, st, o)
        ks, g, val = frow(ip, st, rows)
        return unique(ip, st, ip.it_opaque(Iter(ks, g, val["call_content_id"], uniq=False)), [], {}, None)
    om[("df_call_content_id", "unique")] = content_series

    def drop(ip, st, o, args, kw, e):
        if kw.get("level") != 0 or "index" not in kw:
            raise Unsup("DataFrame.drop form")
        rows = rows_of(ip, st, o)
        h = kw["index"]
        n = ip.alloc(st, ObjC("DataFrame", {}))
        new = DictV(lambda k: z3.And(rows.mem(k), z3.Not(eqf(unflat(flat(k, rows.kty), rows.kty).items[0], h))), rows.at, rows.kty, rows.vty)
        st.heap[n.root] = ObjC("DataFrame", {"rows": ip.alloc(st, new)})
        return [(st, n)]
    om[("df_drop", "__call__")] = drop
    om[("df_index", "remove_unused_levels")] = lambda ip, st, o, a, k, e: [(st, o)]

    def newframe(ip, st, args, kw, e):
        n = ip.alloc(st, ObjC("DataFrame", {}))
        cols = frame_schema(ip)
        empty = DictV(lambda k: z3.BoolVal(False), lambda k: Tup([T(lit(""), STR)] * 7), TupT(STR, STR), TupT(*[STR] * 7))
        st.heap[n.root] = ObjC("DataFrame", {"rows": ip.alloc(st, empty)})
        return [(st, Opaque("newframe", cell=n))]
    reg.builtins["DataFrame"] = newframe
    _mget_views(reg)

    def read_sql(ip, st, args, kw, e):
        """the whole table as a frame, indexed by its primary key; the frame's columns are the table's"""
        txt, holes = sql_text(ip.deref(st, args[0]))
        m = re.match(rf"^SELECT \* FROM {HOLE}$", re.sub(r"\s+", " ", txt).strip(), re.I)
        if not m or not (isinstance(args[1], Opaque) and args[1].kind == "conn"):
            raise Unsup("read_sql form")
        cls, g = table_of(ip, st, holes[int(m.group(1))])
        cols, pk = schema(ip, cls)
        if cols != frame_schema(ip):
            raise Unsup("table and frame columns differ")
        n = ip.alloc(st, ObjC("DataFrame", {}))
        st.heap[n.root] = ObjC("DataFrame", {"rows": ip.alloc(st, ip.deref(st, g))})
        return [(st, Opaque("sqlframe", cell=n, pk=pk))]

    def set_index(ip, st, o, args, kw, e):
        c = ip.deref(st, args[0])
        if isinstance(c, ListV) and c.it is not None and c.it.conc is not None and len(c.it.conc) == len(o.pk) and all(term(x).eq(lit(y)) for x, y in zip(c.it.conc, o.pk)):
            return [(st, o.cell)]
        raise Unsup("set_index form")
    reg.builtins["pandas.read_sql"] = read_sql
    om[("sqlframe", "set_index")] = set_index
    om[("newframe", "set_index")] = lambda ip, st, o, a, k, e: [(st, o.cell)]


def _mget_views(reg):
    om = reg.opaque_methods

    def loc_get(ip, st, o, args, kw, e):
        k = args[0]
        rows = ip.deref(st, ip.deref(st, o.owner).fields["rows"])
        # df.loc[idx[hids, :], :]
        if isinstance(k, Tup) and len(k.items) == 2 and isinstance(k.items[1], Opaque) and k.items[1].kind == "slice":
            sel = k.items[0]
            if isinstance(sel, Tup) and len(sel.items) == 2 and isinstance(sel.items[1], Opaque) and sel.items[1].kind == "slice":
                hids = sel.items[0]

                def mem(x):
                    x = unflat(flat(x, rows.kty), rows.kty)
                    f = ip.contains(x.items[0], hids, st)
                    return z3.And(rows.mem(x), z3.BoolVal(f) if isinstance(f, bool) else f)
                return [(st, ip.alloc(st, DictV(mem, rows.at, rows.kty, rows.vty)))]
        raise Unsup("DataFrame.loc form")
    om[("df_loc", "__getitem__")] = loc_get
    om[("idx", "__getitem__")] = lambda ip, st, o, a, k, e: [(st, a[0])]

    def groupby(ip, st, recv, args, kw, e):
        if kw.get("level") != 0:
            raise Unsup("groupby form")
        rows = ip.deref(st, recv)
        ks = kconsts(rows.kty, "r")
        kv = unflat(ks, rows.kty)
        h, n = kv.items
        grp = DictV(lambda x: z3.And(rows.mem(x), eqf(unflat(flat(x, rows.kty), rows.kty).items[0], h)), rows.at, rows.kty, rows.vty)
        return [(st, ip.it_opaque(Iter([ks[0]], z3.Exists([ks[1]], rows.mem(kv)), Tup([h, grp]), uniq=True)))]
    om[("dict", "groupby")] = groupby
    om[("dict", "reset_index")] = lambda ip, st, recv, a, k, e: [(st, recv)]

    def to_dict(ip, st, recv, args, kw, e):
        if kw.get("orient") != "records":
            raise Unsup("to_dict form")
        rows = ip.deref(st, recv)
        cols = frame_schema(ip)
        ks = kconsts(rows.kty, "r")
        kv = unflat(ks, rows.kty)
        at = rows.at(kv)
        rec = RecV(dict(zip(cols, list(kv.items) + list(at.items))))
        l = ip.to_list(ip.it_opaque(Iter(ks, rows.mem(kv), rec, uniq=True)), st)
        return [(st, ip.alloc(st, l))]
    om[("dict", "to_dict")] = to_dict


def frame_schema(ip):
    m = ip.repo.method("InMemCallStorage", "COLUMNS")
    if m is None or m[3] != "assign":
        raise Unsup("InMemCallStorage.COLUMNS")
    cols = ast.literal_eval(m[2])
    if cols[:1] + cols[1:2] != ["call_history_id", "name"]:
        raise Unsup("frame index columns")
    return cols
