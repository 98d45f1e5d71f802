"""transactions and commits under injected failures: every write statement of a commit, every outcome of a transaction body"""
import os, sqlite3, time
from base import *
from world import *
from mandala.storage import Storage
from mandala.model import op


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


class Faulty(sqlite3.Connection):
    """raises `fault` at the n-th write of the armed plan"""
    plan = None

    def execute(self, sql, *a):
        p = Faulty.plan
        s = sql.strip().upper()
        if p is not None and s.startswith(("INSERT", "DELETE", "UPDATE", "REPLACE")):
            if p["n"] == 0:
                Faulty.plan = None
                raise p["exc"]("injected")
            p["n"] -= 1
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        p = Faulty.plan
        if p is not None and p["n"] == 0:
            Faulty.plan = None
            raise p["exc"]("injected")
        return super().executemany(sql, *a)


class Faults:
    def __enter__(self):
        self.real, self.sleep = sqlite3.connect, time.sleep
        sqlite3.connect = lambda *a, **k: self.real(*a, **{**k, "factory": Faulty, "timeout": .05})
        time.sleep = lambda s: None
        Faulty.plan = None
        return self

    def __exit__(self, *a):
        sqlite3.connect, time.sleep, Faulty.plan = self.real, self.sleep, None


@scenario(quick=150, thorough=2000)
def decorator(rng, log):
    with Scratch() as d, Faults() as fl:
        path = os.path.join(d, "t.db")
        db = su.DBAdapter(db_path=path) if rng.random() < .6 else su.DBAdapter()
        inmem = db.in_memory

        class Box:
            def __init__(self):
                self.runs = []

            def conn(self):
                return db.conn()

            @su.transaction
            def act(self, rows, script, ret, conn=None):
                """script[i]: what the i-th run does after writing its rows"""
                i = len(self.runs)
                self.runs.append(conn)
                for r in rows:
                    conn.execute("INSERT INTO t VALUES (?)", (f"{r}",))
                todo = script[i] if i < len(script) else None
                if todo is not None:
                    raise todo("scripted")
                return ret

            @su.transaction
            def outer(self, rows, inner, script, ret, conn=None):
                for r in rows:
                    conn.execute("INSERT INTO t VALUES (?)", (f"{r}",))
                b = self.act(inner, script[:1], ret, conn=conn)
                if script[1:]:
                    raise script[1]("outer")
                return b
        c = db.conn()
        c.execute("CREATE TABLE t (x TEXT)")
        c.commit()
        if not inmem:
            c.close()
        box = Box()

        def rows():
            k = db.conn()
            out = sorted(x[0] for x in k.execute("SELECT x FROM t").fetchall())
            if not inmem:
                k.close()
            return out
        want = []
        for _ in range(rng.randrange(1, 5)):
            box.runs = []
            rs = [ident(rng, 3) for _ in range(rng.randrange(0, 3))]
            ret = rng.choice([None, 0, "v", (1, 2)])
            locks = rng.choice([0, 0, 1, 2]) if not inmem or rng.random() < .5 else 0
            err = rng.choice([None, None, Boom, KeyError, Stop, sqlite3.IntegrityError])
            kind = rng.choice(["plain", "plain", "none", "nested", "given"])
            log(kind, rs, locks, err and err.__name__)
            if kind == "nested":
                inn = [ident(rng, 3)]
                script = [None] + ([err] if err else [])
                f = lambda: box.outer(rs, inn, script, ret)
                after = rs + inn
            elif kind == "given":
                k = db.conn()
                k.execute("BEGIN")
                k.execute("INSERT INTO t VALUES ('own')")
                script = [err] if err else []
                f = lambda: box.act(rs, script, ret, conn=k)
                after = rs + ["own"]
            else:
                script = [sqlite3.OperationalError] * locks + ([err] if err else [])
                f = (lambda: box.act(rs, script, ret, conn=None)) if kind == "none" else (lambda: box.act(rs, script, ret))
                after = rs
            exc = got = None
            try:
                got = f()
            except BaseException as e:
                exc = e
            if kind == "given":
                check((type(exc) is err) if err else exc is None, f"outcome {exc!r}, scripted {err}", "tx outcome")
                check(len(box.runs) == 1 and box.runs[0] is k, "a method given a connection must run once with that connection", "tx given")
                check(k.in_transaction, "a method given a connection must leave the transaction to its owner", "tx given")
                if rng.random() < .5:
                    k.execute("ROLLBACK")
                else:
                    eq(sorted(x[0] for x in k.execute("SELECT x FROM t").fetchall()), sorted(want + after), "content inside the caller's transaction", "tx given")
                    k.execute("COMMIT")
                    want = sorted(want + after)
                if not inmem:
                    k.close()
            else:
                if err:
                    check(type(exc) is err, f"the error must be re-raised: got {exc!r}, scripted {err.__name__}", "tx outcome")
                else:
                    check(exc is None, lambda: f"unexpected {exc!r}", "tx outcome")
                    eq(got, ret, "returned value", "tx outcome")
                    want = sorted(want + after)
                if kind != "nested":
                    eq(len(box.runs), locks + 1, "runs of the body (one per attempt)", "tx runs")
            eq(rows(), want, f"table after {kind} transaction", "tx content")
            if inmem:
                check(not db.conn().in_transaction, "transaction left open on the in-memory connection", "tx open")


TABLES = ("atoms", "shapes", "ops", "sources", "calls")


def snapshot(st):
    k = st.conn()
    out = {t: sorted(map(repr, k.execute(f"SELECT * FROM {t}").fetchall())) for t in TABLES}
    if not st.db.in_memory:
        k.close()
    return out


@scenario(quick=40, thorough=500, weight=1.5)
def commit(rng, log):
    with Scratch() as d, Faults() as fl:
        path = os.path.join(d, "s.db") if rng.random() < .5 else ":memory:"
        ov = dict(overflow_dir=os.path.join(d, "ov"), overflow_threshold_MB=.0003) if rng.random() < .3 else {}
        if ov:
            os.makedirs(ov["overflow_dir"])
        st = Storage(db_path=path, **ov)

        @op
        def inc(x): return x + 1

        @op
        def pair(x, y): return x, [y]
        with st:
            for _ in range(rng.randrange(0, 3)):
                inc(rng.randrange(9))
        before = snapshot(st)
        exc = rng.choice([sqlite3.OperationalError, Boom, Stop, sqlite3.IntegrityError])
        n = rng.randrange(0, 14)
        log("fault at write", n, exc.__name__, path[-7:])
        got = None
        try:
            with st:
                for _ in range(rng.randrange(1, 4)):
                    pair(rng.randrange(20), "v" * rng.randrange(900)) if rng.random() < .6 else inc(rng.randrange(30))
                dirty = (set(st.atoms.dirty_keys), set(st.shapes.dirty_keys), set(st.ops.dirty_keys), set(st.calls.dirty_hids))
                hids = {c for c in st.calls.cache.call_hids}
                Faulty.plan = dict(n=n, exc=exc)
        except BaseException as e:
            got = e
        fired = Faulty.plan is None
        Faulty.plan = None
        after = snapshot(st)
        if fired and got is None:
            raise Violation("an error during commit was swallowed", "commit swallowed")
        if got is not None:
            check(type(got) is exc, lambda: f"unexpected {got!r}", "commit outcome")
            eq(after, before, "database after a failed commit", "commit atomic")
            if st.db.in_memory:
                check(not st.conn().in_transaction, "failed commit left a transaction open", "commit open")
            if path != ":memory:" and rng.random() < .5:
                s2 = Storage(db_path=path, **ov)       # a later session sees the state before the commit
                with s2:
                    for h in s2.calls.cache.call_hids | {eval(r)[0] for r in before["calls"]}:
                        c = s2.mget_call([h], in_memory=True)[0] if hasattr(s2, "mget_call") else None
            st.commit()
            after = snapshot(st)
        eq((set(st.atoms.dirty_keys), set(st.shapes.dirty_keys), set(st.ops.dirty_keys), set(st.calls.dirty_hids)), (set(),) * 4, "dirty after commit", "commit dirty")
        ca = {eval(r)[0] for r in after["calls"]}
        check(hids <= ca, f"calls lost by the commit: {hids - ca}", "commit lost")
        cids = {eval(r)[4] for r in after["calls"]}
        import json
        keys = {eval(r)[0] for r in after["atoms"]}
        if ov:
            keys |= set(st.atoms.persistent.overflow_storage.keys())
        check(dirty[0] <= keys, f"values lost by the commit: {dirty[0] - keys}", "commit lost")
        check(dirty[1] <= {eval(r)[0] for r in after["shapes"]}, "shapes lost by the commit", "commit lost")
        check(dirty[2] <= {eval(r)[0] for r in after["ops"]}, "ops lost by the commit", "commit lost")


@scenario(quick=14, thorough=150)
def big_commit(rng, log):
    """many entries at once, failing early, half-way or at the very end"""
    with Scratch() as d, Faults() as fl:
        path = os.path.join(d, "s.db") if rng.random() < .6 else ":memory:"
        st = Storage(db_path=path)
        size = {t: rng.choice([0, 1, 3, 40, 70, 130, 300, 1100]) for t in ("atoms", "shapes", "ops", "calls")}
        for t in ("atoms", "shapes", "ops"):
            for i in range(size[t]):
                getattr(st, t).set(f"{t}{i}", i)
        for i in range(size["calls"]):
            st.calls.save(make_call(rng, hid=f"k{i}")) if size["calls"] < 100 or i < 60 else None
        n = sum(size[t] for t in ("atoms", "shapes", "ops")) + sum(len(c[1]) for c in ())
        at = rng.choice([0, max(0, n - 1), rng.randrange(n + 1), n, n + 2, n + 30])
        exc = rng.choice([sqlite3.OperationalError, Boom, Stop])
        log(size, "fault at", at, exc.__name__)
        before = snapshot(st)
        Faulty.plan = dict(n=at, exc=exc)
        got = None
        try:
            st.commit()
        except BaseException as e:
            got = e
        fired = Faulty.plan is None
        Faulty.plan = None
        check(fired == (got is not None), "an error during commit was swallowed", "commit swallowed")
        if got is not None:
            check(type(got) is exc, lambda: f"unexpected {got!r}", "commit outcome")
            after = snapshot(st)
            check(after == before, lambda: "database after a failed commit holds " + str({t: len(v) for t, v in after.items()}), "commit atomic")
            st.commit()
        for t in ("atoms", "shapes", "ops"):
            eq(sorted(getattr(st, t).persistent.keys()), sorted(f"{t}{i}" for i in range(size[t])), f"{t} after commit", "commit lost")
        check(not st.atoms.dirty_keys and not st.calls.dirty_hids, "dirty after commit", "commit dirty")
