"""Building blocks shared by the scenarios: storages, refs, calls, ops."""
import os, string
from mandala.model import Ref, AtomRef, ListRef, DictRef, Op, Call, wrap_atom
from mandala.utils import get_content_hash, serialize
from mandala import storage_utils as su

LET = string.ascii_lowercase


def ident(rng, n=6):
    return "".join(rng.choice(LET) for _ in range(n))


def value(rng, depth=2):
    k = rng.randrange(9 if depth else 6)
    if k == 0: return rng.randrange(-5, 50)
    if k == 1: return ident(rng, rng.randrange(0, 5))
    if k == 2: return rng.choice([None, True, False])
    if k == 3: return rng.randrange(40) / 8
    if k == 4: return bytes(rng.randrange(256) for _ in range(rng.randrange(4)))
    if k == 5: return (rng.randrange(5), ident(rng, 2))
    if k == 6: return [value(rng, depth - 1) for _ in range(rng.randrange(4))]
    if k == 7: return {ident(rng, 3): value(rng, depth - 1) for _ in range(rng.randrange(4))}
    return tuple(value(rng, depth - 1) for _ in range(rng.randrange(4)))


def ref(rng, hid=None):
    return AtomRef(cid="c" + ident(rng, 3), hid=hid or "h" + ident(rng, 4), in_memory=False, obj=None)


def make_call(rng, refs=None, hid=None, cid=None):
    """a well-formed call: at least one input or output, names disjoint"""
    op = Op(rng.choice(["f", "g", "train_model", "x_1"]), None)
    ni, no = rng.randrange(4), rng.randrange(13) if rng.random() < .15 else rng.randrange(3)
    if ni + no == 0:
        no = 1
    pick = lambda: rng.choice(refs) if refs and rng.random() < .7 else ref(rng)
    names = rng.sample(["x", "y", "data", "elts_0", "elts_10", "a b", "in", "out", "name", "index"], ni)
    ins = {n: pick() for n in names}
    outs = {f"output_{i}": pick() for i in range(no)}
    return Call(op=op, cid=cid or "cc" + ident(rng, 3), hid=hid or "ch" + ident(rng, 4), inputs=ins, outputs=outs,
                semantic_version=rng.choice([None, "s" + ident(rng, 3)]), content_version=rng.choice([None, "v" + ident(rng, 3)]))


def norm(x):
    """a missing version reads back as None or NaN depending on the backend"""
    return None if x is None or x != x else x


def call_record(c):
    return dict(op_name=c.op.name, cid=c.cid, hid=c.hid, input_hids={k: v.hid for k, v in c.inputs.items()}, output_hids={k: v.hid for k, v in c.outputs.items()},
                input_cids={k: v.cid for k, v in c.inputs.items()}, output_cids={k: v.cid for k, v in c.outputs.items()},
                semantic_version=c.semantic_version, content_version=c.content_version)


def rec_norm(r):
    return {k: (norm(v) if k.endswith("version") else dict(v) if isinstance(v, dict) else v) for k, v in r.items()}


def show(c):
    return f"{c.op.name}[{c.hid}/{c.cid}]({','.join(k + '=' + v.hid for k, v in c.inputs.items())})->({','.join(k + '=' + v.hid for k, v in c.outputs.items())})@{c.semantic_version}"


def adapter(rng, d):
    return su.DBAdapter() if rng.random() < .6 else su.DBAdapter(db_path=os.path.join(d, ident(rng) + ".db"))


class Raises:
    """runs a callable and records the exception, if any"""
    def __init__(self, f, *a, **k):
        self.exc = self.value = None
        try:
            self.value = f(*a, **k)
        except Exception as e:
            self.exc = e
