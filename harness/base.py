"""Scenario framework: a scenario draws one case from an rng, runs the real code and compares with an oracle."""
import contextlib, io, os, shutil, tempfile, traceback


HERE = os.path.dirname(os.path.abspath(__file__))


class Violation(Exception):
    def __init__(self, what, sig=None):
        super().__init__(what)
        self.what, self.sig = what, sig


class Scenario:
    def __init__(self, fn, quick, thorough, weight):
        self.fn, self.name, self.quick, self.thorough, self.weight = fn, fn.__name__, quick, thorough, weight


def scenario(quick=100, thorough=1000, weight=1.0):
    def deco(fn):
        fn._scenario = Scenario(fn, quick, thorough, weight)
        return fn
    return deco


def scenarios(mod):
    return [v._scenario for k, v in sorted(vars(mod).items()) if hasattr(v, "_scenario")]


def check(cond, what, sig=None):
    if not cond:
        raise Violation(what() if callable(what) else what, sig)


def eq(got, want, what, sig=None):
    if got != want:
        raise Violation(f"{what}: got {got!r}, want {want!r}", sig)


class Log:
    """the operations of the case, for samples and for reporting"""
    def __init__(self):
        self.ops = []

    def __call__(self, *x):
        self.ops.append(" ".join(str(y) for y in x))

    def __str__(self):
        return "; ".join(self.ops)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mandala_case_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Skip(Exception):
    """the drawn case is outside the property's scope"""


def execute(sc, rng):
    log = Log()
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            sc.fn(rng, log)
    except Skip:
        return None, None
    except Violation as v:
        return dict(sig=v.sig or sc.name, what=v.what, case=str(log)), str(log)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/mandala/" in f.filename), None)
        if tb and os.path.dirname(os.path.abspath(tb[-1].filename)) == HERE and isinstance(ex, (AttributeError, ImportError, TypeError, KeyError)) and not os.environ.get("HARNESS_STRICT"):
            return None, None        # the harness could not drive this tree (renamed internals): no verdict
        if where is None and not any("/repo" in f.filename or "mandala" in f.filename for f in tb):
            where = "harness"
        return dict(sig=f"{sc.name}: {type(ex).__name__} in {where}", what=f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1200:], case=str(log)), str(log)
    s = str(log)
    return None, (s if s else None)
