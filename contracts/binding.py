"""C03: contracts of argument binding (Storage.parse_args, boundargs_to_args_kwargs, _conservative_equality_check)."""
from pyver.core import *
from pyver import theory
import z3


def install(reg):
    signatures(reg)
    equality(reg)
    rebuild(reg)
    parse(reg)


KINDS = ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")


def signatures(reg):
    """inspect: a signature is a map from names to parameters; bind() attaches a value to each name given"""
    reg.cls("Parameter", kind="term", fields={"name": "str", "kind": "any", "default": "any", "annotation": "any"})
    reg.cls("Signature", kind="term", fields={"return_annotation": "any", "parameters": "dict[str,obj[Parameter]]"})
    reg.cls("BoundArguments", fields={"signature": "obj[Signature]", "arguments": "dict[str,any]"})
    for k in KINDS:
        reg.class_consts[("Parameter", k)] = reg.class_consts[("inspect.Parameter", k)] = "kind " + k
    has, at = pure("map_has", [U, U], B), pure("map_at", [U, U], U)
    bound = pure("py_bound", [U, U, U], U)
    full = pure("py_defaulted", [U], U)

    def view(t):
        return DictV(lambda k: has(t, term(k, U)), lambda k: T(at(t, term(k, U)), ANY), STR, ANY)

    def star(x):
        return x.v if isinstance(x, Opaque) and x.kind == "star" else x

    def bind(ip, st, args, kw, e):
        line = getattr(e, "lineno", None)
        if len(args) != 2 or not (isinstance(args[1], Opaque) and args[1].kind == "star") or set(kw) != {"**"}:
            raise Unsup("bind with explicit arguments")
        sig, a, k = args[0], star(args[1]), kw["**"]
        ok = pure("py_bindable", [U, U, U], B)(sig.t, term(a, U), term(k, U))
        x, y = ip.fork(st, ok, line)
        out = [] if y is None else [ip.raise_(y, "TypeError", line)]
        if x is not None:
            b = bound(sig.t, term(a, U), term(k, U))
            cell = ip.mkparam(reg.parse_ty("cell[BoundArguments]"), f"bound{line}", x)
            f = dict(x.heap[cell.root].fields)
            f["signature"] = sig
            f["arguments"] = ip.box(x, view(b))
            x.heap[cell.root] = ObjC("BoundArguments", f)
            kk = z3.FreshConst(U, "k")
            params = ip.deref(x, ip.getattr(x, sig, "parameters")[0][1])
            x.assume(z3.ForAll([kk], z3.Implies(has(b, kk), params.mem(T(kk, STR))), patterns=[has(b, kk)]))
            out.append((x, cell))
        return out
    reg.models["Signature.bind"] = bind

    def apply_defaults(ip, st, args, kw, e):
        cell = args[0]
        f = dict(st.heap[cell.root].fields)
        old = ip.deref(st, f["arguments"])
        sig = f["signature"]
        # the term the current arguments are a view of
        k0 = z3.FreshConst(U, "k")
        m = old.mem(T(k0, STR))
        if not (z3.is_app(m) and m.decl().eq(has) and m.arg(1).eq(k0)):
            raise Unsup("apply_defaults on changed arguments")
        b = m.arg(0)
        t = full(b)
        params = ip.deref(st, ip.getattr(st, sig, "parameters")[0][1])
        st.assume(z3.ForAll([k0], has(t, k0) == params.mem(T(k0, STR)), patterns=[has(t, k0)]))
        st.assume(z3.ForAll([k0], z3.Implies(has(b, k0), at(t, k0) == at(b, k0)), patterns=[at(t, k0)]))
        f["arguments"] = ip.box(st, view(t))
        st.heap[cell.root] = ObjC("BoundArguments", f)
        return [(st, None)]
    reg.models["BoundArguments.apply_defaults"] = apply_defaults

    def spec_bound(ip, st, args, kw, e):
        sig, a, k, d = args
        b = bound(sig.t, term(a, U), term(k, U))
        return [(st, T(z3.If(term(d), full(b), b) if not isinstance(d, bool) else full(b) if d else b, ANY))]
    reg.builtins["bound"] = spec_bound
    reg.trust("inspect.Signature", "bind() binds as a plain call would and raises TypeError where that would; apply_defaults() adds the missing parameters and changes nothing else; parameters come in definition order with distinct names; at most one *args and one **kwargs; kinds in Python's order")
    reg.trust("sequence and mapping views", "values bound to *args are tuples and to **kwargs dicts with text keys (any untyped value iterated over is viewed as a sequence, one asked for items() as a mapping)")


def equality(reg):
    reg.trust("numpy.array_equal, DataFrame.equals, ==", "pure; == between plain values of one type is equality of contents")
    reg.builtins["np.array_equal"] = reg.builtins["numpy.array_equal"] = lambda ip, st, args, kw, e: [(st, T(pure("array_equal", [U, U], B)(term(args[0], U), term(args[1], U)), BOOL))]
    reg.builtins["array_equal"] = reg.builtins["np.array_equal"]
    reg.builtins["frame_equals"] = lambda ip, st, args, kw, e: [(st, T(pure("frame_equals", [U, U], B)(term(args[0], U), term(args[1], U)), BOOL))]
    reg.duck_methods["equals"] = reg.builtins["frame_equals"]
    reg.spec('''
def ceq(d, v):
    return type(d) == type(v) and (array_equal(d, v) if isinstance(v, np.ndarray) else frame_equals(d, v) if isinstance(v, pd.DataFrame) else d == v)
''')
    reg.contract("_conservative_equality_check", types={"safe_value": "any", "unknown_value": "any"}, returns="bool", props=["C03"], pure=True,
                 ensures=["result == ceq(safe_value, unknown_value)"])


def rebuild(reg):
    reg.ordered_fields.add(("Signature", "parameters"))
    key, ln = pure("Signature.parameters!key", [U, I], U), pure("Signature.parameters!len", [U], I)
    reg.builtins["pname"] = lambda ip, st, args, kw, e: [(st, T(key(term(args[0], U), term(args[1], I)), STR))]
    reg.builtins["nparams"] = lambda ip, st, args, kw, e: [(st, T(ln(term(args[0], U)), INT))]
    reg.spec('''
def pkind(s, i):
    return s.parameters[pname(s, i)].kind
def pval(b, i):
    return b.arguments[pname(b.signature, i)]
def python_order(s, np):
    """np positional parameters first, then at most one *args, then keyword-only ones and **kwargs"""
    return (0 <= np and np <= nparams(s)
        and forall('int', lambda i: implies(0 <= i and i < np, pkind(s, i) in ('kind POSITIONAL_ONLY', 'kind POSITIONAL_OR_KEYWORD')))
        and forall('int', lambda i: implies(np < i and i < nparams(s), pkind(s, i) in ('kind KEYWORD_ONLY', 'kind VAR_KEYWORD')))
        and implies(np < nparams(s), pkind(s, np) in ('kind VAR_POSITIONAL', 'kind KEYWORD_ONLY', 'kind VAR_KEYWORD')))
def star_at(b, np):
    return np < nparams(b.signature) and pkind(b.signature, np) == 'kind VAR_POSITIONAL'
def kw_name(b, i):
    return pkind(b.signature, i) == 'kind KEYWORD_ONLY'
def kw_star(b, i):
    return pkind(b.signature, i) == 'kind VAR_KEYWORD'
''')
    A = "forall('int', lambda i: implies(0 <= i and i < np{d}, i < len({a}) and {a}[i] == pval(bound_args, i)))"
    S = "implies(star_at(bound_args, np){d}, len({a}) == np + len(pval(bound_args, np)) and forall('int', lambda i: implies(0 <= i and i < len(pval(bound_args, np)), {a}[np + i] == pval(bound_args, np)[i])))"
    N = "implies(not (star_at(bound_args, np){d}), len({a}) <= np)"
    W = "0 <= i and i < nparams(bound_args.signature)"
    K = ["forall('int', lambda i: implies(" + W + "{d} and kw_name(bound_args, i), pname(bound_args.signature, i) in {k} and {k}[pname(bound_args.signature, i)] == pval(bound_args, i)))",
         "forall('int,str', lambda i, n: implies(" + W + "{d} and kw_star(bound_args, i) and n in pval(bound_args, i), n in {k} and {k}[n] == pval(bound_args, i)[n]))",
         "forall('str', lambda n: implies(n in {k}, exists('int', lambda i: " + W + "{d} and (kw_name(bound_args, i) and n == pname(bound_args.signature, i) or kw_star(bound_args, i) and n in pval(bound_args, i)))))"]
    reg.contract("boundargs_to_args_kwargs", types={"bound_args": "cell[BoundArguments]", "np": "int"}, ordered=True, returns="tup[vtup[any],dict[str,any]]", props=["C03"],
                 requires=["python_order(bound_args.signature, np)", f"forall('int', lambda i: implies({W}, pname(bound_args.signature, i) in bound_args.arguments))",
                           f"forall('int,int', lambda i, j: implies({W} and 0 <= j and j < nparams(bound_args.signature) and kw_star(bound_args, i) and kw_star(bound_args, j), i == j))",
                           "forall('int,str', lambda i, n: implies(" + W + " and kw_star(bound_args, i) and n in pval(bound_args, i), implies(n in bound_args.signature.parameters, bound_args.signature.parameters[n].kind != 'kind KEYWORD_ONLY')))"], raises={},
                 loops=[A.format(a="args_list", d=" and done(i)"), S.format(a="args_list", d=" and done(np)"), N.format(a="args_list", d=" and done(np)"),
                        "forall('int', lambda i: implies(0 <= i and i < np and not done(i), len(args_list) <= i))"] + [k.format(k="kwargs_dict", d=" and done(i)") for k in K],
                 ensures=[A.format(a="result[0]", d=""), S.format(a="result[0]", d=""), N.format(a="result[0]", d="")] + [k.format(k="result[1]", d="") for k in K])


def parse(reg):
    reg.duck["value"] = "_Ignore"
    k, i = z3.Const("k!argname", U), z3.Const("i!argname", I)
    nm = fstr_fn("{}_{}", [U, I])
    theory.register(["fstr!{}_{}"], z3.ForAll([k, i], pure("argname_index", [U, U], I)(k, nm(k, i)) == i, patterns=[nm(k, i)]))
    reg.trust("decimal text of integers", "the text of an integer holds no underscore and int() reads it back; different integers have different texts")
    from contracts import storage

    def unwrapped(ip, st, args, kw, e):
        c = ip.deref(st, args[0])
        t = c if isinstance(c, T) else ip.box_any(st, c)
        return [(st, T(pure("unwrapped", [U], U)(term(t, U)), ANY))]
    reg.builtins["unwrapped"] = unwrapped
    reg.contract("Storage.unwrap", types={"self": "cell[Storage]", "obj": "any", "cache": "any"}, sig="def unwrap(self, obj, cache=True): pass", returns="any", assumed=True, ensures=["result == unwrapped(obj)"])
    reg.spec('''
def par(sig, k, kind):
    return k in sig.parameters and sig.parameters[k].kind == kind
def isvp(sig, k):
    return par(sig, k, 'kind VAR_POSITIONAL')
def isvk(sig, k):
    return par(sig, k, 'kind VAR_KEYWORD')
def regular(sig, k):
    return k in sig.parameters and not isvp(sig, k) and not isvk(sig, k)
def plain(x):
    return x.value if isinstance(x, _Ignore) else x
def ignored(k, v, ignore_args):
    """kept from the storage whatever its value"""
    return isinstance(v, _Ignore) or ignore_args is not None and k in ignore_args
def defaulted(sig, k, v):
    """a NewArgDefault parameter given its default value"""
    return isinstance(sig.parameters[k].default, _NewArgDefault) and (isinstance(v, Ref) and ceq(sig.parameters[k].default.value, unwrapped(v)) or ceq(sig.parameters[k].default.value, v))
def shown(sig, k, v, ignore_args):
    """what the function gets for a regular parameter"""
    return plain(v) if ignored(k, v, ignore_args) else sig.parameters[k].default.value if defaulted(sig, k, v) else v
def stored(sig, k, v, ignore_args):
    return not ignored(k, v, ignore_args) and not defaulted(sig, k, v)
def no_clash(sig, bd):
    """the names given to extra arguments are not names of parameters or of each other (the known findings are the calls where they are)"""
    return (forall('str,int', lambda k, i: implies(isvp(sig, k), not (f'{k}_{i}' in sig.parameters)))
        and forall('str,str', lambda k, n: implies(isvk(sig, k) and k in bd and n in bd[k], not regular(sig, n)))
        and forall('str,int,str,str', lambda k, i, m, n: implies(isvp(sig, k) and isvk(sig, m) and m in bd and n in bd[m], n != f'{k}_{i}')))
def from_regular(sig, bd, ig, n):
    return regular(sig, n) and n in bd and stored(sig, n, bd[n], ig)
def from_star(sig, bd, n):
    return exists('str,int', lambda k, i: isvp(sig, k) and k in bd and 0 <= i and i < len(bd[k]) and not isinstance(bd[k][i], _Ignore) and n == f'{k}_{i}')
def from_kwargs(sig, bd, n):
    return exists('str', lambda k: isvk(sig, k) and k in bd and n in bd[k] and not isinstance(bd[k][n], _Ignore))
''')
    reg.builtins["notnone"] = lambda ip, st, args, kw, e: [(st, T(term(args[0], U) != NONE, BOOL))]
    BD = "bound(sig, args, kwargs, apply_defaults)"

    def I_(d, ba="result[0].arguments", si="result[1]", sa="result[2]", extra=""):
        """what is settled about the parameters for which `d` holds"""
        g = lambda f, k="k": f"k in {BD}" + (f" and done(k)" if d else "") + (f" and ({f})")
        return [
            f"forall('str', lambda k: implies({g('regular(sig, k)')}, {ba}[k] == shown(sig, k, {BD}[k], ignore_args)))",
            f"forall('str', lambda k: implies({g('regular(sig, k) and stored(sig, k, ' + BD + '[k], ignore_args)')}, k in {si} and {si}[k] == {BD}[k] and k in {sa} and {sa}[k] == sig.parameters[k].annotation))",
            f"forall('str', lambda k: implies({g('isvp(sig, k)')}, len({ba}[k]) == len({BD}[k]) and forall('int', lambda i: implies(0 <= i and i < len({BD}[k]), {ba}[k][i] == plain({BD}[k][i])))))",
            f"forall('str,int', lambda k, i: implies({g('isvp(sig, k) and 0 <= i and i < len(' + BD + '[k]) and not isinstance(' + BD + '[k][i], _Ignore)')}, f'{{k}}_{{i}}' in {si} and {si}[f'{{k}}_{{i}}'] == {BD}[k][i] and f'{{k}}_{{i}}' in {sa} and {sa}[f'{{k}}_{{i}}'] == sig.parameters[k].annotation))",
            f"forall('str,str', lambda k, n: implies({g('isvk(sig, k)')}, (n in {ba}[k]) == (n in {BD}[k]) and implies(n in {BD}[k], {ba}[k][n] == plain({BD}[k][n]))))",
            f"forall('str,str', lambda k, n: implies({g('isvk(sig, k) and n in ' + BD + '[k] and not isinstance(' + BD + '[k][n], _Ignore)')}, n in {si} and {si}[n] == {BD}[k][n] and n in {sa} and {sa}[n] == sig.parameters[k].annotation))",
            f"forall('str', lambda n: (n in {si}) == (n in {sa}))",
        ]
    WF = ["forall('any', lambda x: implies(x is inspect.Parameter.empty, not isinstance(x, _Ignore)))", "forall('str', lambda k: implies(k in sig.parameters, sig.parameters[k].name == k and notnone(sig.parameters[k])))", "forall('str,str', lambda j, k: implies(isvp(sig, j) and isvp(sig, k) or isvk(sig, j) and isvk(sig, k), j == k))", f"no_clash(sig, {BD})"]
    no = {"vp": "forall('str', lambda k: not isvp(sig, k))", "vk": "forall('str', lambda k: not isvk(sig, k))"}
    # the names below are those of the bound map and the loop's accumulators
    KEYS = f"forall('str', lambda k: (k in bound_arguments.arguments) == (k in {BD}))"
    LATER = f"forall('str', lambda k: implies(not done(k), bound_arguments.arguments[k] == {BD}[k]))"
    for nm, req, parts, src in (("regular", [no["vp"], no["vk"]], (0, 1, 6), ["from_regular"]),
                                ("star", [no["vk"]], (0, 1, 2, 3, 6), ["from_regular", "from_star"]),
                                ("kwargs", [no["vp"]], (0, 1, 4, 5, 6), ["from_regular", "from_kwargs"])):
        WHO = " or ".join(f"{x}(sig, {BD}, ignore_args, n)" if x == "from_regular" else f"{x}(sig, {BD}, n)" for x in src)
        inv = [KEYS, LATER, f"forall('str', lambda n: implies(n in storage_inputs, {WHO}))"] + [I_(True, "bound_arguments.arguments", "storage_inputs", "storage_annotations")[i] for i in parts]
        reg.lemma(f"lemma.parse_args_{nm}", "def f(self, sig, args, kwargs, apply_defaults, ignore_args):\n    return self.parse_args(sig, args, kwargs, apply_defaults, ignore_args)\n",
                  types={"self": "cell[Storage]", "sig": "obj[Signature]", "args": "any", "kwargs": "any", "apply_defaults": "bool", "ignore_args": "any"}, returns="tup[cell[BoundArguments],dict[str,any],dict[str,any]]", props=["C03"],
                  requires=WF + req, raises={"TypeError": None}, manual=True, budget=230, loops=[dict(expr="lambda: " + x, types=[], depth=0) for x in inv],
                  ensures=[f"forall('str', lambda k: (k in result[0].arguments) == (k in {BD}))"] + [I_(False)[i] for i in parts] + [f"forall('str', lambda n: implies(n in result[1], {WHO}))"])
