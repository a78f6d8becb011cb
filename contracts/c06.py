"""C06 Merge spaces of recipes are checked and inferred soundly"""
import typing
from vc.report import Proof
from .common import *

ID = "C06"
LEVEL = "proof"
TRUSTED = [
    "two merge spaces are equal exactly when their identifiers are equal; hashing agrees with equality (set lookups are evaluated by comparison)",
    "inspect.getfullargspec and typing.get_type_hints describe the wrapped function",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py, vc/strings.py; z3, cvc5",
]
ASSUMPTIONS = ["signatures are the builtin merge methods plus a generated family; the merge spaces of the arguments are arbitrary (symbolic identifiers)"]
PROOF_BUDGET = 70
SUITE_BUDGET = 6
PARAM_LITERALS = (str, int, float, bool)


# ----------------------------------------------------------------- reference semantics (written from the property)
class Spec:
    """what the signature of a merge method declares, read from its annotations"""

    def __init__(self, method):
        fn = method.__wrapped__
        hints = typing.get_type_hints(fn)
        self.default = object()   # the symbol of unconstrained parameters
        self.pos, self.var, self.kw = [], None, {}
        for p in inspect.signature(fn).parameters.values():
            if p.kind is p.VAR_KEYWORD:
                continue
            data = self.data(hints[p.name])
            space = self.space(data, p.default is not p.empty)
            if p.kind is p.VAR_POSITIONAL:
                self.var = space
            elif p.kind is p.KEYWORD_ONLY:
                self.kw[p.name] = space
            else:
                self.pos.append(space)
        self.ret = hints["return"].data.merge_space

    @staticmethod
    def data(hint):
        args = [a for a in typing.get_args(hint) if a is not type(None)]
        return (args[0] if args else hint).data

    def space(self, data, has_default):
        if data.merge_space is not None:
            return data.merge_space
        if has_default or isinstance(data.interface, type) and issubclass(data.interface, PARAM_LITERALS):
            return {merge_spaces.resolve("param")}
        return self.default

    def allowed(self, declared):
        if declared is self.default:
            return {"weight", "delta", "param"} | {s.identifier for s in merge_spaces.get_all()}
        if isinstance(declared, merge_spaces.MergeSpaceSymbol):
            return {s.identifier for s in declared.merge_spaces}
        return {s.identifier for s in declared}

    def all_declared(self, nargs):
        """including the parameters that take their defaults"""
        return [self.pos[i] if i < len(self.pos) else self.var for i in range(max(nargs, len(self.pos)))] + list(self.kw.values())

    def declared(self, nargs, kwnames):
        return [self.pos[i] if i < len(self.pos) else self.var for i in range(nargs)] + [self.kw[k] for k in kwnames]

    def result(self, decl, full):
        """('fixed', id) | ('arg', index of the argument that determines it) | ('error', None)"""
        def first(symbol):
            return next((i for i, d in enumerate(decl) if d is symbol), None)
        if isinstance(self.ret, merge_spaces.MergeSpaceSymbol):
            i = first(self.ret)
            return ("arg", i) if i is not None else ("error", None)
        if self.ret is not None:
            return ("fixed", self.ret.identifier)
        i = first(self.default)
        if i is not None:
            return ("arg", i)
        sets = [frozenset(s.identifier for s in d) if isinstance(d, (set, frozenset)) else None for d in full]
        if sets and None not in sets and len(set(sets)) == 1 and len(sets[0]) == 1:
            return ("fixed", next(iter(sets[0])))
        return ("error", None)


# ----------------------------------------------------------------- generated signatures
KINDS = {
    "W": ("Parameter(Tensor, 'weight')", ""),
    "WD": ("Parameter(Tensor, {'weight', 'delta'})", ""),
    "S1": ("Parameter(Tensor, S1)", ""),
    "S2": ("Parameter(Tensor, S2)", ""),
    "N": ("Parameter(Tensor)", ""),
    "SD": ("Parameter(StateDict[Tensor])", ""),
    "F": ("Parameter(float)", ""),
    "T": ("Parameter(str)", ""),
    "I": ("Parameter(int, {'weight', 'param'})", ""),
    "D": ("Parameter(Tensor)", " = 1.0"),
}
RETURNS = {"delta": "Return(Tensor, 'delta')", "S1": "Return(Tensor, S1)", "S2": "Return(Tensor, S2)", "none": "Return(Tensor)"}
_symbols = None


def symbols():
    global _symbols
    if _symbols is None:
        _symbols = dict(S1=merge_spaces.MergeSpaceSymbol("weight", "delta"), S2=merge_spaces.MergeSpaceSymbol("delta", "param", "weight"))
    return _symbols


def make(pos, var, kw, ret):
    """a merge method, or None where the declaration itself is rejected"""
    if ret in ("S1", "S2") and ret not in (*pos, var, *kw):
        pass
    parts, seen_default = [], False
    for i, k in enumerate(pos):
        ann, dflt = KINDS[k]
        if seen_default and not dflt:
            return None
        seen_default = seen_default or bool(dflt)
        parts.append(f"p{i}: {ann}{dflt}")
    if var:
        parts.append(f"*rest: {KINDS[var][0]}")
    elif kw:
        parts.append("*")
    parts += [f"k{i}: {KINDS[k][0]}{KINDS[k][1]}" for i, k in enumerate(kw)]
    name = "vc_" + "_".join((*pos, "v", var or "", "k", *kw, "r", ret))
    try:
        return define_method(f"def {name}({', '.join(parts)}) -> {RETURNS[ret]}:\n    return None\n", name, symbols(), register=False)
    except (TypeError, RuntimeError):
        return None


class Stub(RecipeNode):
    """a recipe of arbitrary merge space and config"""

    def __init__(self, space, config=None):
        self._space, self._config = space, config

    merge_space = property(lambda self: self._space)
    model_config = property(lambda self: self._config)

    def accept(self, visitor, *args, **kwargs):
        if type(visitor).__name__ == "ModelsCountVisitor":
            return 0
        return self

    def __contains__(self, item):
        return self is item

    def to(self, **kwargs):
        return self


# ----------------------------------------------------------------- contracts
def arbitrary_space(c, name):
    from vc.strings import any_string
    s = merge_spaces.MergeSpace(any_string(name))
    s.vc_symkey = True
    return s


def var_of(space):
    return space.identifier.parts[0].var if type(space.identifier) is not str else None


def check_call(c, method, nargs, kwnames):
    import z3
    from vc.values import lit
    spec = Spec(method)
    spaces = [arbitrary_space(c, f"s{i}") for i in range(nargs + len(kwnames))]
    nodes = [Stub(s) for s in spaces]
    decl = spec.declared(nargs, kwnames)

    def is_(a, b):
        return a == (lit(b) if isinstance(b, str) else b)
    ok = [z3.Or([is_(var_of(s), i) for i in sorted(spec.allowed(d))]) for s, d in zip(spaces, decl)]
    for i, d in enumerate(decl):
        for j in range(i):
            if decl[j] is d and not isinstance(d, (set, frozenset)):
                ok.append(var_of(spaces[i]) == var_of(spaces[j]))
    kind, what = spec.result(decl, spec.all_declared(nargs))
    accept = z3.And([z3.BoolVal(kind != "error"), *ok])
    try:
        # omitted parameters take their defaults; they are in the param space
        node = method(*nodes[:nargs], **dict(zip(kwnames, nodes[nargs:])))
        got = node.merge_space
    except Exception as e:
        if not isinstance(e, (TypeError, ValueError, RuntimeError, KeyError, StopIteration)):
            raise
        c.prove("only recipes with wrong merge spaces are rejected", z3.Not(accept))
        return
    c.cover("accepted")
    c.prove("a recipe with wrong merge spaces is rejected", accept)
    want = lit(what) if kind == "fixed" else var_of(spaces[what]) if kind == "arg" else None
    if want is not None:
        g = lit(got.identifier) if type(got.identifier) is str else var_of(got)
        c.prove("the merge space of the result", g == want)


def required_kw(method):
    return [p.name for p in inspect.signature(method.__wrapped__).parameters.values() if p.kind is p.KEYWORD_ONLY and p.default is p.empty]


def h_builtin(methods):
    def h(c):
        m = c.choose(methods, "method")
        s = inspect.signature(m.__wrapped__).parameters.values()
        npos = len([p for p in s if p.kind is p.POSITIONAL_OR_KEYWORD])
        required = len([p for p in s if p.kind is p.POSITIONAL_OR_KEYWORD and p.default is p.empty])
        var = any(p.kind is p.VAR_POSITIONAL for p in s)
        nargs = npos + c.choice(3, "variadic") if var else required if npos > 4 else c.choose(range(required, npos + 1), "args")
        kws = [p.name for p in s if p.kind is p.KEYWORD_ONLY]
        kw = required_kw(m)
        if len(kws) > len(kw) and len(kws) <= 2 and c.choice(2, "optional keywords"):
            kw = kws
        check_call(c, m, nargs, kw)
    return h


def h_generated(pairs):
    def h(c):
        pos, var, kw = c.choose(pairs, "signature")
        ret = c.choose(sorted(RETURNS), "return")
        m = make(pos, var, kw, ret)
        if m is None:
            c.assume(False)
        nargs = len(pos) + (c.choice(3, "variadic") if var else 0)
        kws = [f"k{i}" for i in range(len(kw))]
        check_call(c, m, nargs, kws)
    return h


def h_strict(c):
    """merge() of a recipe in an arbitrary merge space"""
    import z3
    from vc.values import lit

    class Config:
        identifier = "vc-config"
        metadata = staticmethod(lambda: {})
        components = staticmethod(lambda: {})
        keys = metadata
        aliases = metadata
    space = arbitrary_space(c, "space")
    node = Stub(space, Config())
    strict = c.choose([..., True, False], "strict")
    kw = {} if strict is ... else dict(strict_weight_space=strict)
    omit = c.choose([..., True, False], "omit extra keys")
    kw |= {} if omit is ... else dict(omit_extra_keys=omit)
    weight = var_of(space) == lit("weight")
    try:
        sd_mecha.merge(node, threads=0, **kw)
    except ValueError:
        c.prove("strict merges fail only outside of weight space", z3.And(z3.BoolVal(strict is not False), z3.Not(weight)))
        return
    c.cover("merged")
    c.prove("a strict merge only runs in weight space", z3.Or(z3.BoolVal(strict is False), weight))


def proofs():
    ms = sorted(merge_methods.get_all(), key=lambda m: m.identifier)
    ms = [m for m in ms if not m.identifier.startswith("vc_")]
    plain = [m for m in ms if not any(p.kind is p.VAR_POSITIONAL for p in inspect.signature(m.__wrapped__).parameters.values())]
    yield Proof("builtin merge methods with arguments in arbitrary merge spaces", h_builtin(plain))
    yield Proof("variadic builtin merge methods with arguments in arbitrary merge spaces", h_builtin([m for m in ms if m not in plain]), kind="bounded", bound="up to 2 variadic arguments")
    yield Proof("a strict merge only runs in weight space", h_strict)
    ks = sorted(KINDS)
    one = [((k,), None, ()) for k in ks] + [((), k, ()) for k in ("S1", "N", "F", "WD")] + [((k,), None, (q,)) for k in ("S1", "N", "F", "W") for q in ks]
    two = [((k, q), None, ()) for k in ("N", "S1", "S2", "F", "WD") for q in ("N", "S1", "D", "WD")]
    var = [((k,), v, ()) for k in ("N", "S1", "F") for v in ("N", "S1", "F")]
    yield Proof("generated signatures: one parameter, keyword parameters", h_generated(one), kind="bounded", bound="up to 3 arguments", max_paths=20000)
    yield Proof("generated signatures: two parameters", h_generated(two), kind="bounded", bound="2 arguments", max_paths=20000)
    yield Proof("generated signatures: variadic parameters", h_generated(var), kind="bounded", bound="up to 2 variadic arguments", max_paths=20000)
    two = [((k, q), None, ()) for k in ks for q in ks]
    var = [((k,), v, ()) for k in ks for v in ("N", "S1", "S2", "F", "WD")]
    three = [((k, q, x), None, ()) for k in ("N", "S1", "S2", "F", "WD") for q in ("N", "S1", "S2") for x in ("N", "S1", "F", "D")]
    yield Proof("generated signatures: two parameters (all kinds)", h_generated(two), kind="bounded", bound="2 arguments", max_paths=200000, thorough_only=True)
    yield Proof("generated signatures: variadic parameters (all kinds)", h_generated(var), kind="bounded", bound="up to 2 variadic arguments", max_paths=200000, thorough_only=True)
    yield Proof("generated signatures: three parameters", h_generated(three), kind="bounded", bound="3 arguments", max_paths=200000, thorough_only=True)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
IDS = ["weight", "delta", "param"]


def node_in(space, via):
    if via == 0:
        return ModelRecipeNode(pathlib.Path("m"), merge_space=space)
    if via == 1:
        return LiteralRecipeNode(1.0, merge_space=space)
    if via == 2:
        return LiteralRecipeNode({"k": torch.zeros(1)}, merge_space=space)
    src = {"weight": "Return(Tensor, 'weight')", "delta": "Return(Tensor, 'delta')", "param": "Return(Tensor, 'param')"}[space]
    return define_method(f"def vc_const_{space}(a: Parameter(Tensor)) -> {src}:\n    return a\n", f"vc_const_{space}", register=False)(1.0)


def expected(spec, decl, spaces, nargs):
    for d, s in zip(decl, spaces):
        if s not in spec.allowed(d):
            return "error"
    for i, d in enumerate(decl):
        for j in range(i):
            if decl[j] is d and not isinstance(d, (set, frozenset)) and spaces[i] != spaces[j]:
                return "error"
    kind, what = spec.result(decl, spec.all_declared(nargs))
    return "error" if kind == "error" else what if kind == "fixed" else spaces[what]


def outcome(fn):
    try:
        return fn().merge_space.identifier
    except (TypeError, ValueError, RuntimeError, KeyError, StopIteration) as e:
        return "error"


def case_signature(pos, var, kw, ret, spaces, via):
    m = make(tuple(pos), var, tuple(kw), ret)
    if m is None:
        return
    spec = Spec(m)
    nargs = len(spaces) - len(kw)
    kws = [f"k{i}" for i in range(len(kw))]
    nodes = [node_in(s, v) for s, v in zip(spaces, via)]
    want = expected(spec, spec.declared(nargs, kws), spaces, nargs)
    got = outcome(lambda: m(*nodes[:nargs], **dict(zip(kws, nodes[nargs:]))))
    check(got == want, "merge space", got=got, want=want, pos=pos, var=var, kw=kw, ret=ret, spaces=spaces)


def case_builtin(name, spaces, nargs, kws):
    m = merge_methods.resolve(name)
    spec = Spec(m)
    nodes = [node_in(s, i % 2) for i, s in enumerate(spaces)]
    want = expected(spec, spec.declared(nargs, kws), spaces, nargs)
    got = outcome(lambda: m(*nodes[:nargs], **dict(zip(kws, nodes[nargs:]))))
    check(got == want, "merge space of a builtin method", name=name, got=got, want=want, spaces=spaces)


def case_values(kind):
    """plain numbers and texts are in the param space"""
    m = make(("N", kind), None, (), "none")
    w = node_in("weight", 0)
    v = "t" if kind == "T" else 1.5
    if kind in ("F", "T", "D"):
        check(m(w, v).merge_space.identifier == "weight", "a plain value must be in the param space")
        for s in IDS:
            got = outcome(lambda: m(w, node_in(s, 1)))
            check(got == ("weight" if s == "param" else "error"), "parameters of this kind are in the param space", kind=kind, space=s, got=got)
    check(LiteralRecipeNode(v).merge_space.identifier == "param", "literals are in the param space")
    m = make(("N",), kind, (), "none")
    if m is not None and kind in ("F", "T"):
        check(m(w, v, v).merge_space.identifier == "weight", "variadic plain values must be in the param space")


def case_strict(space, form, strict, omit):
    cfg = synthetic_config("vc06-x", {"m": {"k": ([2], "float32", [], False)}})
    with scratch() as d:
        t = torch.ones(2)
        if form == "file":
            write_st(d / "m.safetensors", {"k": t})
            node = ModelRecipeNode(d / "m.safetensors", model_config=cfg, merge_space=space)
        elif form == "dict":
            node = LiteralRecipeNode({"k": t}, model_config=cfg, merge_space=space)
        else:
            node = LiteralRecipeNode({"k": t}, model_config=cfg, merge_space="weight")
            if space == "delta":
                node = node - LiteralRecipeNode({"k": t * 0.5}, model_config=cfg, merge_space="weight")
            elif space == "param":
                node = define_method("def vc_to_param(a: Parameter(Tensor)) -> Return(Tensor, 'param'):\n    return a\n", "vc_to_param")(node)
        kw = {} if strict is None else dict(strict_weight_space=strict)
        out = d / "out.safetensors"
        before = {"x": 1}
        try:
            sd_mecha.merge(node, threads=0, omit_extra_keys=omit, output=out, **kw)
            ok = True
        except ValueError:
            ok = False
        check(ok == (strict is False or space == "weight"), "strict weight space", space=space, strict=strict, ok=ok)
        if not ok:
            check(not out.exists(), "a rejected merge wrote an output file")


def case_default_declared(kind):
    """a parameter with a default must be in the param space"""
    bad = ["Parameter(Tensor, 'weight') = 1.0", "Parameter(Tensor, {'weight', 'param'}) = 1.0", "Parameter(float, 'delta') = 1.0"][kind]
    try:
        define_method(f"def vc_bad{kind}(a: Parameter(Tensor), b: {bad}) -> Return(Tensor):\n    return a\n", f"vc_bad{kind}", register=False)
    except TypeError:
        return
    check(False, "a default outside of the param space was accepted")


def case_graph(seed):
    """merge spaces propagate through graphs"""
    r = random.Random(seed)
    ms = [m for m in (make((a, b), None, (), ret) for a in ("N", "S1", "S2", "WD") for b in ("N", "S1", "F") for ret in RETURNS) if m is not None]
    nodes = [(node_in(s, v), s) for s in IDS for v in (0, 1)]
    for _ in range(12):
        m = r.choice(ms)
        spec = Spec(m)
        args = [r.choice(nodes) for _ in range(2)]
        want = expected(spec, spec.declared(2, []), [a[1] for a in args], 2)
        try:
            n = m(*(a[0] for a in args))
        except (TypeError, ValueError, RuntimeError, KeyError, StopIteration):
            check(want == "error", "a valid recipe was rejected", want=want)
            continue
        check(n.merge_space.identifier == want, "merge space of a node", want=want, got=n.merge_space.identifier)
        nodes.append((n, want))


CASES = {f.__name__[5:]: f for f in (case_signature, case_builtin, case_values, case_strict, case_default_declared, case_graph)}


def suite(S):
    r = S.rng
    for kind in ("F", "T", "D", "N"):
        S.run("values", kind=kind)
    for k in range(3):
        S.run("default_declared", kind=k)
    for space in IDS:
        for form in ("file", "dict", "merge"):
            for strict in (None, True, False):
                S.run("strict", space=space, form=form, strict=strict, omit=r.choice([True, False]))
    for m in sorted(merge_methods.get_all(), key=lambda m: m.identifier):
        if m.identifier.startswith("vc_"):
            continue
        ps = inspect.signature(m.__wrapped__).parameters.values()
        npos = len([p for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD])
        var = any(p.kind is p.VAR_POSITIONAL for p in ps)
        kws = [p.name for p in ps if p.kind is p.KEYWORD_ONLY]
        spec = Spec(m)
        for _ in range(6):
            n = npos + (r.randrange(0, 4) if var else 0)
            decl = spec.declared(n, kws)
            spaces = [r.choice(sorted(spec.allowed(d) & set(IDS))) if r.random() < 0.85 else r.choice(IDS) for d in decl]
            if r.random() < 0.6:
                for i, d in enumerate(decl):
                    for j in range(i):
                        if decl[j] is d:
                            spaces[i] = spaces[j]
            S.run("builtin", name=m.identifier, spaces=spaces, nargs=n, kws=kws)
    ks = sorted(KINDS)
    for k in ("N", "S1", "S2"):   # one argument out of many is in another space
        for n in (2, 3, 9, 20):
            for at in {0, 1, n // 2, n - 1}:
                for a, b in (("weight", "delta"), ("delta", "param")):
                    spaces = [a] * n
                    spaces[at] = b
                    S.run("signature", pos=[k], var=k, kw=[], ret="none", spaces=spaces, via=[1] * n)
                    S.run("signature", pos=[k], var=None, kw=[k] * (min(n, 4) - 1), ret="none", spaces=spaces[:min(n, 4)], via=[1] * min(n, 4))
    while S.more():
        pool = ks if r.random() < 0.5 else [r.choice(["N", "S1", "S2"]), r.choice(ks)]
        pos = [r.choice(pool) for _ in range(r.randrange(0, 4))]
        var = r.choice([None, None, "N", "S1", "S2", "F", "WD", "T"])
        kw = [r.choice(pool) for _ in range(r.choice([0, 0, 1, 2]))]
        n = len(pos) + (r.choice([0, 1, 2, 3, 7]) if var else 0) + len(kw)
        base = r.choice(IDS)
        spaces = [r.choice([base, base, "param", r.choice(IDS)]) for _ in range(n)]
        S.run("signature", pos=pos, var=var, kw=kw, ret=r.choice(sorted(RETURNS)), spaces=spaces, via=[r.randrange(4) for _ in range(n)])
        if r.random() < 0.02:
            S.run("graph", seed=r.randrange(10**9))
