"""C07 Model configs of recipes are checked and inferred soundly"""
import itertools
import typing
from vc.report import Proof
from .common import *
from .c06 import Stub, Spec

ID = "C07"
LEVEL = "proof"
TRUSTED = [
    "two model configs are the same exactly when their identifiers are equal",
    "inspect.getfullargspec and typing.get_type_hints describe the wrapped function",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py, vc/strings.py; z3, cvc5",
]
ASSUMPTIONS = ["signatures are the builtin merge methods plus a generated family; the configs of the arguments are absent or arbitrary (symbolic identifiers)"]
PROOF_BUDGET = 60
SUITE_BUDGET = 5
KINDS = {"A": "Parameter(Tensor, None, 'sd1-ldm')", "B": "Parameter(StateDict[Tensor], None, 'sdxl-sgm')", "N": "Parameter(Tensor)", "F": "Parameter(float)", "C": "Parameter(StateDict, None, 'sd1-ldm')", "M": "Parameter(StateDict)"}
RETURNS = {"A": "Return(Tensor, None, 'sd1-ldm')", "B": "Return(Tensor, None, 'sdxl-sgm')", "N": "Return(Tensor)"}


def make(pos, var, kw, ret):
    parts = [f"p{i}: {KINDS[k]}" for i, k in enumerate(pos)]
    parts += [f"*rest: {KINDS[var]}"] if var else ["*"] if kw else []
    parts += [f"k{i}: {KINDS[k]}" for i, k in enumerate(kw)]
    name = "vc7_" + "_".join((*pos, "v", var or "", "k", *kw, "r", ret))
    try:
        return define_method(f"def {name}({', '.join(parts)}) -> {RETURNS[ret]}:\n    return None\n", name, register=False)
    except (TypeError, RuntimeError):
        return None


def declarations(method, nargs, kws):
    """(declared configs of the given arguments, declared config of the result)"""
    hints = typing.get_type_hints(method.__wrapped__)
    ps = [p for p in inspect.signature(method.__wrapped__).parameters.values()]
    conf = {p.name: getattr(Spec.data(hints[p.name]).model_config, "identifier", None) for p in ps if p.kind is not p.VAR_KEYWORD}
    pos = [p.name for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD]
    var = next((p.name for p in ps if p.kind is p.VAR_POSITIONAL), None)
    names = [pos[i] if i < len(pos) else var for i in range(nargs)] + list(kws)
    return [conf[n] for n in names], getattr(hints["return"].data.model_config, "identifier", None)


# ----------------------------------------------------------------- contracts
class AnyConfig:
    """a model config of which only the identifier matters"""

    def __init__(self, identifier):
        self.identifier = identifier

    metadata = keys = aliases = components = lambda self: {}


def arbitrary_config(c, name):
    from vc.strings import any_string
    return AnyConfig(any_string(name))


def ident(config):
    from vc.values import lit
    i = config.identifier
    return lit(i) if type(i) is str else i.parts[0].var


def check_configs(c, method, nargs, kws):
    import z3
    from vc.values import lit
    decl, ret = declarations(method, nargs, kws)
    configs = []
    for i in range(len(decl)):   # absent, an arbitrary config, or the very same object as that of the argument before
        k = c.choice(3 if configs and configs[-1] is not None and len(decl) <= 4 else 2, f"config of argument {i}")
        configs.append([None, lambda: arbitrary_config(c, f"c{i}"), lambda: configs[-1]][k] and [None, lambda: arbitrary_config(c, f"c{i}"), lambda: configs[-1]][k]())
    nodes = [Stub(None, g) for g in configs]
    given = [(d, g) for d, g in zip(decl, configs) if g is not None]
    conds = [ident(g) == lit(d) for d, g in given if d is not None]
    free = [g for d, g in given if d is None]
    if ret is not None:
        conds += [ident(g) == lit(ret) for g in free]
    else:
        conds += [ident(g) == ident(free[0]) for g in free[1:]]
    accept = z3.And([z3.BoolVal(True), *conds])
    try:
        got = method.get_return_config([n.model_config for n in nodes[:nargs]], {k: n.model_config for k, n in zip(kws, nodes[nargs:])})
    except ValueError:
        c.prove("only inputs with wrong configs are rejected", z3.Not(accept))
        return
    c.cover("accepted")
    c.prove("inputs with wrong configs are rejected", accept)
    if ret is not None:
        c.prove("the config of the result is the declared one", got is not None and type(got.identifier) is str and got.identifier == ret)
    elif free:
        c.prove("the config of the result is the shared one", z3.BoolVal(got is not None) if got is None else ident(got) == ident(free[0]))
    else:
        c.prove("without configs nothing is inferred", got is None)


def h_builtin(methods):
    def h(c):
        m = c.choose(methods, "method")
        ps = list(inspect.signature(m.__wrapped__).parameters.values())
        npos = len([p for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD])
        required = len([p for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD and p.default is p.empty])
        var = any(p.kind is p.VAR_POSITIONAL for p in ps)
        nargs = npos + c.choice(4, "variadic") if var else min(npos, max(required, 3))
        kws = [p.name for p in ps if p.kind is p.KEYWORD_ONLY][:max(0, 5 - nargs)]
        check_configs(c, m, nargs, kws)
    return h


def h_generated(family):
    def h(c):
        pos, var, kw = c.choose(family, "signature")
        m = make(pos, var, kw, c.choose(sorted(RETURNS), "return"))
        if m is None:
            c.assume(False)
        nargs = len(pos) + (c.choice(3, "variadic") if var else 0)
        check_configs(c, m, nargs, [f"k{i}" for i in range(len(kw))])
    return h


def h_node(c):
    """the node asks its merge method about exactly the configs of its arguments"""
    m = make(("N", "N"), None, ("N",), "N")
    given = []

    def contract(self, args, kwargs):
        given.append((list(args), dict(kwargs)))
        return result
    result = AnyConfig("result-x")
    nodes = [Stub(merge_spaces.resolve("weight"), arbitrary_config(c, f"c{i}") if c.choice(2, "config") else None) for i in range(3)]
    node = m(nodes[0], nodes[1], k0=nodes[2])
    c.overrides[merge_methods.MergeMethod.get_return_config] = contract
    got = node.model_config
    c.prove("the config of the node is what its merge method determines", got is result)
    c.prove("every argument is considered, in its place", len(given) >= 1 and all(len(a) == 2 and a[0] is nodes[0].model_config and a[1] is nodes[1].model_config and list(k) == ["k0"]
                                                                            and k["k0"] is nodes[2].model_config for a, k in given))


def h_merge(c):
    """merge() never evaluates a recipe whose configs are rejected"""
    import z3
    from vc.values import lit
    m = make(("A", "N"), None, (), "N")
    a = arbitrary_config(c, "a") if c.choice(2, "config a") else None
    b = arbitrary_config(c, "b") if c.choice(2, "config b") else None
    if a is None and b is None:
        c.assume(False)
    weight = merge_spaces.resolve("weight")
    node = m(Stub(weight, a), Stub(weight, b))
    ok = z3.And(z3.BoolVal(True), *([ident(a) == lit("sd1-ldm")] if a else []))
    if b is None:
        c.assume(False)   # a recipe without any config cannot be merged
    omit = c.choose([True, False], "omit extra keys")
    try:
        sd_mecha.merge(node, threads=0, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, omit_extra_keys=omit)
    except ValueError:
        c.prove("only wrong configs are rejected", z3.Not(ok))
        return
    c.cover("merged")
    c.prove("a recipe with wrong configs is rejected", ok)


def proofs():
    ms = [m for m in sorted(merge_methods.get_all(), key=lambda m: m.identifier) if not m.identifier.startswith("vc")]
    plain = [m for m in ms if not any(p.kind is p.VAR_POSITIONAL for p in inspect.signature(m.__wrapped__).parameters.values())]
    yield Proof("builtin merge methods with inputs of arbitrary configs", h_builtin(plain), max_paths=20000)
    yield Proof("variadic builtin merge methods with inputs of arbitrary configs", h_builtin([m for m in ms if m not in plain]), kind="bounded", bound="up to 3 variadic arguments", max_paths=20000)
    yield Proof("a node asks its merge method", h_node)
    yield Proof("merge rejects wrong configs", h_merge)
    ks = ("A", "B", "N")
    family = [((a, b), None, ()) for a in ks for b in ks] + [((a,), v, ()) for a in ks for v in ks] + [((a,), None, (b,)) for a in ks for b in ks] + [((), v, (b,)) for v in ks for b in ks]
    yield Proof("generated signatures", h_generated(family), kind="bounded", bound="up to 3 arguments", max_paths=40000)
    more = [((a, b, d), v, (e,)) for a in ks for b in ks for d in ks for v in (None, "N", "A") for e in ("N", "B")]
    yield Proof("generated signatures with up to 6 arguments", h_generated(more), kind="bounded", bound="up to 6 arguments", max_paths=400000, thorough_only=True)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
CONFIGS = ["sd1-ldm", "sdxl-sgm", "sd1-kohya", None, "structural"]


def resolved(config):
    """every structural config is an object of its own"""
    if config == "structural":
        return model_configs.StructuralModelConfig({"k": model_configs.KeyMetadata([1], "float32")})
    return config and model_configs.resolve(config)


def leaf(config, form=0):
    if config == "structural":
        config = resolved(config)
    if form == 0:
        return ModelRecipeNode(pathlib.Path("m"), model_config=config)
    if form == 1:
        return LiteralRecipeNode({"k": torch.zeros(1)}, model_config=config, merge_space="weight")
    return LiteralRecipeNode(1.0, model_config=config, merge_space="weight")


def expected(decl, ret, configs):
    given = [(d, g) for d, g in zip(decl, configs) if g is not None]
    if any(d is not None and d != g for d, g in given):
        return "error"
    free = {g for d, g in given if d is None}
    if ret is not None:
        return ret if free <= {ret} else "error"
    return "error" if len(free) > 1 else next(iter(free), None)


def outcome(fn):
    try:
        return config_id(fn())
    except ValueError:
        return "error"


def case_signature(pos, var, kw, ret, configs, forms):
    m = make(tuple(pos), var, tuple(kw), ret)
    if m is None:
        return
    nargs = len(configs) - len(kw)
    kws = [f"k{i}" for i in range(len(kw))]
    decl, r = declarations(m, nargs, kws)
    nodes = [leaf(g, f) for g, f in zip(configs, forms)]
    node = m(*nodes[:nargs], **dict(zip(kws, nodes[nargs:])))
    want = expected(decl, r, configs)
    got = outcome(lambda: node.model_config)
    check(got == want, "model config", got=got, want=want, pos=pos, var=var, kw=kw, ret=ret, configs=configs)
    got = outcome(lambda: node.model_config)
    check(got == want, "model config the second time", got=got, want=want)


def case_builtin(ident, configs, nargs, kws):
    m = merge_methods.resolve(ident)
    decl, ret = declarations(m, nargs, kws)
    got = outcome(lambda: m.get_return_config([resolved(c) for c in configs[:nargs]], {k: resolved(c) for k, c in zip(kws, configs[nargs:])}))
    check(got == expected(decl, ret, configs), "model config of a builtin method", got=got, ident=ident, configs=configs)


def case_graph(seed):
    r = random.Random(seed)
    ms = [m for m in (make((a, b), v, (), ret) for a in ("A", "N") for b in ("A", "N") for v in (None, "N") for ret in RETURNS) if m is not None]
    nodes = [(leaf(c, f), c) for c in CONFIGS for f in range(2)]
    for _ in range(14):
        m = r.choice(ms)
        n = 2 + (r.randrange(0, 3) if m.get_params().has_varargs() else 0)
        args = [r.choice(nodes) for _ in range(n)]
        decl, ret = declarations(m, n, [])
        want = expected(decl, ret, [a[1] for a in args])
        try:
            node = m(*(a[0] for a in args))
        except TypeError:
            continue   # merge spaces
        got = outcome(lambda: node.model_config)
        check(got == want, "model config of a node", got=got, want=want)
        if want != "error":
            nodes.append((node, want))


def case_merge(a, b, declared, deep):
    """incompatible inputs abort a merge before anything is written"""
    ca = synthetic_config("vc07a-x", {"m": {"k": ([2], "float32", [], False)}}, register=True)
    cb = synthetic_config("vc07b-x", {"m": {"k": ([2], "float32", [], False)}}, register=True)
    cfg = {"a": ca, "b": cb, None: None}
    decl = {"a": "Parameter(Tensor, None, 'vc07a-x')", "b": "Parameter(Tensor, None, 'vc07b-x')", None: "Parameter(Tensor)"}[declared]
    m = define_method(f"def vc07_{declared}(x: {decl}, y: Parameter(Tensor)) -> Return(Tensor):\n    return x\n", f"vc07_{declared}")
    with scratch() as d:
        write_st(d / "x.safetensors", {"k": torch.ones(2)})
        write_st(d / "y.safetensors", {"k": torch.ones(2)})
        x = ModelRecipeNode(d / "x.safetensors", model_config=cfg[a])
        y = ModelRecipeNode(d / "y.safetensors", model_config=cfg[b])
        node = m(x, y)
        for _ in range(deep):
            node = merge_methods.resolve("add_difference")(node, LiteralRecipeNode(0.5, merge_space="delta"), alpha=1.0)
        bad = declared is not None and a != declared or declared is None and a != b
        out = d / "out.safetensors"
        try:
            sd_mecha.merge(node, threads=0, output=out)
            ok = True
        except ValueError:
            ok = False
        check(ok == (not bad), "configs of a merge", a=a, b=b, declared=declared, ok=ok)
        check(ok or not out.exists(), "a rejected merge wrote an output file")


def case_dict_literal(a, b):
    ms = {"k": leaf(a), "l": leaf(b)}
    try:
        node = LiteralRecipeNode(ms)
        ok = True
    except ValueError:
        ok = False
    check(ok == (a == b), "dictionaries of recipes must share their config", a=a, b=b)
    if ok:
        check(config_id(node.model_config) == a, "config of a dictionary of recipes")


def case_declared_dict(declared, a, b, n):
    """a dictionary of recipes for which a config is declared"""
    ms = {f"k{i}": leaf(b if i == n - 1 else a) for i in range(n)}
    try:
        node = LiteralRecipeNode(ms, model_config=resolved(declared))
        ok = True
    except ValueError:
        ok = False
    check(ok == (a == b == declared), "dictionaries of recipes must have the declared config", declared=declared, a=a, b=b)
    if ok:
        check(config_id(node.model_config) == declared, "config of a dictionary of recipes")


CASES = {f.__name__[5:]: f for f in (case_declared_dict, case_signature, case_builtin, case_graph, case_merge, case_dict_literal)}


def suite(S):
    r = S.rng
    for a in CONFIGS[:2] + [None]:
        for b in CONFIGS[:2] + [None]:
            S.run("dict_literal", a=a, b=b)
            for c in CONFIGS[:2]:
                for n in (2, 5):
                    S.run("declared_dict", declared=c, a=a, b=b, n=n)
    for a, b in itertools.product("ab", "ab"):
        for declared in ("a", "b", None):
            S.run("merge", a=a, b=b, declared=declared, deep=r.randrange(0, 3))
    for m in sorted(merge_methods.get_all(), key=lambda m: m.identifier):
        if m.identifier.startswith("vc"):
            continue
        ps = list(inspect.signature(m.__wrapped__).parameters.values())
        npos = len([p for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD])
        var = any(p.kind is p.VAR_POSITIONAL for p in ps)
        kws = [p.name for p in ps if p.kind is p.KEYWORD_ONLY]
        for _ in range(4):
            n = npos + (r.randrange(0, 4) if var else 0)
            decl, ret = declarations(m, n, kws)
            base = r.choice(CONFIGS)
            S.run("builtin", ident=m.identifier, configs=[(d or ret or base) if r.random() < 0.6 else r.choice(CONFIGS) if r.random() < 0.3 else None for d in decl], nargs=n, kws=kws)
    while S.more():
        pos = [r.choice("ABNABNCM") for _ in range(r.randrange(0, 4))]
        var = r.choice([None, "A", "N", "N", "C", "M"])
        kw = [r.choice("ABNABNCM") for _ in range(r.choice([0, 0, 1, 2]))]
        n = len(pos) + (r.randrange(0, 4) if var else 0) + len(kw)
        if not n:
            continue
        base = r.choice([*CONFIGS[:3], "structural"])
        dec = [{"A": "sd1-ldm", "B": "sdxl-sgm", "N": base, "C": "sd1-ldm", "M": base}[k] for k in (*pos, *([var] * (n - len(pos) - len(kw))), *kw)]
        S.run("signature", pos=pos, var=var, kw=kw, ret=r.choice("ABN"), configs=[r.choice([x, x, x, None, r.choice(CONFIGS)]) for x in dec], forms=[r.randrange(3) for _ in range(n)])
        if r.random() < 0.05:
            S.run("graph", seed=r.randrange(10**9))
