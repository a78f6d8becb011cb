"""C08 Calling a merge method binds its arguments like a Python call"""
import itertools
from vc.report import Proof
from .common import *
from .c06 import Stub

ID = "C08"
LEVEL = "proof"
TRUSTED = [
    "inspect.signature(f).bind is the reference semantics of a Python call",
    "inspect.getfullargspec describes the wrapped function",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py, vc/strings.py; z3, cvc5",
]
ASSUMPTIONS = ["the arguments are opaque: arbitrary recipes, numbers and texts (symbolic); the number of parameters and arguments is bounded per contract"]
NOTE = ("The values of the arguments are arbitrary (symbolic); the shapes of signatures and calls are enumerated exhaustively up to the stated bounds (bounded), and for every builtin merge "
        "method all calls with up to its number of parameters plus one argument. Trusted: inspect.signature.bind as the oracle, the instrumentation, z3.")
PROOF_BUDGET = 60
SUITE_BUDGET = 8


def make(npos, ndef, var, nkw, kwdef, varkw=False):
    parts = [f"p{i}: Parameter(T)" + (f" = {100 + i}" if i >= npos - ndef else "") for i in range(npos)]
    parts += ["*rest: Parameter(T)"] if var else ["*"] if nkw else []
    parts += [f"k{i}: Parameter(T)" + (f" = {200 + i}" if kwdef >> i & 1 else "") for i in range(nkw)]
    parts += ["**kwargs"] if varkw else []
    name = f"vc8_{npos}{ndef}{int(var)}{nkw}{kwdef}{int(varkw)}"
    return define_method(f"def {name}({', '.join(parts)}) -> Return(T, 'weight'):\n    return 0\n", name, dict(T=merge_methods.T), register=False)


def signatures(maxpos, maxkw):
    for npos in range(maxpos + 1):
        for ndef in range(npos + 1):
            for var in (False, True):
                for nkw in range(maxkw + 1):
                    for kwdef in range(2 ** nkw) if npos or var or nkw else ():
                        yield npos, ndef, var, nkw, kwdef


def reference(method):
    """the signature without the implicit keyword arguments that merges add"""
    s = inspect.signature(method.__wrapped__)
    return s.replace(parameters=[p for p in s.parameters.values() if p.kind is not p.VAR_KEYWORD])


def bind(method, args, kwargs):
    """(positional and variadic arguments, keyword-only arguments) of a Python call, or None where it is rejected"""
    s = reference(method)
    try:
        b = s.bind(*args, **kwargs)
    except TypeError:
        return None
    b.apply_defaults()
    return list(b.args), dict(b.kwargs)


def argument_value(node):
    return node.value if isinstance(node, LiteralRecipeNode) else node


# ----------------------------------------------------------------- contracts
def compare(c, method, args, kwargs, same):
    want = bind(method, args, kwargs)
    before = list(args), dict(kwargs)
    try:
        node = method(*args, **kwargs)
    except TypeError:
        c.prove("a call is rejected only if Python would reject it", want is None)
        return
    except StopIteration:
        # a merge method without any argument has no merge space (C06)
        c.prove("a call is rejected only if Python would reject it", want is None or want == ([], {}))
        return
    c.cover("accepted")
    c.prove("a call that Python would reject is rejected", want is not None)
    if want is None:
        return
    c.prove("no argument is dropped or duplicated", len(node.args) == len(want[0]) and set(node.kwargs) == set(want[1]))
    for i, (a, b) in enumerate(zip(node.args, want[0])):
        c.prove(f"positional argument {i}", same(a, b))
    for k, v in want[1].items():
        if k in node.kwargs:
            c.prove(f"keyword argument {k}", same(node.kwargs[k], v))
    c.prove("the merge method of the node", node.merge_method is method)
    c.prove("the arguments of the call are not modified", before == (list(args), dict(kwargs)))


def same_opaque(node, value):
    """the node is the recipe given, or a literal of the very value given"""
    from vc.values import is_sym
    if isinstance(value, RecipeNode):
        return node is value
    if not isinstance(node, LiteralRecipeNode):
        return False
    return node.value is value or not is_sym(value) and node.value == value and type(node.value) is type(value)


def h_calls(family, maxargs):
    def h(c):
        m = make(*c.choose(family, "signature"))
        from vc.strings import any_string
        from vc.values import SInt, SReal
        s = reference(m)
        names = [p.name for p in s.parameters.values() if p.kind is not p.VAR_POSITIONAL] + [["unknown", "key", "cache", "kwargs"][len(s.parameters) % 4]]
        nargs = c.choice(maxargs + 1, "positional arguments")
        given = [n for n in names if c.choice(2, f"keyword {n}")]
        space = merge_spaces.resolve("param")

        def value(i):
            return [lambda: Stub(space), lambda: SInt(c.int(f"i{i}")), lambda: SReal(c.real(f"r{i}")), lambda: any_string(f"t{i}"), lambda: None, lambda: False][(i + nargs + 4 * (len(given) % 2)) % 6]()
        args = tuple(value(i) for i in range(nargs))
        kwargs = {n: value(nargs + i) for i, n in enumerate(given)}
        compare(c, m, args, kwargs, same_opaque)
    return h


def h_builtin(methods):
    def h(c):
        from vc.values import SReal
        m = c.choose(methods, "method")
        s = reference(m)
        ps = list(s.parameters.values())
        pos = [p.name for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD]
        kws = [p.name for p in ps if p.kind is p.KEYWORD_ONLY]
        nargs = c.choice(len(pos) + 2, "positional arguments")
        # omit or add one keyword relative to all of the remaining ones
        rest = pos[nargs:] + kws
        k = c.choice(len(rest) + len(pos[:nargs]) + 2, "keywords")
        if k < len(rest):
            names = rest[:k] + rest[k + 1:]
        elif k == len(rest):
            names = rest
        elif k == len(rest) + 1:
            names = rest + [c.choose(["unknown", "key", "cache"], "unknown keyword")]
        else:
            names = rest + [pos[k - len(rest) - 2]]
        if c.choice(2, "reversed"):
            names = names[::-1]

        class Any(Stub):
            """fits every merge space"""
        from vc import core
        args = tuple(Stub(merge_spaces.resolve("param")) for _ in range(nargs))
        kwargs = {n: Stub(merge_spaces.resolve("param")) for n in names}
        c.overrides[merge_methods.MergeMethod.get_return_merge_space] = lambda self, a, k: merge_spaces.resolve("weight")
        compare(c, m, args, kwargs, same_opaque)
    return h


def h_value(c):
    """values become literal nodes of that value, recipes are taken as they are"""
    from vc.strings import any_string
    from vc.values import SInt, SReal
    from vc.models import SPath
    kind = c.choice(6, "kind")
    v = [lambda: Stub(merge_spaces.resolve("weight")), lambda: any_string("t"), lambda: SInt(c.int("i")), lambda: SReal(c.real("r")), lambda: True, lambda: None][kind]()
    node = merge_methods.value_to_node(v, c.choose([merge_methods.T, float, str, torch.Tensor, StateDict[torch.Tensor], int], "type"))
    if kind == 0:
        c.prove("a recipe stays the same node", node is v)
    else:
        c.prove("a value becomes a literal of that value", type(node) is LiteralRecipeNode and node.value is v)


def proofs():
    ms = [m for m in sorted(merge_methods.get_all(), key=lambda m: m.identifier) if not m.identifier.startswith("vc")]
    yield Proof("values become nodes", h_value)
    yield Proof("builtin merge methods: calls with one argument too few, too many, repeated or unknown", h_builtin(ms), kind="bounded", bound="at most one keyword missing or superfluous", max_paths=60000)
    yield Proof("all calls of signatures with at most 2 positional and 1 keyword-only parameters", h_calls(list(signatures(2, 1)), 3), kind="bounded", bound="2+1 parameters, variadic or not; up to 3 positional arguments and any keywords",
                max_paths=60000)
    yield Proof("all calls of signatures with at most 3 positional and 2 keyword-only parameters", h_calls(list(signatures(3, 2)), 5), kind="bounded", bound="3+2 parameters; up to 5 positional arguments and any keywords",
                max_paths=600000, thorough_only=True, budget=120)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
def verify(m, args, kwargs):
    want = bind(m, args, kwargs)
    try:
        node = m(*args, **kwargs)
    except TypeError:
        check(want is None, "a call was rejected", signature=str(reference(m)), args=len(args), kwargs=list(kwargs))
        return
    except StopIteration:
        check(want is None or want == ([], {}), "a call was rejected", signature=str(reference(m)))
        return
    check(want is not None, "a call that Python would reject was accepted", signature=str(reference(m))[:200], args=len(args), kwargs=list(kwargs))
    got = [argument_value(a) for a in node.args], {k: argument_value(v) for k, v in node.kwargs.items()}
    check(len(got[0]) == len(want[0]) and all(a is b or same_value(a, b) for a, b in zip(got[0], want[0])), "positional arguments", got=got[0], want=want[0], args=args, kwargs=kwargs)
    check(set(got[1]) == set(want[1]) and all(got[1][k] is want[1][k] or same_value(got[1][k], want[1][k]) for k in want[1]), "keyword arguments", got=got[1], want=want[1], args=args, kwargs=kwargs)


def case_signature(npos, ndef, var, nkw, kwdef, maxargs):
    m = make(npos, ndef, var, nkw, kwdef)
    names = [p.name for p in reference(m).parameters.values() if p.kind is not p.VAR_POSITIONAL] + [["unknown", "key", "cache", "kwargs"][(npos + nkw + kwdef) % 4]]
    for nargs in range(maxargs + 1):
        for n in range(len(names) + 1):
            for given in itertools.combinations(names, n):
                verify(m, tuple(range(nargs)), {k: 50 + i for i, k in enumerate(given)})
                verify(m, tuple([None, 0, False, ""][(i + len(given)) % 4] for i in range(nargs)), {k: [None, False, 0, "", 0.0][(i + nargs) % 5] for i, k in enumerate(given)})


def case_call(npos, ndef, var, nkw, kwdef, varkw, nargs, given, falsy=False):
    m = make(npos, ndef, var, nkw, kwdef, varkw)
    values = [None, False, 0, "", 0.0, -0.0, {}] if falsy else ["a", 1.5, None, True, 7, "b", -1, "c"]
    verify(m, tuple(values[i % len(values)] for i in range(nargs)), {k: values[-1 - i % len(values)] if falsy else 50 + i for i, k in enumerate(given)})


def case_builtin(ident, nargs, given, seed):
    m = merge_methods.resolve(ident)
    args = tuple(LiteralRecipeNode(i) for i in range(nargs))
    kwargs = {k: LiteralRecipeNode(10 + i) for i, k in enumerate(given)}
    want = bind(m, args, kwargs)
    try:
        node = m(*args, **kwargs)
    except TypeError as e:
        if want is not None:
            check("merge space" in str(e) or "resolved" in str(e), "a call was rejected", ident=ident, error=str(e))
        return
    except StopIteration:
        return
    check(want is not None, "a call that Python would reject was accepted", ident=ident, given=given, nargs=nargs)
    check(len(node.args) == len(want[0]) and all(a is b or argument_value(a) is b or same_value(argument_value(a), b) for a, b in zip(node.args, want[0])), "positional arguments", ident=ident)
    check(set(node.kwargs) == set(want[1]) and all(node.kwargs[k] is v or same_value(argument_value(node.kwargs[k]), v) for k, v in want[1].items()), "keyword arguments", ident=ident)


def case_executed(seed):
    """the method itself receives what a Python call would give it"""
    r = random.Random(seed)
    npos, nkw = r.randrange(1, 4), r.randrange(0, 3)
    ndef, var, kwdef = r.randrange(0, npos + 1), r.random() < 0.5, r.randrange(0, 2 ** nkw)
    parts = [f"p{i}: Parameter(int)" + (f" = {100 + i}" if i >= npos - ndef else "") for i in range(npos)]
    parts += ["*rest: Parameter(int)"] if var else ["*"] if nkw else []
    parts += [f"k{i}: Parameter(int)" + (f" = {200 + i}" if kwdef >> i & 1 else "") for i in range(nkw)]
    seen = []
    name = f"vc8x_{seed}"
    body = f"    seen.append(dict({', '.join(f'{n}={n}' for n in [*(f'p{i}' for i in range(npos)), *(['rest'] if var else []), *(f'k{i}' for i in range(nkw))])}))\n    return torch.zeros(1)\n"
    m = define_method(f"def {name}({', '.join(parts)}) -> Return(Tensor, 'weight'):\n{body}", name, dict(seen=seen), register=False, fresh=True)
    cfg = synthetic_config("vc08-x", {"m": {"k": ([1], "float32", [], False)}})
    given = [f"p{i}" for i in range(npos)]
    split = r.randrange(0, npos + 1) if not var else npos
    args = [r.randrange(1000) for _ in range(split + (r.randrange(0, 3) if var else 0))]
    names = [n for i, n in enumerate(given) if i >= split and (i < npos - ndef or r.random() < 0.5)] + [f"k{i}" for i in range(nkw) if not kwdef >> i & 1 or r.random() < 0.5]
    r.shuffle(names)
    kwargs = {n: r.randrange(1000) for n in names}
    want = reference(m).bind(*args, **kwargs)
    want.apply_defaults()
    node = m(*args, **kwargs)
    full = define_method("def vc8_base(a: Parameter(Tensor, 'weight'), b: Parameter(Tensor, 'weight')) -> Return(Tensor, 'weight'):\n    return a\n", "vc8_base", register=False)(
        LiteralRecipeNode({"k": torch.zeros(1)}, model_config=cfg, merge_space="weight"), node)
    sd_mecha.merge(full, threads=0)
    check(len(seen) == 1 and seen[0] == dict(want.arguments), "what the method received", got=seen, want=dict(want.arguments))


CASES = {f.__name__[5:]: f for f in (case_signature, case_call, case_builtin, case_executed)}


def suite(S):
    r = S.rng
    for s in signatures(2, 2):
        S.run("signature", npos=s[0], ndef=s[1], var=s[2], nkw=s[3], kwdef=s[4], maxargs=4)
    ms = [m for m in sorted(merge_methods.get_all(), key=lambda m: m.identifier) if not m.identifier.startswith("vc")]
    for m in ms:
        ps = list(reference(m).parameters.values())
        pos = [p.name for p in ps if p.kind is p.POSITIONAL_OR_KEYWORD]
        kws = [p.name for p in ps if p.kind is p.KEYWORD_ONLY]
        for _ in range(4):
            n = r.randrange(0, len(pos) + 2)
            names = pos[n:] + kws
            k = r.random()
            if k < 0.5 and names:
                names.remove(r.choice(names))
            elif k < 0.7:
                names.append(r.choice(pos[:n] + ["unknown", "key", "cache", "kwargs", *([p.name for p in ps if p.kind is p.VAR_POSITIONAL])]))
            r.shuffle(names)
            S.run("builtin", ident=m.identifier, nargs=n, given=names, seed=0)
    for n in (64, 255, 256, 257, 1000, 1001):
        S.run("call", npos=2, ndef=1, var=True, nkw=1, kwdef=1, varkw=False, nargs=n, given=[])
    S.run("call", npos=40, ndef=20, var=False, nkw=40, kwdef=2 ** 39 - 1, varkw=True, nargs=10, given=[f"p{i}" for i in range(39, 9, -1)] + [f"k{i}" for i in range(20, 40)])
    while S.more():
        npos, nkw = r.randrange(1, 6), r.randrange(0, 4)
        s = dict(npos=npos, ndef=r.randrange(0, npos + 1), var=r.random() < 0.5, nkw=nkw, kwdef=r.randrange(0, 2 ** nkw))
        names = [f"p{i}" for i in range(npos)] + [f"k{i}" for i in range(nkw)] + [r.choice(["unknown", "key", "cache", "kwargs", "rest", "_", "args"])]
        n = r.randrange(0, npos + 3)
        valid = [f"p{i}" for i in range(n, npos) if r.random() < 0.8] + [f"k{i}" for i in range(nkw) if r.random() < 0.8]
        given = valid if r.random() < 0.6 else [x for x in names if r.random() < 0.4]
        r.shuffle(given)
        S.run("call", **s, varkw=r.random() < 0.3, nargs=n, given=given, falsy=r.random() < 0.4)
        if r.random() < 0.1:
            S.run("executed", seed=r.randrange(10**6))
