"""C19 Composite recipe helpers build the documented graphs"""
import itertools
from vc.report import Proof
from vc.values import SInt, SReal
from .common import *
from .c06 import Stub

ID = "C19"
LEVEL = "proof"
TRUSTED = [
    "calling a merge method binds its arguments like a Python call and wraps values (C06-C08 verify that)",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py; z3, cvc5",
]
ASSUMPTIONS = [
    "the documented graph of every helper is the one in contracts/c19.py (from its docstring, its comments and the papers it cites)",
    "switches that the helper itself decides on (clamp_to_ab, top_k, rescale) are plain booleans",
]
NOTE = ("Hyperparameters are arbitrary (symbolic numbers, recipes, per-key values); the operands are arbitrary recipes in every combination of merge spaces; "
        "helpers without variadic operands and the operators are proved, variadic ones up to 3 models (bounded).")
PROOF_BUDGET = 60
SUITE_BUDGET = 9


def M(name):
    return merge_methods.resolve(name)


def node(x):
    return x if isinstance(x, RecipeNode) else merge_methods.value_to_node(x)


def minus_base(models, base):
    return [M("subtract")(m, base) if m.merge_space == merge_spaces.resolve("weight") else m for m in map(node, models)]


# ----------------------------------------------------------------- the documented graphs
def o_add_difference(ops, p):
    a, b, *c = map(node, ops)
    d = M("subtract")(b, *c) if c else b
    res = M("add_difference")(a, d, alpha=p["alpha"])
    if p["clamp_to_ab"]:
        bound = b if b.merge_space == a.merge_space else d
        if bound.merge_space != a.merge_space:
            raise TypeError("nothing to clamp to")
        res = M("clamp")(res, a, bound)
    return res


def o_add_perpendicular(ops, p):
    a, b, c = map(node, ops)
    return M("add_difference")(a, M("perpendicular_component")(M("subtract")(a, c), M("subtract")(b, c)), alpha=p["alpha"])


def o_ties(ops, p):
    base, *models = map(node, ops)
    return M("add_difference")(base, M("ties_sum")(*minus_base(models, base), k=p["k"]), alpha=p["alpha"])


def o_ties_extended(ops, p):
    base, *models = map(node, ops)
    kw = {k: p[k] for k in ("k", "vote_sgn", "apply_stock", "cos_eps", "apply_median", "eps", "maxiter", "ftol")}
    return M("add_difference")(base, M("ties_sum_extended")(*minus_base(models, base), **kw), alpha=p["alpha"])


def o_copy_region(ops, p):
    a, b, *c = map(node, ops)
    if c:
        a, b = M("subtract")(a, *c), M("subtract")(b, *c)
    res = M("top_k_tensor_sum" if p["top_k"] else "tensor_sum")(a, b, width=p["width"], offset=p["offset"])
    return M("add_difference")(*c, res, alpha=1.0) if c else res


def o_rotate(ops, p):
    a, b, *c = map(node, ops)
    if c:
        a, b = M("subtract")(a, *c), M("subtract")(b, *c)
    res = M("rotate")(a, b, alignment=p["alignment"], alpha=p["alpha"])
    res.cache = p["cache"]
    return M("add_difference")(*c, res, alpha=1.0) if c else res


def o_dropout(ops, p):
    base, *models = map(node, ops)
    kw = {k: p[k] for k in ("probability", "overlap", "overlap_emphasis", "seed")}
    return M("add_difference")(base, M("dropout")(*[M("subtract")(m, base) for m in models], **kw), alpha=p["alpha"])


def o_dare(ops, p):
    base, *models = map(node, ops)
    kw = {k: p[k] for k in ("probability", "k", "vote_sgn", "apply_stock", "cos_eps", "apply_median", "eps", "maxiter", "ftol", "seed")}
    return M("add_difference")(base, M("ties_sum_with_dropout")(*minus_base(models, base), no_rescale=not p["rescale"], **kw), alpha=p["alpha"])


def o_stock(ops, p):
    base, *models = map(node, ops)
    return M("add_difference")(base, M("model_stock")(*minus_base(models, base), cos_eps=p["cos_eps"]), alpha=1.0)


REST = {"vote_sgn": False, "apply_stock": False, "cos_eps": 1e-6, "apply_median": False, "eps": 1e-6, "maxiter": 100, "ftol": 1e-20}
# helper -> (documented graph, numbers of operands, names of the leading operands, documented defaults)
HELPERS = {
    "add_difference": (o_add_difference, (2, 3), "abc", {"alpha": 1.0, "clamp_to_ab": False}),
    "add_perpendicular": (o_add_perpendicular, (3,), "abc", {"alpha": 1.0}),
    "add_difference_ties": (o_ties, (2, 3, 4), None, {"alpha": 1.0, "k": 1.0}),
    "add_difference_ties_extended": (o_ties_extended, (2, 3, 4), None, {"alpha": 1.0, "k": 0.2, **REST}),
    "copy_region": (o_copy_region, (2, 3), "abc", {"width": 1.0, "offset": 0.0, "top_k": False}),
    "tensor_sum": (o_copy_region, (2, 3), "abc", {"width": 1.0, "offset": 0.0, "top_k": False}),
    "rotate": (o_rotate, (2, 3), "abc", {"alignment": 1.0, "alpha": 0.0, "cache": None}),
    "dropout": (o_dropout, (2, 3, 4), None, {"probability": 0.9, "alpha": 0.5, "overlap": 1.0, "overlap_emphasis": 0.0, "seed": None}),
    "ties_with_dare": (o_dare, (2, 3, 4), None, {"probability": 0.9, "rescale": True, "alpha": 1.0, "seed": None, "k": 1.0, **REST}),
    "n_model_stock": (o_stock, (2, 3, 4), None, {"cos_eps": 1e-6}),
}
SWITCHES = {"clamp_to_ab", "top_k", "rescale"}


def params_of(n):
    return M(n).get_param_names()


def inputs_of(x):
    """what each parameter of a merge node is given"""
    names = x.merge_method.get_param_names()
    out = {}
    for i, v in enumerate(x.args):
        out[names.args[i] if i < len(names.args) else f"*{i}"] = v
    return out | x.kwargs


def difference(a, b, path="recipe"):
    """first difference between a graph and the documented one, or None"""
    if a is b:
        return None
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} instead of {type(b).__name__}"
    if isinstance(a, MergeRecipeNode):
        if a.merge_method is not b.merge_method:
            return f"{path}: {a.merge_method.identifier} instead of {b.merge_method.identifier}"
        if a.cache is not b.cache:
            return f"{path}: another cache"
        x, y = inputs_of(a), inputs_of(b)
        if set(x) != set(y):
            return f"{path}: inputs {sorted(x)} instead of {sorted(y)}"
        for k in x:
            d = difference(x[k], y[k], f"{path}.{a.merge_method.identifier}[{k}]")
            if d:
                return d
        return None
    if isinstance(a, LiteralRecipeNode):
        same = a.value is b.value or type(a.value) is type(b.value) and isinstance(a.value, (int, float, str, bool)) and a.value == b.value
        if not same or a.merge_space != b.merge_space or a.model_config is not b.model_config:
            return f"{path}: {a.value!r} instead of {b.value!r}"
        return None
    return f"{path}: another recipe"


def attempt(f):
    try:
        return f(), None
    except (TypeError, ValueError, RuntimeError, IndexError) as e:
        return None, e


# ----------------------------------------------------------------- contracts
SPACES = ["weight", "delta", "param"]


def stub(space):
    return Stub(merge_spaces.resolve(space))


def value(c, name, default, kind):
    if name == "cache":
        return {}
    if name in SWITCHES or isinstance(default, bool) and kind != "recipe":
        return not default
    if kind == "recipe":
        return stub("param")
    if kind == "per key":
        return LiteralRecipeNode({"k": 1.0})
    return SInt(c.int(name)) if name in ("maxiter", "seed") else SReal(c.real(name))


def h_helper(name):
    def h(c):
        oracle, counts, names, defaults = HELPERS[name]
        n = c.choose(list(counts), "operands")
        ops = [stub(c.choose(SPACES, f"space of operand {i}")) for i in range(n)]
        special = c.choose(["none", "a value", "one given twice"], "special operands")
        twice = special == "one given twice"
        if special == "a value":
            ops[-1] = {"k": torch.zeros(1)}
        elif special == "one given twice":
            ops[-1] = ops[-2]
        how = c.choose(["positional", "keyword"] if names else ["positional"], "operands given")
        p = {}
        weights = all(isinstance(o, dict) or o.merge_space == ops[0].merge_space for o in ops)
        # the hyperparameters do not interact with the spaces, except for switches
        subset = () if twice else c.choose([(), tuple(defaults), *[(k,) for k in defaults], *[tuple(x for x in defaults if x != k) for k in defaults]] if weights else [(), tuple(defaults), *[(k,) for k in defaults if k in SWITCHES]], "hyperparameters given")
        kind = c.choose(["number", "recipe", "per key"], "hyperparameters given as") if weights and subset else "number"
        for k in subset:
            p[k] = value(c, k, defaults[k], kind)
        given = dict(p)
        f = getattr(sd_mecha, name)
        call = (lambda: f(*ops, **given)) if how == "positional" else (lambda: f(**dict(zip(names, ops)), **given))
        got, error = attempt(call)
        want, refused = attempt(lambda: oracle(ops, {**defaults, **p}))
        c.cover("refused" if refused else "built")
        c.prove("refused exactly if a documented step refuses its inputs", (error is None) == (refused is None), detail=f"{name} {error} {refused}")
        if want is not None and got is not None:
            d = difference(got, want)
            c.prove("the graph is the documented one", d is None, detail=f"{name} {subset}: {d}")
            c.prove("the arguments are left alone", given == p or list(given) == list(p))
    return h


def o_plus(x, y):
    x, y = node(x), node(y)
    if y.merge_space == merge_spaces.resolve("weight"):
        return M("add_difference")(y, x)
    return M("add_difference")(x, y)


OPERATORS = {
    "+": (lambda x, y: x + y, o_plus),
    "-": (lambda x, y: x - y, lambda x, y: M("subtract")(x, y)),
    "|": (lambda x, y: x | y, lambda x, y: M("fallback")(x, y)),
}


def h_operator(c):
    op = c.choose(list(OPERATORS), "operator")
    apply, oracle = OPERATORS[op]
    x, y = (stub(c.choose(SPACES, f"space of the {w} operand")) for w in ("left", "right"))
    which = c.choose(["recipes", "value on the right", "value on the left"], "operands")
    v = c.choose([{"k": torch.zeros(1)}, 2.0, 3, "text"], "value") if which != "recipes" else None
    if which.endswith("right"):
        y = v
    elif which.endswith("left"):
        if op == "|" and isinstance(v, dict):
            v = LiteralRecipeNode(v)
        x = v
    got, error = attempt(lambda: apply(x, y))
    want, refused = attempt(lambda: oracle(x, y))
    c.cover("refused" if refused else "built")
    c.prove("refused exactly if the merge method refuses its inputs", (error is None) == (refused is None), detail=f"{op} {error} {refused}")
    if want is not None and got is not None:
        d = difference(got, want)
        c.prove("the operator applies its merge method", d is None, detail=f"{op} {which}: {d}")


def proofs():
    out = []
    for n, (_, counts, names, _) in HELPERS.items():
        out.append(Proof(n, h_helper(n), budget=40, max_paths=20000, **({} if names else dict(kind="bounded", bound="3 models"))))
    out.append(Proof("operators", h_operator, budget=20, max_paths=5000))
    return out


# ----------------------------------------------------------------- concrete cross-check
def random_value(rng, k, default):
    if k == "cache":
        return {}
    if k in SWITCHES:
        return rng.choice([False, True, 0, 1])
    r = rng.random()
    if isinstance(default, bool):
        return rng.random() < 0.5
    if k == "seed":
        return rng.choice([0, 1, 123456, None])
    if k == "maxiter":
        return rng.choice([1, 2, 7, 100])
    v = rng.choice([0.0, 1.0, 0.5, 0.1, 0.37, 0.9, 1e-3])
    if r < 0.2:
        return LiteralRecipeNode(v)
    if r < 0.3:
        return {"k": v, "l": 0.25}
    return v


def operands(rng, n):
    out = []
    for i in range(n):
        space = rng.choices(SPACES, [6, 3, 0.5])[0]
        ts = {k: torch.tensor([rng.choice([-2.0, -1.0, -0.5, 0.25, 1.0, 3.0, 5.0]) for _ in range(8)], dtype=torch.float64).reshape(2, 4) for k in "kl"}
        out.append(ts if rng.random() < 0.1 else sd_mecha.model(ts, merge_space=space))
    return out


def merged(recipe):
    return sd_mecha.merge(recipe, threads=0, merge_device=None, output_device=None, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, total_buffer_size=2**20)


def case_helper(name, seed):
    rng = random.Random(seed)
    oracle, counts, names, defaults = HELPERS[name]
    ops = operands(rng, rng.choice(counts) + (rng.choice([0, 0, 2]) if not names else 0))
    if rng.random() < 0.5:
        ops = [o if isinstance(o, dict) else sd_mecha.model(o.value, merge_space="weight") for o in ops]
    if rng.random() < 0.25:
        ops[rng.randrange(len(ops))] = ops[rng.randrange(len(ops))]
    p = {k: random_value(rng, k, d) for k, d in defaults.items() if rng.random() < 0.5}
    if "seed" in defaults:
        p["seed"] = rng.choice([0, 1, 99])
    f = getattr(sd_mecha, name)
    given = dict(p)
    got, error = attempt(lambda: f(**dict(zip(names, ops)), **given) if names and seed % 2 else f(*ops, **given))
    want, refused = attempt(lambda: oracle(ops, {**defaults, **p}))
    check((error is None) == (refused is None), "the helper and its documented steps disagree about the inputs", helper=name, error=str(error), documented=str(refused), spaces=[str(getattr(o, "merge_space", "value")) for o in ops], given=p)
    if want is None:
        return
    d = difference(got, want)
    check(d is None, "the graph is not the documented one", helper=name, given=p, spaces=[str(getattr(o, "merge_space", "value")) for o in ops], difference=d)
    if seed % 4 == 0 and "cache" not in p:
        a, e1 = attempt(lambda: merged(got))
        b, e2 = attempt(lambda: merged(want))
        check((e1 is None) == (e2 is None), "merging the helper's recipe and the documented one differ", helper=name, error=str(e1), documented=str(e2))
        if a is not None:
            check(sorted(a) == sorted(b) and all(torch.equal(torch.nan_to_num(a[k], 7.0), torch.nan_to_num(b[k], 7.0)) for k in b), "the helper merges to other values than the documented graph", helper=name, given=p)


def case_operator(op, seed):
    rng = random.Random(seed)
    apply, oracle = OPERATORS[op]
    x, y = operands(rng, 2)
    if isinstance(x, dict) and isinstance(y, dict):
        x = LiteralRecipeNode(x)
    if op == "|" and isinstance(x, dict):
        x = sd_mecha.literal(x)
    if rng.random() < 0.2:
        y = rng.choice([1.0, 2, True, {"k": 1.0}])
        x = node(x)
    got, error = attempt(lambda: apply(x, y))
    want, refused = attempt(lambda: oracle(x, y))
    check((error is None) == (refused is None), "an operator and its merge method disagree about the inputs", operator=op, error=str(error), documented=str(refused), spaces=[str(getattr(o, "merge_space", o)) for o in (x, y)])
    if want is not None:
        d = difference(got, want)
        check(d is None, "an operator does not apply its merge method", operator=op, difference=d, spaces=[str(getattr(o, "merge_space", "value")) for o in (x, y)])


def case_extremes(name):
    """hyperparameters at zero, at the ends of their ranges and off their defaults, in pairs"""
    oracle, counts, names, defaults = HELPERS[name]
    ops = [sd_mecha.model({"k": torch.full((2, 4), float(i + 1))}, merge_space="weight") for i in range(max(counts))]
    f = getattr(sd_mecha, name)

    def values(k, d):
        if k == "cache":
            return [None, {}]
        if k in SWITCHES or isinstance(d, bool):
            return [False, True, 0, 1]
        if k == "seed":
            return [None, 0, 5]
        return [0, 1, 3] if k == "maxiter" else [0.0, 1.0, 0.3, -0.3, 7.0]

    for k, l in itertools.combinations(defaults, 2) if len(defaults) > 1 else [(k, k) for k in defaults]:
        for x, y in itertools.product(values(k, defaults[k]), values(l, defaults[l])):
            p = {k: x, l: y}
            for n in {min(counts), max(counts)}:
                got, error = attempt(lambda: f(*ops[:n], **p))
                want, refused = attempt(lambda: oracle(ops[:n], {**defaults, **p}))
                check((error is None) == (refused is None), "the helper and its documented steps disagree about the inputs", helper=name, error=str(error), documented=str(refused), given=p)
                d = None if want is None else difference(got, want)
                check(d is None, "the graph is not the documented one", helper=name, given=p, operands=n, difference=d)


def case_operands(name):
    """every combination of merge spaces, with and without operands given twice"""
    oracle, counts, names, defaults = HELPERS[name]
    f = getattr(sd_mecha, name)
    for n in counts:
        for spaces in itertools.product(SPACES, repeat=n) if n < 4 else itertools.product(SPACES[:2], repeat=n):
            ops = [sd_mecha.model({"k": torch.ones(1)}, merge_space=s) for s in spaces]
            for i, j in [(0, 0), *itertools.combinations(range(n), 2)]:
                xs = list(ops)
                xs[j] = xs[i]
                got, error = attempt(lambda: f(*xs))
                want, refused = attempt(lambda: oracle(xs, defaults))
                info = dict(helper=name, spaces=[x.merge_space.identifier for x in xs], same=[i, j])
                check((error is None) == (refused is None), "the helper and its documented steps disagree about the inputs", error=str(error), documented=str(refused), **info)
                d = None if want is None else difference(got, want)
                check(d is None, "the graph is not the documented one", difference=d, **info)


CASES = {"operands": case_operands, "helper": case_helper, "operator": case_operator, "extremes": case_extremes}


def suite(S):
    for n in HELPERS:
        S.run("operands", name=n)
        S.run("extremes", name=n)
    i = 0
    while S.more() and i < (150 if not S.thorough else 4000):
        for n in HELPERS:
            S.run("helper", name=n, seed=S.rng.randrange(10**6))
        for op in OPERATORS:
            S.run("operator", op=op, seed=S.rng.randrange(10**6))
        i += 1
