"""C24 Fallbacks supply exactly the missing keys"""
import itertools
from vc.report import Proof
from .common import *
from .c06 import Stub
from .c09 import Child, Boom, RefMissing
from .c12 import Config, SV
Missing = merging.StateDictKeyError

ID = "C24"
LEVEL = "proof"
TRUSTED = [
    "the recipes that are combined follow the contract of accept (property C09): a value, a missing key or another error, for whatever key they are asked, every time the same",
    "a component of a config answers `key in component.keys()` like a mapping of Python",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py; z3, cvc5",
]
ASSUMPTIONS = ["chains of any length by induction: the combination of two recipes satisfies the contract that is assumed of each of them"]
PROOF_BUDGET = 60
SUITE_BUDGET = 8
OUTCOMES = (None, Missing, KeyError, Boom)


# ----------------------------------------------------------------- contracts
def child(c, name, config, outcomes=OUTCOMES, space="weight"):
    return Child(c, name, lambda key: SV_tensor(name), outcomes, merge_spaces.resolve(space), config)


def SV_tensor(name):
    from vc.values import SVal
    return SVal(f"value of {name}", pytype=torch.Tensor)


def evaluate(node, key):
    try:
        return node.accept(merging.KeyMergeVisitor(key)), None
    except Exception as e:
        return None, e


def agrees(got, err, outcome):
    """the result of accept is the given outcome of a child"""
    if isinstance(outcome, type):
        return type(err) is outcome
    return err is None and got is outcome


def asked_once(n, key):
    return len(n.asked) == 1 and n.asked[0] is key


COMBINE = {
    "a | b": lambda a, b: a | b,
    "fallback(a, b)": lambda a, b: sd_mecha.fallback(a, b),
    "fallback(a, default=b)": lambda a, b: sd_mecha.fallback(a, default=b),
    "fallback(default=b, a=a)": lambda a, b: sd_mecha.fallback(default=b, a=a),
    "resolved by name": lambda a, b: merge_methods.resolve("fallback")(a, b),
}


def h_two(how):
    def h(c):
        cfg = Config("vc24")
        a, b = child(c, "a", cfg), child(c, "b", cfg)
        key = SV(c, "key")
        node = COMBINE[how](a, b)
        c.prove("combining evaluates nothing", a.asked == [] and b.asked == [])
        got, err = evaluate(node, key)
        oa = a.outcomes.get(key, next(iter(a.outcomes.values()), None))
        c.prove("the recipe is asked for the key", len(a.asked) == 1 and a.asked[0] is key)
        if oa is Missing:
            c.cover("missing")
            c.prove("the fallback is asked for the same key", asked_once(b, key))
            c.prove("a missing key is supplied by the fallback, whatever it says", agrees(got, err, next(iter(b.outcomes.values()))))
        else:
            c.cover("present")
            c.prove("the recipe's own value, or its own error, is the result", agrees(got, err, oa))
            c.prove("the fallback is not asked for a key that is not missing", b.asked == [])
        c.prove("the combination has the merge space and config of the recipe", node.merge_space is a.merge_space)
        # another key: nothing is carried over from the first
        other = SV(c, "other key")
        c.assume(other.e != key.e)
        got, err = evaluate(node, other)
        oa = a.outcomes[other] if any(k is other for k in a.outcomes) else None
        if oa is Missing:
            c.prove("another key is decided on its own: fallback", agrees(got, err, [o for k, o in b.outcomes.items() if k is other][0]))
        else:
            c.prove("another key is decided on its own: recipe", agrees(got, err, oa) and not any(k is other for k in b.outcomes))
    return h


def h_values(c):
    """plain values and dictionaries as the fallback"""
    cfg = synthetic_config("vc24-v", {"m": {"k": ([1], "float32", ["old"], False), "j": ([1], "float32", [], False)}})
    a = child(c, "a", cfg, (None, Missing, Boom))
    t = torch.ones(1)
    present = c.choice(3, "the dictionary has the key")
    d = {"k": t, "j": t} if present == 1 else {"old": t, "j": t} if present == 2 else {"j": t}
    node = a | LiteralRecipeNode(d, model_config=cfg, merge_space="weight") if c.choice(2, "side") else sd_mecha.fallback(a, LiteralRecipeNode(d, model_config=cfg, merge_space="weight"))
    got, err = evaluate(node, "k")
    oa = a.outcomes["k"]
    if oa is Missing:
        c.prove("the dictionary supplies the key", (got is t) if present else isinstance(err, Missing))
    else:
        c.prove("the recipe's own outcome", agrees(got, err, oa))


def h_left_value(c):
    """value | recipe: the value is the recipe, the recipe is the fallback"""
    cfg = synthetic_config("vc24-v", {"m": {"k": ([1], "float32", ["old"], False), "j": ([1], "float32", [], False)}})
    b = child(c, "b", cfg, (None, Missing, Boom))
    t = torch.ones(1)
    d = {"k": t} if c.choice(2, "the dictionary has the key") else {"j": t}
    lit = LiteralRecipeNode(d, model_config=cfg, merge_space="weight")
    node = b.__ror__(lit)
    got, err = evaluate(node, "k")
    if "k" in d:
        c.prove("the value on the left comes first", got is t and b.asked == [])
    else:
        c.prove("the recipe on the right is the fallback", agrees(got, err, b.outcomes["k"]))


def trees(n):
    if n == 1:
        return ["leaf"]
    return [(x, y) for k in range(1, n) for x in trees(k) for y in trees(n - k)]


def h_chain(n):
    def h(c):
        cfg = Config("vc24")
        leaves = [child(c, f"r{i}", cfg) for i in range(n)]
        shape = c.choose(trees(n), "grouping")
        it = iter(leaves)

        def build(s):
            return next(it) if s == "leaf" else build(s[0]) | build(s[1])
        node = build(shape)
        key = SV(c, "key")
        got, err = evaluate(node, key)
        first = None
        for i, l in enumerate(leaves):
            c.prove("the recipes are tried in order, each once", len(l.asked) == 1 and l.asked[0] is key)
            first = next(iter(l.outcomes.values()))
            if first is not Missing:
                break
        c.prove("the first recipe that does not lack the key decides", agrees(got, err, first))
        c.prove("the recipes after it are not asked", all(l.asked == [] for l in leaves[i + 1:]))
    return h


def h_option(c):
    """the fallback_model option of merge"""
    ks = ["k0", "k1"]
    cfg = synthetic_config("vc24-o", {"m": {k: ([1], "float32", [], False) for k in ks}})
    vals = lambda base: lambda key: torch.full((1,), float(base + int(key[1])))
    errors = (None, Missing, KeyError, Boom)
    a = Child(c, "a", vals(10), errors, config=cfg)
    b = Child(c, "b", vals(20), errors, config=cfg)
    with_fallback = c.choose(["recipe", None, ...], "fallback")
    kw = {} if with_fallback is ... else dict(fallback_model=b if with_fallback == "recipe" else None)
    got = err = None
    try:
        got = sd_mecha.merge(a, threads=0, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, total_buffer_size=256, **kw)
    except Exception as e:
        err = e
    want, failed = {}, None
    for k in ks:
        o = a.outcomes.get(k)
        if o is Missing and with_fallback == "recipe":
            o = b.outcomes.get(k)
            c.prove("the fallback is asked for a missing key, unless the merge failed before", k in b.outcomes or failed is not None)
        elif with_fallback != "recipe":
            c.prove("without a fallback nothing else is asked", b.outcomes == {})
        else:
            c.prove("the fallback is not asked for a key the recipe has", k not in b.outcomes)
        if o is None:
            c.prove("a key is not evaluated only after a failure", failed is not None)
        elif isinstance(o, type):
            if o is not Missing:
                failed = failed or o
        else:
            want[k] = o
    c.prove("an error other than a missing key makes the merge fail", (err is None) == (failed is None) and (failed is None or type(err) is failed))
    if failed is None:
        c.prove("each key has its own value or that of the fallback", set(got) == set(want) and all(torch.equal(got[k], want[k]) for k in want))


def h_component(which, n_comps, n_keys):
    def h(c):
        names = [SV(c, f"component {i}") for i in range(n_comps)]
        for i, j in itertools.combinations(range(n_comps), 2):
            c.assume(names[i].e != names[j].e)
        keys = {i: [SV(c, f"key {i}.{j}") for j in range(n_keys)] for i in range(n_comps)}
        flat = [k for ks in keys.values() for k in ks]
        for x, y in itertools.combinations(flat, 2):
            c.assume(x.e != y.e)
        cfg = Config("vc24", {n: keys[i] for i, n in enumerate(names)})
        a = child(c, "a", cfg)
        wanted = SV(c, "component")
        key = SV(c, "key")
        lit = LiteralRecipeNode(wanted)
        f = {"pick": sd_mecha.pick_component, "omit": sd_mecha.omit_component}[which]
        node = f(a, lit) if c.choice(2, "by keyword") == 0 else f(a, component=lit)
        got, err = evaluate(node, key)
        same = lambda x, y: bool(x == y)
        hit = [i for i, n in enumerate(names) if same(n, wanted)]
        if not hit:
            c.cover("unknown component")
            c.prove("an unknown component is an error, and not a missing key", err is not None and not isinstance(err, KeyError))
            c.prove("an unknown component does not evaluate the recipe", a.asked == [])
            return
        inside = any(same(key, k) for k in keys[hit[0]])
        if inside == (which == "pick"):
            c.cover("kept")
            c.prove("a kept key is evaluated once, under its name", len(a.asked) == 1 and a.asked[0] is key)
            c.prove("a kept key has the value, or the error, of the recipe", agrees(got, err, next(iter(a.outcomes.values()))))
        else:
            c.cover("dropped")
            c.prove("all other keys are missing", type(err) is Missing)
            c.prove("a dropped key is not evaluated", a.asked == [])
    return h


def h_unknown(c):
    """an unknown component is not hidden by a fallback, nor by the merge"""
    cfg = synthetic_config("vc24-u", {"m": {"k0": ([1], "float32", [], False)}, "n": {"k1": ([1], "float32", [], False)}})
    a, b = (Child(c, n, lambda key: torch.ones(1), (None, Missing), config=cfg) for n in "ab")
    f = c.choose([sd_mecha.pick_component, sd_mecha.omit_component], "method")
    name = c.choose(["m", "n", "M", "", "mn", "vc24-u", "k0"], "component")
    err = None
    try:
        got = sd_mecha.merge(f(a, name) | b, threads=0, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, total_buffer_size=256)
    except Exception as e:
        err = e
    if name not in ("m", "n"):
        c.prove("an unknown component fails the merge", err is not None)
        return
    kept = {"k0" if name == "m" else "k1"} if f is sd_mecha.pick_component else {"k1" if name == "m" else "k0"}
    for k in ("k0", "k1"):
        o = a.outcomes.get(k) if k in kept else None
        c.prove("the recipe is asked for the kept keys only", (k in a.outcomes) == (k in kept))
        if o is None or o is Missing:
            c.prove("what is dropped or missing comes from the fallback", k in b.outcomes and (k in got) == (b.outcomes[k] is not Missing))
        else:
            c.prove("what is kept is its own", k not in b.outcomes and torch.equal(got[k], o))


def proofs():
    for how in COMBINE:
        yield Proof(f"two recipes, {how}", h_two(how))
    for w in ("pick", "omit"):
        for n, k in ((1, 1), (2, 1), (2, 2)):
            yield Proof(f"{w}_component with {n} components of {k} keys", h_component(w, n, k), kind="bounded", bound="up to 2 components of up to 2 keys, arbitrary texts", max_paths=40000)
    yield Proof("a dictionary as the fallback", h_values)
    yield Proof("a dictionary with a fallback", h_left_value)
    for n in (3, 4):
        yield Proof(f"chains of {n}", h_chain(n), kind="bounded", bound="3 or 4 recipes in any grouping", max_paths=40000)
    yield Proof("the fallback_model option", h_option, kind="bounded", bound="2 keys, every combination of outcomes", max_paths=40000)
    yield Proof("components in a merge with a fallback", h_unknown, kind="bounded", bound="2 components, 7 names", max_paths=4000)
    yield Proof("chains of 5", h_chain(5), kind="bounded", bound="5 recipes in any grouping", max_paths=400000, thorough_only=True)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
class Fails(Exception):
    pass


class RefKeyError(Exception):
    pass




class MissingKind(Missing):
    pass


def caused(key):
    e = Missing(key)
    e.__cause__ = ValueError("a cause")
    return e


# a key that is missing is told by the type of the error alone
ERRORS = {"fails": Fails, "key": KeyError, "missing": Missing, "other": lambda key: Missing("other"), "bare": lambda key: Missing(), "two": lambda key: Missing(key, 2), "caused": caused, "kind": MissingKind}
MISSING = ["missing", "other", "bare", "two", "caused", "kind"]
ENV = dict(ERRORS=ERRORS)


def m_add():
    return define_method("def vc24_add(a: Parameter(Tensor), b: Parameter(Tensor)) -> Return(Tensor):\n    return a * 3 + b\n", "vc24_add")


def m_fail():
    """fails with an error of the given kind on the keys that contain a text"""
    return define_method(
        "def vc24_fail(a: Parameter(Tensor), on: Parameter(str), kind: Parameter(str), **kwargs) -> Return(Tensor):\n"
        "    if on in kwargs['key']:\n"
        "        raise ERRORS[kind](kwargs['key'])\n"
        "    return a\n", "vc24_fail", ENV)


def m_lazy():
    """looks a key up itself"""
    return define_method("def vc24_lazy(a: Parameter(StateDict[Tensor]), by: Parameter(float), **kwargs) -> Return(Tensor):\n    return a[kwargs['key']] + by\n", "vc24_lazy")


def ref(spec, key, aliases, comps):
    kind = spec[0]
    down = lambda s: ref(s, key, aliases, comps)
    if kind == "leaf":
        for n in (key, *aliases.get(key, ())):
            if n in spec[1]:
                return spec[1][n].double().item()
        raise RefMissing(key)
    if kind == "dict":
        for n in (key, *aliases.get(key, ())):
            if n in spec[1]:
                return down(spec[1][n])
        raise RefMissing(key)
    if kind == "or":
        for s in spec[1:]:
            try:
                return down(s)
            except RefMissing:
                pass
        raise RefMissing(key)
    if kind == "add":
        errors, vals = [], []
        for s in spec[1:]:
            try:
                vals.append(down(s))
            except Exception as e:
                errors.append(e)
        if errors:
            raise next((e for e in errors if not isinstance(e, RefMissing)), errors[0])
        return vals[0] * 3 + vals[1]
    if kind == "fail":
        v = down(spec[1])
        if spec[2] in key:
            raise {"fails": Fails, "key": RefKeyError}.get(spec[3], RefMissing)(key)
        return v
    if kind == "lazy":
        return down(spec[1]) + spec[2]
    if kind in ("pick", "omit"):
        if (key in comps[spec[2]]) != (kind == "pick"):
            raise RefMissing(key)
        return down(spec[1])
    raise AssertionError(kind)


def case_random(seed, threads=0):
    r = random.Random(seed)
    comps = {n: [f"{n}{i}" for i in range(r.randrange(1, 4))] for n in r.sample(["m", "n", "ema", "p q", "te.1"], r.randrange(1, 4))}
    if r.random() < 0.5:
        comps["full"] = []
    for n in [n for n in comps if r.random() < 0.5]:
        # keys that begin like, end like or contain a key of another component
        k = r.choice([k for ks in comps.values() for k in ks])
        comps[n] = comps[n] + [x for x in (k + "0", k + ".w", "x" + k, k[:-1]) if r.random() < 0.5 and all(x not in ks for ks in comps.values())]
    aliases = {k: [f"old {k}", f"older {k}"][:r.choice([0, 0, 1, 2])] for ks in comps.values() for k in ks}
    cfg = synthetic_config(f"vc24-c{seed}", {n: {k: ([1], "float64", aliases[k], r.random() < 0.3) for k in ks} for n, ks in comps.items()})
    keys = [k for ks in comps.values() for k in ks]
    count = itertools.count(1)
    with scratch() as d:
        tick = lambda: torch.tensor([float(next(count))], dtype=torch.float64)

        def names(p):
            return [r.choice([k, *aliases[k]]) if r.random() < 0.3 else k for k in keys if r.random() < p] or [r.choice(keys)]

        def leaf():
            sd = {n: tick() for n in names(r.choice([0.2, 0.5, 0.9]))}
            if r.random() < 0.5:
                p = d / f"{next(count)}.safetensors"
                write_st(p, sd)
                return ("leaf", sd), ModelRecipeNode(p, model_config=cfg)
            return ("leaf", sd), LiteralRecipeNode(sd, model_config=cfg, merge_space="weight")
        pool = [leaf() for _ in range(r.randrange(2, 5))]
        picky = lambda: pool[-1 - min(len(pool) - 1, int(r.expovariate(0.8)))]
        fails = r.random() < 0.3
        for _ in range(r.randrange(1, 7)):
            x = r.random()
            (sa, a), (sb, b) = picky(), picky()
            if x < 0.2:
                pool.append((("or", sa, sb), a | b))
            elif x < 0.3:
                pool.append((("or", sa, sb), sd_mecha.fallback(default=b, a=a)))
            elif x < 0.36:
                ks = names(0.5)
                value = {n: tick() for n in ks}
                left = r.random() < 0.5
                lit = LiteralRecipeNode(value, model_config=cfg, merge_space="weight")
                pool.append((("or", ("leaf", value), sa), lit | a) if left else (("or", sa, ("leaf", value)), a | lit))
            elif x < 0.42:
                value = {n: picky() for n in names(0.6)}
                lit = LiteralRecipeNode({n: p[1] for n, p in value.items()}, model_config=cfg, merge_space="weight")
                pool.append((("or", sa, ("dict", {n: p[0] for n, p in value.items()})), a | lit))
            elif x < 0.55:
                pool.append((("add", sa, sb), m_add()(a, b)))
            elif x < 0.62:
                by = float(r.randrange(100, 200))
                pool.append((("lazy", sa, by), m_lazy()(a, by)))
            elif x < 0.74:
                on, kind = r.choice([*keys, *comps]), r.choice([*MISSING, *["fails", "key"] * (3 if fails else 0)])
                pool.append((("fail", sa, on, kind), m_fail()(a, on, kind)))
            elif x < 0.88:
                n = r.choice(list(comps))
                pool.append((("pick", sa, n), sd_mecha.pick_component(a, n)))
            else:
                n = r.choice(list(comps))
                pool.append((("omit", sa, n), sd_mecha.omit_component(a, component=n)))
        spec, node = pool[-1]
        kw = {}
        x = r.random()
        if x < 0.5:
            fspec, fnode = picky()
            spec, kw = ("or", spec, fspec), dict(fallback_model=fnode)
        elif x < 0.6:
            kw = dict(fallback_model=None)
        want, errors = {}, set()
        for k in keys:
            try:
                want[k] = ref(spec, k, aliases, comps)
            except RefMissing:
                pass
            except Exception as e:
                errors.add(KeyError if isinstance(e, RefKeyError) else type(e))
        opts = dict(threads=threads, total_buffer_size=r.choice([0, 64, 4096]), merge_dtype=torch.float64, output_dtype=torch.float64, omit_ema=False)
        to_file = r.random() < 0.3
        err = got = None
        try:
            got = sd_mecha.merge(node, output=d / "o.safetensors" if to_file else None, **opts, **kw)
        except Exception as e:
            err = e
        info = dict(seed=seed)
        if errors:
            check(err is not None, "an error is hidden", errors=sorted(map(str, errors)), **info)
            chain = []
            e = err
            while e is not None and len(chain) < 20:
                chain.append(e)
                e = e.__cause__ or e.__context__
            check(any(type(e) in errors for e in chain), "the error is another one", got=repr(err), want=sorted(map(str, errors)), **info)
            return
        if err is not None:
            raise AssertionError(f"the merge failed: {err!r} {info}") from err
        if to_file:
            got = read_st(d / "o.safetensors")[1]
        check(set(got) == set(want), "keys of the output", extra=sorted(set(got) - set(want)), missing=sorted(set(want) - set(got)), **info)
        for k in want:
            check(got[k].item() == want[k], "value of a key", key=k, got=got[k].item(), want=want[k], **info)


def case_unknown(method, comp, hidden):
    """an unknown component is an error, also below other nodes"""
    cfg = synthetic_config("vc24-k", {"m": {"k0": ([1], "float64", [], False)}, "": {"k1": ([1], "float64", [], False)}})
    sd = {"k0": torch.ones(1), "k1": torch.ones(1)}
    lit = lambda: LiteralRecipeNode(dict(sd), model_config=cfg, merge_space="weight")
    node = getattr(sd_mecha, method)(lit(), comp)
    kw = {}
    if hidden == "fallback":
        node = node | lit()
    elif hidden == "option":
        kw = dict(fallback_model=lit())
    elif hidden == "below":
        node = m_add()(node, lit()) | lit()
    err = None
    try:
        sd_mecha.merge(node, threads=0, total_buffer_size=256, **kw)
    except Exception as e:
        err = e
    check(err is not None, "an unknown component is accepted", component=comp)


def case_failing(kind, form):
    """a recipe that fails on one key: only missing keys are supplied by the fallback"""
    cfg = synthetic_config("vc24-f", {"m": {k: ([1], "float64", [], False) for k in ("k0", "k1", "k2")}, "n": {"l0": ([1], "float64", [], False)}})
    sd = lambda x: {k: torch.tensor([x + i], dtype=torch.float64) for i, k in enumerate(("k0", "k1", "k2", "l0"))}
    lit = lambda x: LiteralRecipeNode(sd(x), model_config=cfg, merge_space="weight")
    a, b, kw = m_fail()(lit(1.0), "k1", kind), lit(11.0), {}
    node = {
        "or": lambda: a | b, "call": lambda: sd_mecha.fallback(a, b), "keywords": lambda: sd_mecha.fallback(default=b, a=a), "option": lambda: a,
        "below": lambda: sd_mecha.fallback(m_lazy()(a, 0.0), b), "added": lambda: m_add()(a, lit(0.0)) | b, "picked": lambda: sd_mecha.pick_component(a, "m") | b,
        "omitted": lambda: sd_mecha.omit_component(a, "n") | b, "chain": lambda: (lit(1.0) | b, (a | b) | lit(21.0))[1], "last": lambda: sd_mecha.pick_component(lit(1.0), "n") | a,
    }[form]()
    if form == "option":
        kw = dict(fallback_model=b)
    err = got = None
    try:
        got = sd_mecha.merge(node, threads=0, total_buffer_size=256, merge_dtype=torch.float64, output_dtype=torch.float64, omit_ema=False, **kw)
    except Exception as e:
        err = e
    if kind not in MISSING:
        check(err is not None, "the error of a recipe is hidden by its fallback", kind=kind, form=form, got=got)
        chain = []
        while err is not None and len(chain) < 20:
            chain.append(err)
            err = err.__cause__ or err.__context__
        check(any(type(e) is (KeyError if kind == "key" else Fails) for e in chain), "the error is another one", kind=kind, form=form, got=chain[:1])
        return
    if err is not None:
        raise AssertionError(f"the merge failed: {err!r}") from err
    want = {k: v.item() for k, v in sd(1.0).items()} | {"k1": 12.0}
    if form in ("picked", "omitted"):
        want["l0"] = 14.0
    if form == "last":
        del want["k1"]
    if form == "added":
        for i, k in enumerate(("k0", "k2", "l0")):
            want[k] = 3 * want[k] + (0.0, 2.0, 3.0)[i]
    check({k: v.item() for k, v in got.items()} == want, "values", form=form, got=got, want=want)


def case_builtin(config, seed):
    """components of a builtin config: union of pick and omit, each exact"""
    r = random.Random(seed)
    cfg = model_configs.resolve(config)
    comps = {n: list(x.keys()) for n, x in cfg.components().items()}
    keys = list(cfg.keys())
    some = r.sample(keys, min(len(keys), 30))
    for ks in comps.values():
        some += ks[:2] + ks[-2:]
    a = {k: torch.tensor([1.0 + i]) for i, k in enumerate(some)}
    b = {k: torch.tensor([1001.0 + i]) for i, k in enumerate(some)}
    A, B = (LiteralRecipeNode(x, model_config=cfg, merge_space="weight") for x in (a, b))
    n = r.choice(list(comps))
    inside = set(comps[n])
    run = lambda x, **kw: sd_mecha.merge(x, threads=0, total_buffer_size=256, output_dtype=torch.float32, omit_ema=False, **kw)
    got = run(sd_mecha.pick_component(A, n))
    check(set(got) == {k for k in some if k in inside} and all(torch.equal(got[k], a[k]) for k in got), "pick", component=n)
    got = run(sd_mecha.omit_component(A, n))
    check(set(got) == {k for k in some if k not in inside} and all(torch.equal(got[k], a[k]) for k in got), "omit", component=n)
    got = run(sd_mecha.pick_component(A, n) | B)
    check(set(got) == set(some) and all(torch.equal(got[k], a[k] if k in inside else b[k]) for k in got), "pick, fallback", component=n)
    got = run(sd_mecha.omit_component(A, n), fallback_model=B)
    check(set(got) == set(some) and all(torch.equal(got[k], b[k] if k in inside else a[k]) for k in got), "omit, fallback", component=n)


def case_params():
    """fallbacks of other types: numbers in per-key dictionaries"""
    cfg = synthetic_config("vc24-p", {"m": {k: ([1], "float64", [], False) for k in ("k0", "k1", "k2")}})
    a = LiteralRecipeNode({k: torch.tensor([float(i + 1)], dtype=torch.float64) for i, k in enumerate(("k0", "k1", "k2"))}, model_config=cfg, merge_space="weight")
    b = LiteralRecipeNode({k: torch.tensor([10.0 * (i + 1)], dtype=torch.float64) for i, k in enumerate(("k0", "k1", "k2"))}, model_config=cfg, merge_space="weight")
    run = lambda x: {k: v.item() for k, v in sd_mecha.merge(x, threads=0, total_buffer_size=256, output_dtype=torch.float64, merge_dtype=torch.float64).items()}
    alpha = LiteralRecipeNode({"k0": 0.0, "k2": 1.0}, model_config=cfg)
    check(run(sd_mecha.weighted_sum(a, b, alpha=alpha | LiteralRecipeNode({"k1": 0.5, "k0": 0.25}, model_config=cfg))) == {"k0": 1.0, "k1": 11.0, "k2": 30.0}, "dictionary then dictionary")
    check(run(sd_mecha.weighted_sum(a, b, alpha=alpha | 0.5)) == {"k0": 1.0, "k1": 11.0, "k2": 30.0}, "dictionary then number")
    check(run(sd_mecha.weighted_sum(a, b, alpha=0.5 | alpha)) == {"k0": 5.5, "k1": 11.0, "k2": 16.5}, "number then dictionary")
    check(run(sd_mecha.weighted_sum(a, b, alpha=alpha)) == {"k0": 1.0, "k2": 30.0}, "dictionary alone")
    other = LiteralRecipeNode({"k1": 1.0, "k0": 0.5}, model_config=cfg)
    check(run(sd_mecha.weighted_sum(a, b, alpha=0.5 | (alpha | other))) == {"k0": 5.5, "k1": 11.0, "k2": 16.5}, "number, then a recipe with a fallback")


CASES = {f.__name__[5:]: f for f in (case_random, case_unknown, case_failing, case_builtin, case_params)}


def suite(S):
    r = S.rng
    for m in ("pick_component", "omit_component"):
        for comp in ("M", "mm", "k0", "vc24-k"):
            for hidden in ("", "fallback", "option", "below"):
                S.run("unknown", method=m, comp=comp, hidden=hidden)
    for kind in ("key", "fails", *MISSING):
        for form in ("or", "call", "keywords", "option", "below", "added", "picked", "omitted", "chain", "last"):
            S.run("failing", kind=kind, form=form)
    S.run("params")
    n = 0
    while S.more():
        S.run("random", seed=r.randrange(10**9), threads=0 if r.random() < 0.9 else 2)
        n += 1
        if n % 60 == 1:
            S.run("builtin", config=r.choice(["sd1-ldm", "sdxl-sgm", "sd1-kohya"]), seed=r.randrange(10**9))
