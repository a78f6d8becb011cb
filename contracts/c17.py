"""C17 Mandatory-key checking and config inference decide from the keys alone"""
import functools
import itertools
import re
import z3
from vc import rt
from vc.report import Proof
from vc.core import PathEnd
from vc.values import Model, SBool, SInt, mkint, mkbool, zint, zbool
from .common import *

ID = "C17"
LEVEL = "proof"
TRUSTED = [
    "the keys of a state dict are what iterating over it gives",
    "the registry of configs is what model_configs.get_all returns",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["0.1 * n and 0.9 * n are n/10 and 9n/10 up to rounding, which for integers below 2**40 never changes the outcome of a comparison with an integer"]
NOTE = ("Mandatory keys: for configs of any number of keys with up to 2 aliases each and all state dicts (loop contract over an arbitrary key), and exhaustively for up to 2 keys. "
        "Inference: for key sets of any size (their cardinalities are symbolic) and registries of up to 3 configs. Config decisions of recipes with up to 3 inputs over a universe of keys: every subset (bounded).")
PROOF_BUDGET = 60
SUITE_BUDGET = 10


# ----------------------------------------------------------------- mandatory keys: any number of keys
class Names(Model):
    """the set of keys of an arbitrary state dict: membership is decided when asked"""
    pytype = set

    def __init__(self, c):
        self.c, self.known = c, {}

    def __contains__(self, k):
        if k not in self.known:
            self.known[k] = bool(self.c.choice(2, f"{k} in the state dict"))
        return self.known[k]

    def vc_set(self):
        return self

    def __sub__(self, o):
        return Unknown(self.c, None)

    __and__ = __rsub__ = __rand__ = difference = intersection = __sub__

    def __hash__(self):
        return id(self)


class Unknown(Model):
    """a set of which only emptiness is known (nonempty), plus what was added on this path"""
    pytype = set

    def __init__(self, c, nonempty):
        self.c, self.nonempty = c, nonempty

    def __bool__(self):
        if self.nonempty is None:
            self.nonempty = bool(self.c.choice(2, "nonempty"))
        return self.nonempty

    def vc_len(self):
        return 1 if bool(self) else 0

    def add(self, x):
        self.nonempty = True

    append = add

    def vc_set(self):
        return self

    def __or__(self, o):
        return self

    def __repr__(self):
        return "{...}"

    def __str__(self):
        return "{...}"

    def __format__(self, spec):
        return "{...}"

    def __hash__(self):
        return id(self)


rt.HANDLERS[set] = lambda a, k: a[0].vc_set() if a and getattr(type(a[0]), "vc_set", None) else NotImplemented


class Items(Model):
    """the entries of a config of arbitrary size; `bad(key, metadata)`: the entry is missing from the state dict"""
    def __init__(self, c, world):
        self.c, self.world = c, world

    def vc_loop(self, loop):
        c, w = self.c, self.world
        if set(loop.used or ()) and w.phase == "names":
            pass
        sets = {n: v for n, v in loop.locals().items() if isinstance(v, (set, list)) and type(v) in (set, list) and len(v) == 0}
        if w.step is None:
            w.step = c.choice(2, "loop: one iteration or exit")
        if w.step == 0:
            pre = {n: bool(c.choice(2, f"{n} nonempty before")) for n in sets}
            loop.vars = {n: Unknown(c, pre[n]) for n in sets}
            yield w.element()
            w.check_iteration(loop, sets, pre)
            raise PathEnd()
        loop.vars = {n: Unknown(c, w.some_bad()) for n in sets}

    def vc_comp(self, kind, fn):
        c, w = self.c, self.world
        if kind == "dict":
            return {}
        if w.step is None:
            w.step = c.choice(2, "comprehension: one element or all")
        if w.step == 0:
            out = list(fn(iter([w.element()])))
            c.prove("an entry is collected exactly if it is missing", bool(out) == w.bad())
            raise PathEnd()
        return Unknown(c, w.some_bad())


class World:
    def __init__(self, c):
        self.c, self.step, self.phase, self.el, self.all_bad = c, None, None, None, None
        self.names = Names(c)

    def element(self):
        if self.el is None:
            n = self.c.choice(3, "aliases")
            self.el = "k", model_configs.KeyMetadata([1], "float32", tuple(f"alias{i}" for i in range(n)), bool(self.c.choice(2, "optional")))
        return self.el

    def bad(self):
        k, md = self.el
        return not md.optional and not any(x in self.names for x in (k, *md.aliases))

    def some_bad(self):
        if self.all_bad is None:
            self.all_bad = bool(self.c.choice(2, "some key is missing"))
        return self.all_bad

    def check_iteration(self, loop, sets, pre):
        c = self.c
        now = loop.locals()
        c.cover("iteration")
        grown = [n for n in sets if isinstance(now.get(n), Unknown)]
        # exactly one of the collections holds the missing keys
        ok = any(bool(now[n]) == (pre[n] or self.bad()) for n in grown)
        c.prove("an entry is collected exactly if it is missing", ok, detail=repr((self.el, self.names.known)))


class Config(Model):
    """a config of arbitrary size"""
    def __init__(self, c, world):
        self.c, self.world, self.identifier = c, world, "vc17-any"

    def keys(self):
        return View(self.c, self.world)

    def aliases(self):
        return View(self.c, self.world, aliases=True)

    metadata = keys

    def __hash__(self):
        return id(self)


class View(Model):
    pytype = dict

    def __init__(self, c, world, aliases=False):
        self.c, self.world, self.al = c, world, aliases

    def items(self):
        return Items(self.c, self.world)

    def vc_set(self):
        return Unknown(self.c, None)

    def __hash__(self):
        return id(self)


def h_mandatory_any(c):
    w = World(c)
    on = bool(c.choice(2, "checking"))
    config = Config(c, w)
    try:
        merging.check_model_config(w.names, config, False, on, "origin")
        raised = False
    except RuntimeError:
        raised = True
    if not on:
        c.cover("off")
        c.prove("without checking nothing fails", not raised)
        return
    if w.step == 0:
        # an iteration that ends the function itself
        c.prove("refused only if an entry is missing", raised and w.bad())
        return
    c.cover("decided")
    c.prove("refused exactly if some entry is missing", raised == w.some_bad())


def h_mandatory_small(c):
    n = c.choice(3, "keys")
    keys = {}
    names = []
    for i in range(n):
        other = f"k{(i + 1) % 2}"
        aliases = c.choose([(), (f"a{i}",), (f"a{i}", f"b{i}"), (other,), ("shared",)], f"aliases of k{i}")
        keys[f"k{i}"] = model_configs.KeyMetadata([1], "float32", aliases, bool(c.choice(2, f"k{i} optional")))
        names += [f"k{i}", *aliases]
    names = list(dict.fromkeys(names))
    present = [x for x in names if c.choice(2, f"{x} present")] + (["unknown"] if c.choice(2, "an unknown key") else [])
    config = model_configs.ModelConfigImpl("vc17-small", {"c": keys})
    want = any(not md.optional and not any(x in present for x in (k, *md.aliases)) for k, md in keys.items())
    for state in (present, dict.fromkeys(present), set(present)):
        for strip in (False, True):
            for on in (False, True):
                try:
                    merging.check_model_config(state, config, strip, on, "origin")
                    raised = False
                except RuntimeError:
                    raised = True
                c.prove("refused exactly if checking is on and a mandatory key is missing", raised == (on and want), detail=f"{strip} {on}")
    c.cover("missing" if want else "complete")


# ----------------------------------------------------------------- inference: key sets of any size
class Card(Model):
    """a set of which only the cardinality is known"""
    pytype = set

    def __init__(self, world, kind, index, size):
        self.world, self.kind, self.index, self.size = world, kind, index, size

    def vc_len(self):
        return mkint(self.size)

    def vc_set(self):
        return self

    def __bool__(self):
        return bool(mkint(self.size) > 0)

    def meet(self, *o):
        (o,) = o
        if {self.kind, getattr(o, "kind", None)} == {"state", "names"}:
            i = self.index if self.kind == "names" else o.index
            return Card(self.world, "meet", i, self.world.m[i])
        if self.kind == "meet" and getattr(o, "kind", None) == "state":
            return self
        raise rt.Unsupported("set operation")

    intersection = __and__ = __rand__ = meet

    def issubset(self, o):
        if self.kind == "state" and getattr(o, "kind", None) == "names":
            return mkbool(self.world.m[o.index] == self.world.n)
        raise rt.Unsupported("set operation")

    __le__ = issubset

    def join(self, *o):
        if self.kind in ("keys", "names") and all(getattr(x, "kind", None) in ("keys", "names", "aliases") and x.index == self.index for x in o):
            return Card(self.world, "names", self.index, self.world.t[self.index])
        raise rt.Unsupported("set operation")

    union = __or__ = __ror__ = join

    def vc_comp(self, kind, fn):
        if self.kind == "aliasmap":
            return Card(self.world, "aliases", self.index, self.world.t[self.index])
        raise rt.Unsupported("comprehension")

    def values(self):
        return self

    def __hash__(self):
        return id(self)


class AnyConfig(Model):
    def __init__(self, world, i):
        self.world, self.i, self.identifier = world, i, f"vc17-any{i}"

    def keys(self):
        return Card(self.world, "keys", self.i, self.world.c[self.i])

    def aliases(self):
        return Card(self.world, "aliasmap", self.i, self.world.c[self.i])

    def __hash__(self):
        return hash(self.identifier)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.identifier


class Sizes:
    pass


def h_infer(count):
    def h(c):
        c.decimals = True
        w = Sizes()
        w.n = c.int("keys", 0, 2**40)
        w.m = [c.int(f"shared{i}", 0) for i in range(count)]
        w.c = [c.int(f"config{i}", 0) for i in range(count)]
        w.t = [c.int(f"names{i}", 0) for i in range(count)]
        for i in range(count):
            c.assume(z3.And(w.m[i] <= w.n, w.m[i] <= w.t[i], w.c[i] <= w.t[i]))
        configs = [AnyConfig(w, i) for i in range(count)]
        c.overrides[model_configs.get_all] = lambda: list(configs)
        state = Card(w, "state", None, w.n)
        res = merging.infer_model_configs(state)
        verify_groups(c, w, configs, res)
    return h


def verify_groups(c, w, configs, res):
    c.prove("groups of configs", isinstance(res, list) and all(len(g) > 0 for g in res))
    members = [x for g in res for x in g]
    c.prove("each config at most once", len(set(map(id, members))) == len(members))
    top = None
    for g in res:
        g = list(g)
        for x in g[1:]:
            c.prove("the configs of a group share as many keys", w.m[x.i] == w.m[g[0].i])
        if top is not None:
            c.prove("better groups come first", w.m[g[0].i] < top)
        top = w.m[g[0].i]
    for x in configs:
        if any(x is y for y in members):
            c.cover("plausible")
            c.prove("a listed config shares at least a tenth of the keys", 10 * w.m[x.i] >= w.n)
        else:
            complete = z3.Or([z3.And(w.m[y.i] == w.n, 10 * w.m[y.i] >= 9 * w.c[y.i]) for y in configs])
            c.cover("not listed")
            c.prove("a config is left out only if it shares less than a tenth of the keys or another config is complete", z3.Or(10 * w.m[x.i] < w.n, complete))
            if res:
                best = w.m[next(iter(res[0])).i]
                c.prove("no config that is left out shares more keys than the best ones", w.m[x.i] <= best)


# ----------------------------------------------------------------- which config an input gets
def plausible(keys, names):
    return 10 * len(keys & names) >= len(keys)


def allowed(keys, registry, param):
    """the configs that an input without config may get; None stands for a structural one"""
    keys = set(keys)
    share = {n: len(keys & names) for n, names in registry.items()}
    if param is not None and 10 * share[param] >= len(keys):
        return {param}
    listed = {n: s for n, s in share.items() if 10 * s >= len(keys)}
    complete = {n for n, s in listed.items() if s == len(keys) and 10 * s >= 9 * len(registry[n])}
    if not listed:
        return {None}
    best = {n for n, s in listed.items() if s == max(listed.values())}
    out = {next(iter(best)) if len(best) == 1 else None} | complete
    return out


_registry = {}


def small_registry(kind):
    """config name -> keys"""
    return {
        "nested": {"vc17-a": {"x", "y", "z"}, "vc17-b": {"x", "y"}},
        "overlap": {"vc17-a": {"x", "y"}, "vc17-b": {"y", "z"}},
        "twins": {"vc17-a": {"x", "y"}, "vc17-b": {"x", "y"}},
        "large": {"vc17-a": {"x", *map(str, range(12))}, "vc17-b": {"x", "y", "z"}},
    }[kind]


def registry_configs(kind):
    if kind not in _registry:
        _registry[kind] = {n: synthetic_config(n, {"c": {k: ([1], "float32", [], True) for k in sorted(ks)}}) for n, ks in small_registry(kind).items()}
    return _registry[kind]


UNIVERSE = ["x", "y", "z", "w"]
WIDE = ["x"] + [f"other{i}" for i in range(12)]


def declared(config):
    name = f"vc17_declared_{config.identifier.replace('-', '_')}"
    return define_method(f"def {name}(*a: Parameter(Tensor, model_config=config)) -> Return(Tensor, model_config=config):\n    return a[0]\n", name, env=dict(config=config), fresh=True, register=False)


def plain():
    return define_method("def vc17_plain(*a: Parameter(Tensor)) -> Return(Tensor):\n    return a[0]\n", "vc17_plain", register=False)


def h_decide(c):
    kind = c.choose(["nested", "overlap", "twins", "large"], "registry")
    registry = small_registry(kind)
    configs = registry_configs(kind)
    order = c.choose([list(configs), list(configs)[::-1]], "order of registration")
    c.overrides[model_configs.get_all] = lambda: [configs[n] for n in order]
    param = c.choose([None, *configs], "declared")
    hint = c.choose(["none", "infer", "explicit"], "hint")
    keys = [k for k in UNIVERSE if c.choice(2, f"{k} in the input")]
    keys += WIDE[1:][:c.choose([0, 9, 12], "other keys")]
    explicit = configs["vc17-a"]
    node = LiteralRecipeNode({k: torch.zeros(1) for k in keys}, merge_space="weight", model_config={"none": None, "infer": model_configs.INFER, "explicit": explicit}[hint])
    m = plain() if param is None else declared(configs[param])
    recipe = MergeRecipeNode(m, (node,), {}, None) if keys or hint else None
    try:
        with merging.open_input_dicts(recipe):
            got = node.model_config
    except RuntimeError as e:
        got = e
    if hint == "explicit":
        c.cover("explicit")
        c.prove("a given config is kept", got is explicit)
        return
    want = allowed(keys, registry, param)
    if not keys:
        return      # decided by the other contracts: nothing is shared with anything
    if isinstance(got, RuntimeError):
        c.prove("only an input that demands inference can fail", hint == "infer" and None in want)
        return
    c.prove("the input has a config", got is not None)
    name = got.identifier if got.identifier in registry else None
    c.cover("structural" if name is None else "inferred")
    c.prove("the declared config if plausible, else the one sharing the most keys, else a structural one", name in want, detail=f"{keys} {param} {order}: {got.identifier} instead of {want}")
    if name is None:
        c.prove("structural configs are not allowed where inference is demanded", hint == "none")
        c.prove("the structural config has the keys of the input", sorted(got.keys()) == sorted(keys))


def h_structural(c):
    """the inputs without a config of their own share the keys common to all of them"""
    c.overrides[model_configs.get_all] = lambda: []
    n = 1 + c.choice(3, "inputs")
    sets = [[k for k in ("x", "y") if c.choice(2, f"{k} in input {i}")] for i in range(n)]
    shapes = [c.choose([1, 3], f"size of input {i}") for i in range(n)]
    nodes = [LiteralRecipeNode({k: torch.zeros(s) for k in ks}, merge_space="weight") for ks, s in zip(sets, shapes)]
    nested = c.choose(["flat", "nested", "dictionary"], "shape of the recipe")
    m = plain()
    if nested == "flat":
        recipe = MergeRecipeNode(m, tuple(nodes), {}, None)
    elif nested == "nested":
        recipe = nodes[0]
        for x in nodes[1:]:
            recipe = MergeRecipeNode(m, (recipe, x), {}, None)
    else:
        recipe = LiteralRecipeNode({k: nodes[0] for k in ("x", "y")}, merge_space="weight")
        nodes, sets = [nodes[0], recipe], [sets[0], ["x", "y"]]
    common = set.intersection(*map(set, sets))
    with merging.open_input_dicts(recipe):
        got = [x.model_config for x in nodes]
        keys = [sorted(g.keys()) if g is not None else None for g in got]
        meta = [sorted(g.metadata()) if g is not None else None for g in got]
    c.cover("common" if common else "disjoint")
    c.prove("the structural config has the keys common to all inputs", all(k == sorted(common) for k in keys), detail=f"{sets} {nested}: {keys}")
    c.prove("and so has its metadata", all(k == sorted(common) for k in meta), detail=f"{sets} {nested}: {meta}")


def proofs():
    return [
        Proof("check_model_config: any number of keys", h_mandatory_any, kind="proof", bound="2 aliases per key", budget=10),
        Proof("check_model_config: every small config", h_mandatory_small, kind="bounded", bound="2 keys, 2 aliases per key", budget=30, max_paths=20000),
        Proof("infer_model_configs: key sets of any size, 1 config", h_infer(1), budget=15),
        Proof("infer_model_configs: key sets of any size, 2 configs", h_infer(2), budget=25, kind="bounded", bound="2 configs"),
        Proof("infer_model_configs: key sets of any size, 3 configs", h_infer(3), budget=40, kind="bounded", bound="3 configs", max_paths=3000),
        Proof("open_input_dicts: config of an input", h_decide, kind="bounded", bound="2 configs, 16 keys", budget=40, max_paths=20000),
        Proof("open_input_dicts: structural configs", h_structural, kind="bounded", bound="3 inputs, 2 keys", budget=40, max_paths=20000),
    ]


# ----------------------------------------------------------------- concrete cross-check
_n = [0]


def tag():
    _n[0] += 1
    return f"t{os.getpid()}x{_n[0]}"


def make_input(rng, d, tensors, config=None):
    if rng.random() < 0.5:
        p = d / f"{tag()}.safetensors"
        write_st(p, tensors)
        return sd_mecha.model(p, config)
    return LiteralRecipeNode(tensors, model_config=config, merge_space="weight")


def own_registry(case):
    """most of the cases run with a registry that holds the configs they register only, which takes less time"""
    @functools.wraps(case)
    def run(seed):
        if seed % 8 == 0:
            return case(seed)
        real, before = model_configs.get_all, _n[0]
        model_configs.get_all = lambda: [x for x in real() if x.identifier.startswith(f"vc17-t{os.getpid()}x") and int(re.match(r"\d+", x.identifier.split("x", 1)[1]).group()) > before]
        try:
            return case(seed)
        finally:
            model_configs.get_all = real
    return run


@own_registry
def case_mandatory(seed):
    rng = random.Random(seed)
    t = tag()
    keys, names = {}, []
    for i in range(rng.randint(1, 8)):
        aliases = [f"{t}.k{i}.alias{j}" for j in range(rng.choice([0, 0, 1, 2, 3]))]
        if rng.random() < 0.15:
            aliases.insert(rng.randint(0, len(aliases)), f"{t}.k{(i + 1) % 3}")
        keys[f"{t}.k{i}"] = ([1], rng.choice(["float32", None]), aliases, rng.random() < 0.4)
        names.append([f"{t}.k{i}", *aliases])
    comps = [{}, {}]
    for k, v in keys.items():
        rng.choice(comps)[k] = v
    cfg = synthetic_config(f"vc17-{t}", {"a": comps[0], "b": comps[1]}, register=True)
    missing_one = rng.random() < 0.5
    state = {}
    for k, ns in zip(keys, names):
        if not keys[k][3] or rng.random() < 0.5:
            for x in rng.sample(ns, rng.randint(1, len(ns))):
                state[x] = torch.ones(1)
    if missing_one:
        k = rng.choice(list(keys))
        for x in (k, *keys[k][2]):
            state.pop(x, None)
    if rng.random() < 0.5:
        state[f"{t}.unknown"] = torch.ones(1)
    if not state:
        return
    want = any(not opt and not any(x in state for x in (k, *al)) for k, (_, _, al, opt) in keys.items())
    with scratch() as d:
        node = make_input(rng, d, state, cfg.identifier)
        good = LiteralRecipeNode({x: torch.ones(1) for k, (_, _, al, _) in keys.items() for x in [k]}, model_config=cfg, merge_space="weight")
        recipe = node if rng.random() < 0.4 else sd_mecha.weighted_sum(*rng.sample([node, good], 2))
        for on in (True, False):
            for how in ("open", "merge"):
                try:
                    if how == "open":
                        with sd_mecha.open_input_dicts(recipe, check_mandatory_keys=on):
                            pass
                    else:
                        sd_mecha.merge(recipe, threads=0, merge_device=None, output_device=None, check_mandatory_keys=on, strict_weight_space=False, total_buffer_size=2**20)
                    raised = None
                except RuntimeError as e:
                    raised = e
                check((raised is not None) == (on and want), "loading failed" if raised is not None else "a state dict that lacks a mandatory key was loaded", checking=on, how=how, error=str(raised)[:200],
                      config={k: (al, opt) for k, (_, _, al, opt) in keys.items()}, state=sorted(state))


@own_registry
def case_infer(seed):
    rng = random.Random(seed)
    t = tag()
    universe = [f"{t}.{i}" for i in range(rng.choice([4, 8, 24, 40]))]
    registry = {}
    for i in range(rng.randint(1, 4)):
        ks = rng.sample(universe, rng.randint(1, len(universe)))
        if registry and rng.random() < 0.3:
            base = sorted(rng.choice(list(registry.values())))
            ks = rng.choice([base, base + [f"{t}.extra{i}"], base[:-1] or base])
        registry[f"vc17-{t}c{i}"] = set(ks)
    tied = rng.random() < 0.2
    if tied:        # two configs that share equally many keys with an input that has others too
        common = rng.sample(universe, rng.randint(1, len(universe)))
        registry = {f"vc17-{t}c{i}": set(common) for i in range(2)}
        for i in range(2, rng.randint(2, 5)):       # and others that share fewer
            registry[f"vc17-{t}c{i}"] = set(rng.sample(common, rng.randint(0, len(common) - 1))) | {f"{t}.other{i}"}
        registry = dict(rng.sample(list(registry.items()), len(registry)))
    alias = {}
    for n, ks in registry.items():
        alias[n] = {k: [f"{k}.alias"] if rng.random() < 0.2 and not tied else [] for k in ks}
    configs = {n: synthetic_config(n, {"c": {k: ([1], "float32", alias[n][k], True) for k in sorted(ks)}}, register=True) for n, ks in registry.items()}
    names = {n: ks | {a for k in ks for a in alias[n][k]} for n, ks in registry.items()}
    nodes, want = [], []
    with scratch() as d:
        for i in range(rng.randint(1, 3)):
            if rng.random() < 0.6:
                src = sorted(rng.choice(list(names.values())))
                ks = src if rng.random() < 0.3 else rng.sample(src, rng.randint(1, len(src)))
            else:
                ks = rng.sample(universe, rng.randint(1, len(universe)))
            if tied:
                ks = common + [f"{t}.unknown"]
            elif rng.random() < 0.3:
                ks = ks + [f"{t}.unknown{j}" for j in range(rng.choice([1, 5, 60]))]
            hint = rng.choice([None, None, None, "infer", rng.choice(list(configs))])
            if hint == "infer":
                hint = model_configs.INFER
            nodes.append((make_input(rng, d, {k: torch.zeros(1) for k in ks}, hint), list(dict.fromkeys(ks)), hint))
        param = rng.choice([None, None, *configs]) if not tied else None
        m = plain() if param is None else declared(configs[param])
        recipe = MergeRecipeNode(m, tuple(n for n, *_ in nodes), {}, None)

        def answers(ks):
            return {x if x is None else x for x in allowed_with(ks, names, {n: len(registry[n]) for n in registry}, param)}
        try:
            with sd_mecha.open_input_dicts(recipe):
                got = [n.model_config for n, *_ in nodes]
                keys = [sorted(g.keys()) for g in got]
        except RuntimeError as e:
            check(any(hint is model_configs.INFER and None in answers(ks) for _, ks, hint in nodes), "an input was refused", error=str(e)[:200])
            return
        structural = []
        for g, kk, (_, ks, hint) in zip(got, keys, nodes):
            if hint is not None and hint is not model_configs.INFER:
                check(g.identifier == hint, "a given config was replaced", given=hint, got=g.identifier)
                continue
            want = answers(ks)
            name = g.identifier if g.identifier in registry else None
            check(name in want, "an input got another config than the declared, best or structural one", keys=len(ks), shared={n: len(set(ks) & names[n]) for n in names}, sizes={n: len(registry[n]) for n in registry}, declared=param, got=g.identifier, allowed=sorted(map(str, want)))
            check(name is not None or hint is None, "structural although inference was demanded")
            if name is None:
                structural.append((kk, ks))
        common = set.intersection(*(set(ks) for _, ks in structural)) if structural else set()
        for kk, ks in structural:
            check(kk == sorted(common), "the structural config does not have the keys common to all inputs", got=kk[:5], expected=sorted(common)[:5])


def allowed_with(keys, names, sizes, param):
    keys = set(keys)
    share = {n: len(keys & ns) for n, ns in names.items()}
    if param is not None and 10 * share[param] >= len(keys):
        return {param}
    listed = {n: s for n, s in share.items() if 10 * s >= len(keys)}
    best = {n for n, s in listed.items() if s == max(listed.values())}
    return {n for n, s in share.items() if s == len(keys) and 10 * s >= 9 * sizes[n]} | {next(iter(best)) if len(best) == 1 else None}


def case_tenth(n, extra, declared_by_param, by_alias):
    """n keys of a config among 10*n + extra keys"""
    t = tag()
    cfg = synthetic_config(f"vc17-{t}", {"a": {f"{t}.k{i}": ([1], "float32", [f"{t}.old{i}"], True) for i in range(3 * n)}}, register=True)
    ks = [f"{t}.{'old' if by_alias else 'k'}{i}" for i in range(n)] + [f"{t}.other{i}" for i in range(9 * n + extra)]
    node = LiteralRecipeNode({k: torch.zeros(1) for k in ks}, merge_space="weight")
    recipe = MergeRecipeNode(declared(cfg), (node,), {}, None) if declared_by_param else node
    with sd_mecha.open_input_dicts(recipe):
        got = node.model_config.identifier
    check((got == cfg.identifier) == (extra <= 0), "an input has a config exactly if it shares at least a tenth of the keys with one", shared=n, keys=len(ks), got=got)


def case_nested(depth, sibling):
    """the config that a parameter declares concerns the inputs of that parameter only"""
    t = tag()
    small = synthetic_config(f"vc17-{t}s", {"a": {f"{t}.k{i}": ([1], "float32", [], True) for i in range(4)}}, register=True)
    large = synthetic_config(f"vc17-{t}l", {"a": {f"{t}.k{i}": ([1], "float32", [], True) for i in range(8)}}, register=True)
    node, other = (LiteralRecipeNode({f"{t}.k{i}": torch.zeros(1) for i in range(8)}, merge_space="weight") for _ in range(2))
    recipe = node
    for _ in range(depth):
        recipe = MergeRecipeNode(plain(), (recipe,), {}, None)
    outer = MergeRecipeNode(declared(small), (recipe, other) if sibling else (recipe,), {}, None)
    with sd_mecha.open_input_dicts(outer):
        got, got_other = node.model_config.identifier, other.model_config and other.model_config.identifier
    check(got == (large if depth else small).identifier, "an input has another config than its own parameter declares, or else the best one", depth=depth, got=got)
    check(not sibling or got_other == small.identifier, "an input of a declared parameter does not have the declared config", got=got_other)


@own_registry
def case_structural(seed):
    rng = random.Random(seed)
    t = tag()
    universe = [f"{t}.{i}" for i in range(4)]
    n = rng.randint(1, 4)
    sets = [rng.sample(universe, rng.randint(1, 4)) for _ in range(n)]
    if rng.random() < 0.4 and n >= 3:
        sets[0], sets[1] = universe[:2], universe[2:]
    with scratch() as d:
        nodes = [make_input(rng, d, {k: torch.full((1,), float(i + 1)) for k in ks}) for i, ks in enumerate(sets)]
        if rng.random() < 0.3:
            nodes[0] = LiteralRecipeNode({k: nodes[0] for k in sets[0]}, merge_space="weight")
        recipe = nodes[0]
        for x in nodes[1:]:
            recipe = rng.choice([lambda a, b: sd_mecha.weighted_sum(a, b, alpha=0.5), lambda a, b: a | b])(recipe, x)
        common = sorted(set.intersection(*map(set, sets)))
        with sd_mecha.open_input_dicts(recipe):
            got = [sorted(x.model_config.keys()) for x in nodes]
        check(all(g == common for g in got), "the structural config does not have the keys common to all inputs", inputs=sets, got=got)
        out = sd_mecha.merge(recipe, threads=0, merge_device=None, output_device=None, strict_weight_space=False, total_buffer_size=2**20, omit_extra_keys=True)
        check(sorted(out) == common, "a merge of inputs without config has other keys than those common to all of them", inputs=sets, got=sorted(out))


CASES = {"tenth": case_tenth, "nested": case_nested, "mandatory": case_mandatory, "infer": case_infer, "structural": case_structural}


def suite(S):
    for seed in range(60):
        S.run("structural", seed=seed)
    for depth in range(4):
        for sibling in (False, True):
            S.run("nested", depth=depth, sibling=sibling)
    for n in (1, 2, 3, 7, 150, 1300):
        for extra in (-1, 0, 1):
            S.run("tenth", n=n, extra=extra, declared_by_param=bool((n + extra) % 2), by_alias=n > 2)
            S.run("tenth", n=n, extra=extra, declared_by_param=not (n + extra) % 2, by_alias=n <= 2)
    i = 0
    while S.more() and i < (500 if not S.thorough else 4000):
        S.run("mandatory", seed=S.rng.randrange(10**6))
        if i % 2 == 0:
            S.run("structural", seed=S.rng.randrange(10**6))
        if i % 3 == 0:
            S.run("infer", seed=S.rng.randrange(10**6))
        i += 1
