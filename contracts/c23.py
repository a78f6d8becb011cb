"""C23 A merge does not depend on what was merged before"""
import itertools
import logging
from collections import OrderedDict
from vc.report import Proof
from .common import *
from .c06 import Stub
from .c09 import Boom
from .c11 import World, graphs, GRAPHS, both, BODY, run as attempt
from sd_mecha import streaming
from sd_mecha.extensions import model_formats

ID = "C23"
LEVEL = "proof"
TRUSTED = [
    "formats follow the contract of get_read_dict: a state dict read from the file as it is when it is opened (property C02 for safetensors)",
    "closing an opened input state dict does not raise",
    "merge methods are functions of the values they are given; the builtin ones do not alter them (bounded check)",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["by induction over the history: each operation leaves everything that a later one can observe as it was before, so that a later one starts from the same state as the first"]
PROOF_BUDGET = 60
SUITE_BUDGET = 13


# ----------------------------------------------------------------- contracts
def below(node, seen=None):
    seen = {} if seen is None else seen
    if id(node) in seen:
        return seen
    seen[id(node)] = node
    if isinstance(node, MergeRecipeNode):
        for n in (*node.args, *node.kwargs.values()):
            below(n, seen)
    elif isinstance(node, LiteralRecipeNode) and isinstance(node.value, dict):
        for n in node.value.values():
            if isinstance(n, RecipeNode):
                below(n, seen)
    return seen


def observe(node):
    """what later operations can see of a node, without looking at how it is stored"""
    if isinstance(node, MergeRecipeNode):
        return ("merge", id(node.merge_method), tuple(map(id, node.args)), tuple((k, id(v)) for k, v in node.kwargs.items()), id(node.cache))
    if isinstance(node, ModelRecipeNode):
        return ("model", node.path, node.state_dict is None, id(node.model_config), id(node.merge_space))
    v = node.value
    value = tuple((k, id(x)) for k, x in v.items()) if isinstance(v, dict) else id(v)
    return ("literal", value, id(node.model_config), id(node.merge_space))


def state(*roots):
    res = {}
    for r in roots:
        for i, n in below(r).items():
            res[i] = (n, observe(n))
    return res


def same_state(a, b):
    return set(a) == set(b) and all(a[i][1] == b[i][1] for i in a)


def config_state(cfg):
    return ([(k, repr(v)) for k, v in cfg.keys().items()], list(cfg.metadata().items()), [(k, list(v)) for k, v in cfg.aliases().items()], [(n, list(x.keys())) for n, x in cfg.components().items()])


def make_method(w):
    BODY[0] = lambda key: w.faults.point("merge method")
    return both("vc23_m", "BODY[0](kwargs['key'])\n    return a + 2 * sum(rest) + 3 * k", dict(BODY=BODY), register=False)


OPTIONS = [
    {}, dict(omit_extra_keys=False), dict(omit_extra_keys=False, fallback_model=True), dict(merge_dtype=torch.float64, output_dtype=torch.float32),
    dict(check_mandatory_keys=True, strict_weight_space=False), dict(output=pathlib.Path("/vc23/out.safetensors")),
]


def do_merge(recipe, opts, fallback):
    opts = dict(dict(threads=0, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, total_buffer_size=64), **opts)
    if opts.get("fallback_model"):
        opts["fallback_model"] = fallback
    return sd_mecha.merge(recipe, **opts)


def world(c, kinds):
    w = World(c, kinds=kinds)
    w.cfg = synthetic_config("vc23-x", {n: {k: ([1], "float32", [], False)} for n, k in zip(("m", "ema"), w.keys)})

    def infer(metadata, *a, preferred=None, **kw):
        w.faults.point("inferring a config")
        return [{w.cfg}]
    c.overrides[merging.infer_model_configs] = infer
    return w


def h_again(which, opts, kinds):
    """a merge that succeeds or fails anywhere leaves the graph as it was, and the next one reads everything anew"""
    def h(c):
        w = world(c, kinds)
        m = make_method(w)
        recipe, fallback, nodes = graphs(w, which, m)
        extra = w.model("c")
        before, cfg = state(recipe, fallback or extra, extra), config_state(w.cfg)
        got, err = attempt(c, lambda: do_merge(recipe, opts, fallback or extra))
        c.cover("first")
        c.prove("only a fault makes the merge fail", (err is None) or w.faults.fired is not None)
        c.prove("the recipe, its nodes and their configs are as they were", same_state(before, state(recipe, fallback or extra, extra)))
        c.prove("the config is as it was", cfg == config_state(w.cfg))
        w.faults.on = False
        opened = len(w.opened)
        second, err = attempt(c, lambda: do_merge(recipe, opts, fallback or extra))
        c.prove("a later merge succeeds whatever happened to the first", err is None)
        used = sorted(d.name for d in w.opened[opened:])
        c.prove("a later merge does not use an input that was opened before", all(d.closed for d in w.opened) and len(used) > 0)
        opened = len(w.opened)
        recipe2, fallback2, _ = graphs(w, which, m)
        third, err = attempt(c, lambda: do_merge(recipe2, opts, fallback2 or w.model("c")))
        c.prove("a later merge opens the same files as that of a new recipe", err is None and used == sorted(d.name for d in w.opened[opened:]))
        if opts.get("output") is not None:
            second, third = (o.items for o in w.outputs[-2:])
        c.prove("a later merge gives the same as that of a new recipe", list(second) == list(third) and all(torch.equal(second[k], third[k]) and second[k].dtype == third[k].dtype for k in second))
        if got is not None and w.faults.fired is None:
            c.prove("the first merge gave the same", set(got) == set(second) and all(torch.equal(got[k], second[k]) for k in second))
        c.prove("the recipe is still as it was", same_state(before, state(recipe, fallback or extra, extra)))
    return h


def h_contexts(c):
    """a node that is used in different recipes gets its config from each of them"""
    w = world(c, [Boom])
    b_cfg = synthetic_config("vc23-y", {"m": {k: ([1], "float32", [], False) for k in w.keys}})
    known = c.choice(3, "inference")

    def infer(metadata, *a, preferred=None, **kw):
        w.faults.point("inferring a config")
        return [[{w.cfg}], [{w.cfg, b_cfg}], []][known]
    c.overrides[merging.infer_model_configs] = infer
    src = "def {0}(a: Parameter(Tensor, 'weight'{1}), *rest: Parameter(Tensor)) -> Return(Tensor, 'weight'{1}):\n    return a\n"
    c.overrides[model_configs.resolve] = None
    del c.overrides[model_configs.resolve]
    plain = define_method(src.format("vc23_plain", ""), "vc23_plain", register=False)
    kind = c.choice(2, "leaf")
    make = lambda: w.model("s", False) if kind else LiteralRecipeNode({k: torch.ones(1) for k in w.keys}, merge_space="weight")
    leaf, other = make(), w.model("a")
    uses = [lambda l: plain(l), lambda l: plain(other, l), lambda l: plain(l, other), lambda l: l, lambda l: plain(plain(l), l)]
    first = c.choose(uses, "first use")(leaf)
    before = observe(leaf)
    attempt(c, lambda: do_merge(first, {}, None))
    c.prove("nothing that was inferred in the first recipe remains", observe(leaf) == before and leaf.model_config is None)
    w.faults.on = False
    use = c.choose(uses, "second use")
    r1, e1 = attempt(c, lambda: do_merge(use(leaf), {}, None))
    r2, e2 = attempt(c, lambda: do_merge(use(make()), {}, None))
    c.prove("the second recipe is merged as with a new node", type(e1) is type(e2) and (e1 is not None or list(r1) == list(r2) and all(torch.equal(r1[k], r2[k]) for k in r1)))


def h_convert(c):
    """conversions, also those that fail, leave the recipe and the target as they were"""
    w = world(c, [Boom, KeyboardInterrupt])
    m = make_method(w)
    a, b = w.model("a", c.choice(2, "explicit config") == 1), w.model("b", False)
    target = [w.cfg, b, m(b, k=a)][c.choice(3, "target")]
    recipe = [a, m(a)][c.choice(2, "recipe")]
    c.overrides[merge_methods.get_all_converters] = lambda: []
    roots = [recipe] + ([target] if isinstance(target, RecipeNode) else [])
    before = state(*roots)
    attempt(c, lambda: sd_mecha.convert(recipe, target))
    c.prove("the recipes are as they were", same_state(before, state(*roots)))
    c.prove("every opened input is closed", all(d.closed for d in w.opened))
    w.faults.on = False
    got, err = attempt(c, lambda: sd_mecha.convert(recipe, target))
    c.prove("a later conversion succeeds", err is None and got is recipe)


class Visited(Stub):
    """an arbitrary recipe below a node, which may fail when it is visited"""

    def __init__(self, c, faults, log, config):
        super().__init__(merge_spaces.resolve("weight"), config)
        self.faults, self.log = faults, log

    def accept(self, visitor, *a, **kw):
        self.log.append(visitor)
        self.faults.point("loading")
        return self


def h_load(c):
    """opening one node: what it infers is noted before anything can fail, and nothing else of the node changes"""
    w = world(c, [Boom, KeyboardInterrupt])
    kind = c.choose(["model", "tensors", "numbers", "recipes", "value", "merge"], "node")
    hint = c.choose([None, model_configs.INFER, w.cfg], "config")
    log = []
    kids = [Visited(c, w.faults, log, hint) for _ in range(3)]
    if kind == "model":
        node = ModelRecipeNode(pathlib.Path("/vc23/a.safetensors"), model_config=hint)
    elif kind == "merge":
        m = define_method("def vc23_any(*a: Parameter(Tensor), k: Parameter(Tensor)) -> Return(Tensor, 'weight'):\n    return 0\n", "vc23_any", register=False)
        node = MergeRecipeNode(m, tuple(kids[:2]), {"k": kids[2]})
    else:
        value = dict(tensors={"k0": torch.zeros(1), "k1": torch.zeros(2)}, numbers={"k0": 1.0}, recipes={"k0": kids[0], "k1": kids[1]}, value=1.5)[kind]
        node = LiteralRecipeNode(value, model_config=hint, merge_space="weight")
    before = observe(node)
    shared = (merging.LoadInputDictsVisitor([], 16, True, c.choice(2, "mandatory") == 1))
    v = shared if c.choice(2, "below a method") else __import__("dataclasses").replace(shared, param_config=w.cfg)
    attempt(c, lambda: node.accept(v))
    hints = [h for n, h in shared.config_hints if n is node]
    if kind != "merge" and node.model_config is not hint:
        c.cover("inferred")
        c.prove("the config that was there before is noted once, for the whole recipe", len(hints) == 1 and hints[0] is hint)
    for n, h in shared.config_hints:
        n.model_config = h
    w.faults.on = False
    node.accept(merging.CloseInputDictsVisitor())
    c.prove("closed, and with its config, the node is as it was", observe(node) == before)
    again = len(shared.config_hints)
    c.prove("nothing is noted for other nodes", all(n is node for n, h in shared.config_hints))
    log.clear()
    attempt(c, lambda: node.accept(merging.LoadInputDictsVisitor([], 16, True, False)))
    c.prove("opened again, everything below is visited again", len(log) == dict(recipes=2, merge=3).get(kind, 0))


def h_arbitrary(c):
    """open_input_dicts around an arbitrary body, for an arbitrary recipe below"""
    from .c11 import h_open
    h_open(c)


def h_forget(c):
    """closing reaches every recipe below every kind of node and forgets what was opened"""
    from .c11 import h_close
    h_close(c)


CALLS = {
    "keys": lambda g: [(k, repr(v)) for k, v in g.keys().items()],
    "metadata": lambda g: list(g.metadata().items()),
    "aliases": lambda g: [(k, list(v)) for k, v in g.aliases().items()],
    "components": lambda g: [(n, list(x.keys()), list(x.metadata()), list(x.aliases())) for n, x in g.components().items()],
    "identifier": lambda g: (g.identifier, g.get_architecture_identifier(), g.get_implementation_identifier()),
}
COMPS = {"m": {"k0": ([1], "float32", ["old"], False), "k1": ([2, 3], "float16", [], True)}, "ema": {"e0": ([], "int64", ["x", "y"], False)}, "none": {}}


def config_kinds():
    def lazy(fail):
        class Lazy(model_configs.LazyModelConfigBase):
            identifier = "vc23-lazy"
            tries = 0

            def create_config(self):
                self.tries += 1
                if self.tries <= fail:
                    from vc.core import pyraise
                    pyraise(Boom("not yet"))
                return synthetic_config("vc23-lazy", COMPS)
        return Lazy()
    return {
        "plain": lambda: synthetic_config("vc23-x", COMPS),
        "structural": lambda: model_configs.StructuralModelConfig({k: model_configs.KeyMetadata(list(s), d, list(al), o) for k, (s, d, al, o) in COMPS["m"].items()}),
        "lazy": lambda: lazy(0),
        "lazy, failing once": lambda: lazy(1),
        "lazy, failing twice": lambda: lazy(2),
    }


def h_config(kind):
    def h(c):
        """what a config answers does not depend on what it was asked before"""
        make = config_kinds()[kind]
        cfg = make()
        failures = 2 if "twice" in kind else 1 if "once" in kind else 0
        for i in range(3):
            call = c.choose(list(CALLS), f"call {i}")
            got, err = attempt(c, lambda: CALLS[call](cfg))
            if err is not None:
                c.prove("a config only fails while it cannot be created", failures > 0 and isinstance(err, Boom))
                failures -= 1
                continue
            fresh = make()
            want = None
            for _ in range(3):
                want, e = attempt(c, lambda: CALLS[call](fresh))
                if e is None:
                    break
            c.prove("the answer is that of a new config", got == want)
    return h


METHOD = ("def vc23_d(a: Parameter(Tensor), b: Parameter(float) = 1.0, *, k: Parameter(float) = 2.0, **kwargs) -> Return(Tensor):\n"
          "    return (a, b, k, kwargs['key'], kwargs['cache'])\n")
M_CALLS = {
    "plain": lambda m, n: node_view(m(n)),
    "keywords": lambda m, n: node_view(m(n, k=7.5)),
    "all by name": lambda m, n: node_view(m(a=n, b=3.0, k=4.0)),
    "too many": lambda m, n: node_view(m(n, 1.0, 2.0)),
    "unknown": lambda m, n: node_view(m(n, z=1.0)),
    "twice": lambda m, n: node_view(m(n, a=n)),
    "missing": lambda m, n: node_view(m(b=1.0)),
    "merge key": lambda m, n: m.merge_key((1, 2), {"k": 3}, "key", None),
    "merge key with cache": lambda m, n: m.merge_key((1, 2), {"k": 3}, "other", CACHE),
    "names": lambda m, n: (m.get_param_names().as_dict(3) if m.has_varkwargs else None, str(m.get_input_types().as_dict(3)), m.get_default_args().as_dict(1)),
}
CACHE = {}


def node_view(n):
    return (n.merge_method.identifier, [x.value if isinstance(x, LiteralRecipeNode) and not isinstance(x.value, dict) else id(x) for x in n.args],
            {k: x.value if isinstance(x, LiteralRecipeNode) and not isinstance(x.value, dict) else id(x) for k, x in n.kwargs.items()}, n.cache)


def h_method(c):
    """what a merge method does does not depend on how it was used before, also when it rejected its arguments"""
    n = LiteralRecipeNode({"a": torch.ones(1)}, merge_space="weight")
    m = define_method(METHOD, "vc23_d", register=False, fresh=True)
    for i in range(3):
        call = c.choose(list(M_CALLS), f"call {i}")
        got, err = attempt(c, lambda: M_CALLS[call](m, n))
        fresh = define_method(METHOD, "vc23_d", register=False, fresh=True)
        want, err2 = attempt(c, lambda: M_CALLS[call](fresh, n))
        c.prove("a use gives what it gives the first time", type(err) is type(err2) and str(err) == str(err2) and got == want)


def h_arguments(c):
    """the dictionaries and lists of the caller are not altered, nor shared between recipes"""
    cfg = synthetic_config("vc23-x", COMPS)
    n = LiteralRecipeNode({"k0": torch.ones(1)}, model_config=cfg, merge_space="weight")
    m = define_method(METHOD, "vc23_d", register=False, fresh=True)
    k = LiteralRecipeNode(6.5)
    kw = {"k": k, "b": 5.0}
    args = [n]
    x = m(*args, **kw)
    value = {"k0": 1.5}
    y = m(n, k=value) if c.choice(2, "dictionary") else m(n)
    c.prove("the arguments of the caller are as they were", list(kw) == ["k", "b"] and kw["k"] is k and kw["b"] == 5.0 and args == [n] and value == {"k0": 1.5})
    z = m(n)
    c.prove("recipes do not share what can be altered", x.kwargs is not y.kwargs and y.kwargs is not z.kwargs)
    z.set_cache()
    c.prove("a cache belongs to its own node", x.cache is None and y.cache is None and z.cache == {} and m(n).cache is None)
    w1, w2 = m(n).set_cache(), m(n).set_cache()
    c.prove("every node has a cache of its own", w1.cache is not w2.cache)


def h_infer(c):
    """inference reads the registered configs only"""
    keys = [f"k{i}" for i in range(4)]
    cfgs = [synthetic_config(f"vc23-i{i}", {"m": {k: ([1], "float32", [], False) for k in ks}}) for i, ks in enumerate((keys[:2], keys[:3], keys[2:]))]
    registry = list(cfgs)
    c.overrides[model_configs.get_all] = lambda: registry
    sub = lambda what: [k for k in keys if c.choice(2, f"{what} has {k}")]
    first, prefer = sub("first"), c.choose([None, *cfgs], "preferred at first")
    second = [k for k in keys if c.choice(2, f"second has {k}")]
    want = merging.infer_model_configs(list(second), preferred=None)
    merging.infer_model_configs(first, preferred=prefer)
    c.prove("the registered configs keep their order", registry == cfgs)
    again = merging.infer_model_configs(second, preferred=None)
    c.prove("inference does not depend on earlier ones", want == again)


def proofs():
    yield Proof("opening a node", h_load)
    yield Proof("opening and closing a recipe", h_arbitrary)
    yield Proof("closing a node", h_forget)
    for g in GRAPHS:
        yield Proof(f"merging again: {g}", h_again(g, {}, [Boom, KeyboardInterrupt]), kind="bounded", bound="2 keys, up to 4 inputs, one fault anywhere", max_paths=40000)
    for i, o in enumerate(OPTIONS[1:]):
        yield Proof(f"merging again with options {i}", h_again("unbalanced" if i % 2 else "dictionary", o, [Boom]), kind="bounded", bound="2 keys, up to 4 inputs, one fault anywhere", max_paths=40000)
    yield Proof("a node in different recipes", h_contexts, kind="bounded", bound="5 recipes, 2 keys, one fault anywhere", max_paths=40000)
    yield Proof("converting again", h_convert, kind="bounded", bound="2 inputs, one fault anywhere", max_paths=40000)
    for k in config_kinds():
        yield Proof(f"a {k} config", h_config(k), kind="bounded", bound="3 calls in any order", max_paths=40000)
    yield Proof("a merge method", h_method, kind="bounded", bound="3 uses of 10 kinds in any order", max_paths=40000)
    yield Proof("arguments of a merge method", h_arguments, kind="bounded", bound="one method")
    yield Proof("inference", h_infer, kind="bounded", bound="3 configs over 4 keys", max_paths=40000)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
FAIL = [None]
KEYS = ["h.k0", "h.k1", "h.k2", "h.k3"]
_ready = []


def setup():
    """two configs which both match the keys, and conversions between them"""
    if not _ready:
        _ready.append(1)
        for i, ks in (("a", KEYS), ("b", KEYS[:3])):
            synthetic_config(f"vc23-{i}", {"m": {k: ([4, 4], "float32", [f"old.{k}"], False) for k in ks[:2]}, "ema": {k: ([4, 4], "float32", [], False) for k in ks[2:]}}, register=True)
        synthetic_config("vc23-t", {"m": {k: ([4, 4], "float32", [], False) for k in ("t0", "t1")}}, register=True)
    env = dict(FAIL=FAIL, Boom=Boom)
    d = lambda name, a, r, body: define_method(f"def {name}(a: Parameter(Tensor{a}), *rest: Parameter(Tensor)) -> Return(Tensor{r}):\n    {body}\n", name, env)
    return {
        "default": define_method("def vc23_default(a: Parameter(Tensor), b: Parameter(float) = 2.0, *, k: Parameter(float) = 3.0) -> Return(Tensor):\n    return a * b + k\n", "vc23_default", env),
        "sum": d("vc23_sum", "", "", "return a + sum(rest)"),
        "in a": d("vc23_a", ", 'weight', 'vc23-a'", ", 'weight', 'vc23-a'", "return a * 2 + sum(rest)"),
        "in b": d("vc23_b", ", 'weight', 'vc23-b'", ", 'weight', 'vc23-b'", "return a * 3 + sum(rest)"),
        "fail": define_method("def vc23_fail(a: Parameter(Tensor), **kwargs) -> Return(Tensor):\n    if FAIL[0] is not None and FAIL[0] in kwargs['key']:\n        raise Boom(kwargs['key'])\n    return a\n", "vc23_fail", env),
        "to t": define_method("def vc23_to_t(a: Parameter(StateDict[Tensor], 'weight', 'vc23-b'), **kwargs) -> Return(Tensor, 'weight', 'vc23-t'):\n"
                              "    if FAIL[0] is not None and FAIL[0] in kwargs['key']:\n        raise Boom(kwargs['key'])\n    return a[KEYS[int(kwargs['key'][1])]]\n", "vc23_to_t", dict(env, KEYS=KEYS), is_conversion=True),
    }


def method_of(name):
    return getattr(sd_mecha, name, None) or merge_methods.resolve(name)


BUILTIN2 = ["weighted_sum", "slerp", "tensor_sum", "top_k_tensor_sum", "n_average", "add_perpendicular", "geometric_sum", "train_difference_mask", "rotate", "clamp"]


class Graph:
    """recipes built once from their definitions; used again and again, or fresh"""

    def __init__(self, defs, datas, d, methods):
        self.defs, self.datas, self.d, self.methods, self.memo = defs, datas, d, methods, {}

    def __getitem__(self, i):
        if i not in self.memo:
            self.memo[i] = self.make(*self.defs[i])
        return self.memo[i]

    def make(self, kind, *p):
        if kind == "file":
            return ModelRecipeNode(pathlib.Path(p[0]), model_config=p[1], merge_space=p[2])
        if kind == "dict":
            return LiteralRecipeNode({k: v.clone() for k, v in self.datas[p[0]].items()}, model_config=p[1], merge_space=p[2])
        if kind == "recipes":
            return LiteralRecipeNode({k: self[i] for k, i in p[0].items()})
        if kind == "method":
            return self.methods[p[0]](*(self[i] for i in p[1]))
        if kind == "default":
            return self.methods["default"](self[p[0]], **p[1])
        if kind == "builtin":
            return method_of(p[0])(*(self[i] for i in p[1]), **p[2])
        if kind == "or":
            return self[p[0]] | self[p[1]]
        if kind == "arith":
            return sd_mecha.add_difference(self[p[0]], self[p[1]], self[p[0]], alpha=p[2])
        if kind == "convert":
            return sd_mecha.convert(self[p[0]], p[1], model_dirs=[self.d])
        raise AssertionError(kind)


class Stop:
    """a progress bar which is interrupted"""

    def __init__(self, after):
        self.after = after

    def __call__(self, *a, **k):
        return self
    __enter__ = lambda self: self
    __exit__ = lambda self, *a: None
    set_postfix = lambda self, *a, **k: None

    def update(self, *a):
        self.after -= 1
        if self.after < 0:
            raise KeyboardInterrupt


def outcome(fn):
    """a comparable result"""
    try:
        res = fn()
    except (Exception, KeyboardInterrupt) as e:
        return ("error", type(e).__name__)
    return ("value", {k: (str(v.dtype), tuple(v.shape), raw_bytes(v)) for k, v in res.items()})


def do(graph, i, opts, suffix):
    """merge recipe i of a graph"""
    opts = dict(opts)
    out = opts.pop("to_file", False)
    opts["total_buffer_size"] = opts.get("total_buffer_size", 4096)
    fallback = opts.pop("fallback", None)
    if "stop" in opts:
        opts["tqdm"] = Stop(opts.pop("stop"))
    path = graph.d / f"out{suffix}.safetensors"
    if opts.pop("no directory", False):
        path = graph.d / "missing" / "out.safetensors"
        out = True

    def go():
        node = graph[i]
        if fallback is not None:
            opts["fallback_model"] = graph[fallback]
        res = sd_mecha.merge(node, model_dirs=[graph.d], output=path if out else None, **opts)
        return read_st(path)[1] if out else res
    return outcome(go)


def case_history(seed, threads=0, steps=6):
    r = random.Random(seed)
    methods = setup()
    g = torch.Generator().manual_seed(seed)
    datas = {}

    def data(name, half=False):
        n = r.choice([3, 4, 4])
        ks = KEYS[:n] if r.random() < 0.6 else r.sample(KEYS, r.randrange(2, 5))
        datas[name] = {(f"old.{k}" if k in KEYS[:2] and r.random() < 0.15 else k): torch.randn(4, 4, generator=g, dtype=torch.float64).to(torch.float32 if half else torch.float64) for k in ks}
        if r.random() < 0.2:
            datas[name][f"x{r.randrange(3)}"] = torch.randn(4, 4, generator=g, dtype=torch.float64)
    defs, spaces = [], []
    theme = r.choice([[None], [None, "vc23-a"], [None, None, "vc23-b"], [model_configs.INFER, "vc23-a"], [None, "vc23-a", "vc23-b", model_configs.INFER]])

    def add(space, *d):
        defs.append(d)
        spaces.append(space)
        return len(defs) - 1
    for i in range(r.randrange(2, 5)):
        name = f"m{i}.safetensors" if r.random() < 0.5 else f"dict{i}"
        data(name, r.random() < 0.3)
        cfg = r.choice(theme)
        add("weight", "file" if name.endswith("rs") else "dict", name, cfg, "weight")
    for _ in range(r.randrange(3, 8)):
        x, n = r.random(), len(defs)
        pick = lambda: n - 1 - min(n - 1, int(r.expovariate(0.5)))
        if x < 0.04:
            add("weight", "default", pick(), r.choice([{}, {}, {"b": 5.0}, {"k": 7.0}, {"b": 6.0, "k": 8.0}]))
        elif x < 0.2:
            add("weight", "method", r.choice(["sum", "sum", *(["in a"] if "vc23-b" not in theme else []), *(["in b"] if "vc23-a" not in theme else [])]), [pick() for _ in range(r.randrange(1, 4))])
        elif x < 0.35:
            add("weight", "method", "fail", [pick()])
        elif x < 0.55:
            name = r.choice(BUILTIN2)
            add("weight", "builtin", *BUILD[name](pick, r))
        elif x < 0.65:
            add("weight", "or", pick(), pick())
        elif x < 0.75 and (len(set(theme)) == 1 or r.random() < 0.2):
            add("weight", "recipes", {k: pick() for k in r.sample(KEYS, 3)})
        elif x < 0.9 or "vc23-b" not in theme and r.random() < 0.9:
            add("weight", "arith", pick(), pick(), r.choice([0.5, 1.0, 0.25]))
        else:
            add("weight", "convert", pick(), r.choice(["vc23-t", "vc23-b"]))
    info = dict(seed=seed)
    configs = [model_configs.resolve(f"vc23-{x}") for x in "abt"]
    with scratch() as d:
        counter = itertools.count()
        used_dir = d / "used"
        used_dir.mkdir()
        for n, sd in datas.items():
            if n.endswith("rs"):
                write_st(used_dir / n, sd)
        original = {n: {k: v.clone() for k, v in sd.items()} for n, sd in datas.items()}

        def fresh():
            q = d / f"fresh{next(counter)}"
            q.mkdir()
            for n, sd in datas.items():
                if n.endswith("rs"):
                    write_st(q / n, sd)
            return Graph(defs, datas, q, methods)
        base = dict(threads=threads, merge_dtype=r.choice([None, torch.float64]), output_dtype=r.choice([None, torch.float64]), strict_weight_space=False)
        probes = [(len(defs) - 1 - min(len(defs) - 1, int(r.expovariate(0.6))), dict(base, omit_extra_keys=r.random() < 0.6, omit_ema=r.random() < 0.5)) for _ in range(3)]
        start = [do(fresh(), i, o, "") for i, o in probes]
        before = [config_state(x) for x in configs]
        used = Graph(defs, datas, used_dir, methods)
        for _ in range(r.randrange(1, steps)):
            x = r.random()
            i = r.randrange(len(defs))
            opts = dict(base, omit_extra_keys=r.random() < 0.5, omit_ema=r.random() < 0.5, to_file=r.random() < 0.3, total_buffer_size=r.choice([0, 64, 4096]), **({"threads": r.choice([0, 2])} if r.random() < 0.1 else {}))
            files = [n for n in datas if n.endswith("rs")]
            if x < 0.3:
                do(used, i, opts, "h")
            elif x < 0.4:
                FAIL[0] = r.choice([*KEYS, "h.", "t1"])
                do(used, i, opts, "h")
                FAIL[0] = None
            elif x < 0.5:
                do(used, i, dict(opts, stop=r.randrange(4)), "h")
            elif x < 0.55:
                do(used, i, dict(opts, **{"no directory": True}), "h")
            elif x < 0.6:
                do(used, i, dict(opts, check_mandatory_keys=True), "h")
            elif x < 0.65:
                do(used, i, dict(opts, fallback=r.randrange(len(defs))), "h")
            elif x < 0.75 and files:
                n = r.choice(files)
                (used_dir / n).rename(used_dir / "away")
                do(used, i, opts, "h")
                (used_dir / "away").rename(used_dir / n)
            elif x < 0.9 and files:
                n = r.choice(files)
                datas[n] = {k: torch.randn(v.shape, generator=g, dtype=torch.float64).to(v.dtype) for k, v in datas[n].items()}
                st = os.stat(used_dir / n)
                if r.random() < 0.5:
                    (used_dir / n).unlink()
                write_st(used_dir / n, datas[n])
                if r.random() < 0.5:
                    os.utime(used_dir / n, ns=(st.st_atime_ns, st.st_mtime_ns))
            elif x < 0.95:
                outcome(lambda: {0: sd_mecha.convert(used[i], r.choice(["vc23-t", "vc23-b", "sd1-ldm", used[r.randrange(len(defs))]]), model_dirs=[used_dir])} and {})
            else:
                outcome(lambda: {0: sd_mecha.serialize(used[i])} and {})
        new = fresh()
        for i, o in probes:
            a, b = do(used, i, o, "p"), do(new, i, o, "p")
            check(a[0] == b[0] and (a == b if a[0] == "error" else set(a[1]) == set(b[1])), "outcome of a used recipe", got=a if a[0] == "error" else sorted(a[1]), want=b if b[0] == "error" else sorted(b[1]), defs=defs, probe=i, **info)
            check(a == b, "values of a used recipe", defs=defs, probe=i, **info)
        if any(not same_bits(x, datas[n][k]) for n, sd in original.items() for k, x in sd.items()):
            datas.update(original)
        for (i, o), first in zip(probes, start):
            check(do(fresh(), i, o, "") == first, "a new recipe depends on what was merged before", defs=defs, probe=i, **info)
        check(before == [config_state(x) for x in configs], "a config was altered", **info)
        for i, node in used.memo.items():
            if defs[i][0] == "dict":
                sd = original[defs[i][1]]
                check(list(node.value) == list(sd) and all(same_bits(node.value[k], sd[k]) for k in sd), "an input was altered", defs=defs, **info)
            if defs[i][0] in ("dict", "file"):
                want = defs[i][2]
                check(config_id(node.model_config) == (want if isinstance(want, str) else config_id(want)), "a config was left behind", got=config_id(node.model_config), **info)
            if defs[i][0] == "file":
                check(node.state_dict is None, "an opened input was left behind", **info)


BUILD = {
    "weighted_sum": lambda p, r: ("weighted_sum", [p(), p()], dict(alpha=r.choice([0.0, 0.3, 1.0]))),
    "slerp": lambda p, r: ("slerp", [p(), p()], dict(alpha=0.3)),
    "tensor_sum": lambda p, r: ("tensor_sum", [p(), p()], dict(width=r.choice([0.25, 0.5, 1.0]), offset=r.choice([0.0, 0.75]))),
    "top_k_tensor_sum": lambda p, r: ("top_k_tensor_sum", [p(), p()], dict(width=0.5, offset=r.choice([0.0, 0.75]))),
    "n_average": lambda p, r: ("n_average", [p(), p(), p()], {}),
    "add_perpendicular": lambda p, r: ("add_perpendicular", [p(), p(), p()], dict(alpha=0.5)),
    "geometric_sum": lambda p, r: ("geometric_sum", [p(), p()], dict(alpha=0.5)),
    "train_difference_mask": lambda p, r: ("train_difference_mask", [p(), p(), p()], {}),
    "rotate": lambda p, r: ("rotate", [p(), p()], dict(alignment=r.choice([1.0, 2.0, 0.0]), alpha=r.choice([0.0, 0.5]))),
    "clamp": lambda p, r: ("clamp", [p(), p(), p()], dict(stiffness=r.choice([0.0, 1.0]))),
}


def builtin_calls():
    """every deterministic builtin method on in-memory inputs"""
    w, d = ("weight", "delta")
    return {
        "weighted_sum": ([w, w], dict(alpha=0.3)), "n_average": ([w, w, w], {}), "slerp": ([w, w], dict(alpha=0.3)), "add_difference": ([w, d], dict(alpha=0.5)), "subtract": ([w, w], {}),
        "perpendicular_component": ([d, d], {}), "geometric_sum": ([w, w], dict(alpha=0.4)), "add_cosine_a": ([w, w], dict(alpha=0.4)), "add_cosine_b": ([w, w], dict(alpha=0.4)),
        "tensor_sum": ([w, w], dict(width=0.5, offset=0.25)), "top_k_tensor_sum": ([w, w], dict(width=0.5)), "train_difference_mask": ([w, w, w], {}), "add_opposite_mask": ([w, w, w], {}),
        "select_max_delta": ([d, d], dict(alpha=0.5)), "multiply_quotient": ([w, w, w], {}), "crossover": ([w, w], dict(alpha=0.4, tilt=0.3)),
        "rotate": ([w, w], dict(alignment=1.0, alpha=0.5)), "clamp": ([w, w, w], dict(stiffness=1.0)),
        "ties_sum": ([d, d, d], dict(k=0.5)), "ties_sum_extended": ([d, d, d], dict(k=0.5)), "geometric_median": ([w, w, w], {}), "model_stock": ([d, d, d], {}),
        "ties_sum_with_dropout": ([d, d, d], dict(probability=0.5, seed=3)), "fallback": ([w, w], {}), "cast": ([w], dict(dtype="float64")),
        "dropout": ([w, w, w], dict(probability=0.5, seed=3)), "ties_with_dare": ([w, w, w], dict(probability=0.5, seed=3)), "n_model_stock": ([w, w, w], {}),
        "add_perpendicular": ([w, w, w], dict(alpha=0.5)), "add_difference_ties": ([w, w, w], dict(alpha=0.5)), "add_difference_ties_extended": ([w, w, w], dict(alpha=0.5)), "copy_region": ([w, w], dict(width=0.5)),
        "add_strict_opposite_mask": ([w, w, w], {}), "select_max_white_delta": ([d, d], dict(alpha=0.5)),
    }


def case_builtin(name, seed, cast):
    """a builtin method neither alters its inputs nor remembers them"""
    spaces, kw = builtin_calls()[name]
    if "offset" in kw:
        kw["offset"] = random.Random(seed).choice([0.0, 0.25, 0.75])
    f = method_of(name)
    g = torch.Generator().manual_seed(seed)
    cfg = synthetic_config("vc23-q", {"m": {k: (s, "float64", [], False) for k, s in (("k0", [4, 4]), ("k1", [6, 2]), ("k2", [4]))}})
    shapes = {"k0": (4, 4), "k1": (6, 2), "k2": (4,)}
    sets = [[{k: torch.randn(s, generator=g, dtype=torch.float64) for k, s in shapes.items()} for _ in spaces] for _ in range(2)]
    copy = [[{k: v.clone() for k, v in x.items()} for x in xs] for xs in sets]
    graph = lambda xs: f(*(LiteralRecipeNode(x, model_config=cfg, merge_space=s) for x, s in zip(xs, spaces)), **kw)
    go = lambda node: outcome(lambda: sd_mecha.merge(node, threads=0, total_buffer_size=64, strict_weight_space=False, merge_dtype=cast, merge_device=None, output_dtype=None, output_device=None))
    a = graph(sets[0])
    first, again = go(a), go(a)
    check(first[0] == "value" or name == "select_max_white_delta", "the method fails", method=name, got=first)
    other = go(graph(sets[1]))
    third = go(a)
    new = go(graph(copy[0]))
    check(first == again == third == new, "the result depends on what was merged before", method=name, again=again == first, third=third == first, new=new == first)
    check(other == go(graph(copy[1])), "the result depends on what was merged before", method=name)
    for xs, ys in zip(sets, copy):
        for x, y in zip(xs, ys):
            check(list(x) == list(y) and all(same_bits(x[k], y[k]) for k in x), "an input was altered", method=name)


def case_method(seed):
    """defaults of a merge method after uses with other values, also rejected ones"""
    r = random.Random(seed)
    m = setup()["default"]
    cfg = synthetic_config("vc23-q", {"m": {"k0": ([1], "float64", [], False)}})
    lit = lambda: LiteralRecipeNode({"k0": torch.tensor([10.0], dtype=torch.float64)}, model_config=cfg, merge_space="weight")
    go = lambda n: sd_mecha.merge(n, threads=0, total_buffer_size=64, merge_dtype=torch.float64, output_dtype=torch.float64)["k0"].item()
    node, old = lit(), m(lit())
    for _ in range(6):
        b, k = r.choice([None, 5.0]), r.choice([None, 7.0])
        kw = {n: v for n, v in dict(b=b, k=k).items() if v is not None}
        check(go(m(node, **kw)) == 10.0 * (b or 2.0) + (k or 3.0), "the value of a new recipe", seed=seed, kw=kw)
        x = r.randrange(6)
        use = [lambda: m(node, z=1.0), lambda: m(node, 1.0, b=1.0), lambda: m(node, k="text"), lambda: m(), lambda: m(node, k={"k0": 9.0}, b={"k0": 8.0}), lambda: m(k=4.0, b=4.5, a=node)][x]
        outcome(lambda: use() and {})
        check(go(old) == 23.0, "the value of an old recipe", seed=seed)


def case_config(seed):
    """a config which could not be created at first; a config after it was used"""
    r = random.Random(seed)

    class Lazy(model_configs.LazyModelConfigBase):
        identifier = "vc23-l"
        left = r.randrange(3)

        def create_config(self):
            self.left -= 1
            if self.left >= 0:
                raise Boom("not yet")
            return plain()
    comps = {"m": {"k0": ([1], "float32", ["old"], False), "k1": ([1], "float32", [], False)}, "ema": {"e0": ([1], "float32", [], False)}}
    plain = lambda: synthetic_config("vc23-l", comps)
    cfg = Lazy() if r.random() < 0.6 else plain()
    sd = {"old": torch.ones(1), "k1": torch.ones(1) * 2, "e0": torch.ones(1) * 3, "x": torch.ones(1) * 4}
    go = lambda cfg, **kw: outcome(lambda: sd_mecha.merge(LiteralRecipeNode(sd, model_config=cfg, merge_space="weight"), threads=0, total_buffer_size=64, **kw))
    fails = getattr(cfg, "left", 0)
    for _ in range(5):
        kw = dict(omit_extra_keys=r.random() < 0.5, omit_ema=r.random() < 0.5)
        x = r.randrange(7)
        ask = [lambda g: list(g.keys()), lambda g: list(g.metadata()), lambda g: {k: list(v) for k, v in g.aliases().items()}, lambda g: {n: list(c.keys()) for n, c in g.components().items()}]
        if x < 4:
            try:
                got = ask[x](cfg)
            except Boom:
                fails -= 1
                check(fails >= 0, "a config which can be created fails", seed=seed)
                continue
            check(got == ask[x](plain()), "the answer of a config", got=got, seed=seed)
        else:
            got = go(cfg, **kw)
            if got == ("error", "Boom"):
                fails -= 1
                check(fails >= 0, "a config which can be created fails", seed=seed)
            else:
                check(got == go(plain(), **kw) and got[0] == "value", "the result with a used config", seed=seed, got=sorted(got[1]))


def case_lora(seed):
    """conversions of the same lora, before and after other merges"""
    r = random.Random(seed)
    cfg = model_configs.resolve("sd1-ldm")
    keys = [k for k in cfg.components()["diffuser"].keys() if k.endswith("attn1.to_q.weight")][:2]
    lora = {}
    for k in keys:
        n = "lora_" + k[:-len(".weight")].replace(".", "_")
        lora |= {f"{n}.alpha": torch.tensor(2.0), f"{n}.lora_up.weight": torch.full((4, 2), r.random()), f"{n}.lora_down.weight": torch.full((2, 4), r.random())}
    with scratch() as d:
        p = d / "l.safetensors"
        write_st(p, lora)
        base = lambda: LiteralRecipeNode({k: torch.ones(4, 4) for k in keys}, model_config="sd1-ldm", merge_space="weight")
        go = lambda node, b, **kw: outcome(lambda: sd_mecha.merge(b + sd_mecha.convert(node, "sd1-ldm"), threads=0, total_buffer_size=4096, **kw))
        fresh = lambda: ModelRecipeNode(p)
        want = go(fresh(), base())
        check(want[0] == "value" and len(want[1]) == len(keys), "the lora is not merged", got=want[0])
        node, b = fresh(), base()
        for _ in range(3):
            x = r.randrange(5)
            if x == 0:
                go(node, b, omit_extra_keys=False)
            elif x == 1:
                outcome(lambda: sd_mecha.merge(node, threads=0, total_buffer_size=4096))
            elif x == 2:
                outcome(lambda: sd_mecha.convert(node, "sdxl-sgm") and {})
            elif x == 3:
                go(node, b, tqdm=Stop(1))
            else:
                outcome(lambda: sd_mecha.merge(b, threads=0, total_buffer_size=4096, output=d / "missing" / "x.safetensors"))
            check(go(node, b) == want, "the result of a used recipe", seed=seed)
        write_st(p, {k: v * 2 for k, v in lora.items()})
        got = go(node, b)
        q = d / "other.safetensors"
        write_st(q, {k: v * 2 for k, v in lora.items()})
        check(got == go(ModelRecipeNode(q), base()) and got != want, "a replaced input is not read anew", seed=seed)


def case_defaults(seed):
    """one object with defaults, used again and again"""
    r = random.Random(seed)
    with scratch() as d:
        dirs = [d / "a", d / "b"]
        sd = {k: torch.full((1,), float(i)) for i, k in enumerate(("zz0", "zz1"))}
        for i, p in enumerate(dirs):
            p.mkdir()
            write_st(p / f"m{i}.safetensors", {k: v + 10 * i for k, v in sd.items()})
        defaults = sd_mecha.Defaults(model_dirs=iter(dirs) if r.random() < 0.5 else dirs, threads=0, total_buffer_size=64, output_dtype=torch.float32)
        nodes = [ModelRecipeNode(pathlib.Path(f"m{i}.safetensors")) for i in range(2)]
        go = lambda i, **kw: outcome(lambda: defaults.merge(nodes[i], **kw))
        want = [go(0), go(1)]
        check(all(w[0] == "value" for w in want), "the models are not found", got=[w[0] for w in want])
        for _ in range(5):
            i = r.randrange(2)
            go(i, **r.choice([dict(output_dtype=torch.float64), dict(model_dirs=[d]), dict(output=d / "missing" / "x.safetensors"), dict(tqdm=Stop(0)), dict(threads=-1), dict(omit_extra_keys=False)]))
            outcome(lambda: defaults.convert(nodes[i], "sd1-ldm") and {})
            check([go(0), go(1)] == want, "defaults depend on their history", seed=seed)


def case_structural(seed):
    """models that no registered config describes, merged one after the other"""
    r = random.Random(seed)
    names = ["w.a", "w.b", "w.c", "x", "y.0"]
    with scratch() as d:
        made = []
        for i in range(3):
            sd = {k: torch.full(r.choice([(2,), (3,), (2, 2)]), float(10 * i + j)) for j, k in enumerate(names) if r.random() < 0.6} or {"x": torch.ones(2)}
            if r.random() < 0.5:
                write_st(d / f"m{i}.safetensors", sd)
                made.append((ModelRecipeNode(pathlib.Path(f"m{i}.safetensors")), sd))
            else:
                made.append((LiteralRecipeNode(dict(sd), merge_space="weight"), sd))
        for _ in range(5):
            node, sd = r.choice(made)
            x = r.randrange(4)
            opts = dict(threads=0, total_buffer_size=4096, model_dirs=[d], check_mandatory_keys=r.random() < 0.6, omit_extra_keys=r.random() < 0.6, output_dtype=None, merge_dtype=None)
            if x == 0:
                other, od = r.choice(made)
                outcome(lambda: sd_mecha.merge(sd_mecha.weighted_sum(node, other, alpha=0.5), **opts))
            elif x == 1:
                outcome(lambda: sd_mecha.merge(node, tqdm=Stop(0), **opts))
            bar = Stop(99)
            got = outcome(lambda: sd_mecha.merge(node, tqdm=bar, **opts))
            want = outcome(lambda: sd)
            check(got[0] == "error" or bar.after == 99 - len(sd), "keys of another model are merged", merged=99 - bar.after, expected=sorted(sd), seed=seed)
            check(got == want, "a model is not merged to itself", got=got[1] if got[0] == "error" else sorted(got[1]), expected=sorted(sd), seed=seed)


def case_caches(how, same_method):
    """a cache belongs to the nodes it was given to; it keeps what a method stores from merge to merge, and is not shared otherwise"""
    env = dict()
    body = lambda n: (f"def {n}(a: Parameter(Tensor), by: Parameter(float), **kwargs) -> Return(Tensor):\n"
                      "    cache, key = kwargs['cache'], kwargs['key']\n    if cache is None:\n        return a * by\n    if key not in cache:\n        cache[key] = by\n    return a * cache[key]\n")
    m1 = define_method(body("vc23_cached"), "vc23_cached", env)
    m2 = m1 if same_method else define_method(body("vc23_cached2"), "vc23_cached2", env)
    cfg = synthetic_config("vc23-q2", {"m": {k: ([1], "float64", [], False) for k in ("k0", "k1")}})
    lit = LiteralRecipeNode({k: torch.tensor([1.0 + i], dtype=torch.float64) for i, k in enumerate(("k0", "k1"))}, model_config=cfg, merge_space="weight")
    a, b = m1(lit, 2.0), m2(lit, 3.0)
    if how == "given":
        a.set_cache({}), b.set_cache({})
    elif how == "created":
        a.set_cache(), b.set_cache()
    elif how == "shared":
        shared = {}
        a.set_cache(shared), b.set_cache(shared)
    elif how == "one":
        a.set_cache({})
    elif how == "removed":
        a.set_cache({}).set_cache(None)
    go = lambda x: {k: v.item() for k, v in sd_mecha.merge(x, threads=0, total_buffer_size=64, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False).items()}
    check(go(a) == {"k0": 2.0, "k1": 4.0}, "the value of a node", how=how)
    fb = 2.0 if how == "shared" else 3.0
    check(go(b) == {"k0": fb, "k1": 2 * fb}, "the value of a node depends on the cache of another", how=how)
    check(go(a) == {"k0": 2.0, "k1": 4.0}, "the value of a node", how=how)
    check(go(sd_mecha.subtract(b, a)) == {"k0": fb - 2, "k1": 2 * fb - 4}, "the values of nodes in a recipe", how=how)
    if how in ("given", "created"):
        check(set(a.cache) == set(b.cache) == {"k0", "k1"} and a.cache is not b.cache, "what the methods store is in the caches of their nodes", how=how)


def case_keywords(size, difference):
    """a method of keywords only is computed anew for each input"""
    m = define_method("def vc23_kw(*, a: Parameter(Tensor), s: Parameter(float) = 1.0) -> Return(Tensor):\n    return a * s\n", "vc23_kw")
    x = torch.linspace(1, 2, size, dtype=torch.float64)
    y = x.clone()
    y[size // 2] += difference
    cfg = synthetic_config(f"vc23-w{size}", {"m": {"k0": ([size], "float64", [], False), "k1": ([size], "float64", [], False)}})
    lit = lambda u, v: LiteralRecipeNode({"k0": u, "k1": v}, model_config=cfg, merge_space="weight")
    for u, v in ((x, y), (y, x), (x, x)):
        for s in (1.0, 1.0 + 1e-9):
            out = sd_mecha.merge(m(a=lit(u, v), s=s), threads=0, total_buffer_size=64, merge_dtype=torch.float64, output_dtype=torch.float64)
            check(torch.equal(out["k0"], u * s) and torch.equal(out["k1"], v * s), "the result is that of other inputs", size=size, difference=difference)


_conv = [0]


def case_converters(seed):
    """a conversion that is registered after others were used is used from then on"""
    r = random.Random(seed)
    _conv[0] += 1
    names = [f"vc23-v{os.getpid()}n{_conv[0]}{x}" for x in "abcd"]
    for x in names:
        synthetic_config(x, {"m": {f"{x}.k": ([1], "float64", [], False)}}, register=True)

    def converter(i, j):
        n = f"{names[i]}_{names[j]}".replace("-", "_")
        return define_method(f"def {n}(a: Parameter(StateDict[Tensor], model_config={names[i]!r}), **kwargs) -> Return(Tensor, model_config={names[j]!r}):\n    return a[{names[i] + '.k'!r}] + {10 * i + j}\n", n, register=True, is_conversion=True)

    def convert(i, j):
        lit = LiteralRecipeNode({f"{names[i]}.k": torch.zeros(1, dtype=torch.float64)}, model_config=names[i], merge_space="weight")
        try:
            return sd_mecha.merge(sd_mecha.convert(lit, names[j]), threads=0, total_buffer_size=64, merge_dtype=torch.float64, output_dtype=torch.float64)[f"{names[j]}.k"].item()
        except ValueError:
            return None
    pairs = [(0, 1), (1, 2), (0, 2), (2, 3), (0, 3)] if r.random() < 0.5 else r.sample([(i, j) for i in range(4) for j in range(4) if i != j], 5)
    known = []
    for step in [None, *pairs]:
        if step is not None:
            converter(*step)
            known.append(step)
        for j in range(1, 4):
            level, want = {0: {0}}, None        # the values that chains of the same length lead to, by config
            for _ in range(5):
                if j in level:
                    want = level[j]
                    break
                longer = {}
                for s, t in known:
                    longer.setdefault(t, set()).update(v + 10 * s + t for v in level.get(s, ()))
                level = {t: vs for t, vs in longer.items() if vs}
            got = convert(0, j)
            check(got is None if want is None else got in want, "a conversion does not follow the conversions that are registered", conversions=known, target=j, got=got, expected=sorted(want) if want else None)


def case_literals(seed):
    """literals get back the config they had"""
    r = random.Random(seed)
    cfg = synthetic_config("vc23-q3", {"m": {k: ([1], "float64", [], False) for k in ("k0", "k1", "k2")}})
    lit = lambda by: LiteralRecipeNode({k: torch.tensor([by + i], dtype=torch.float64) for i, k in enumerate(("k0", "k1", "k2"))}, model_config=cfg, merge_space="weight")
    spaces = {s: LiteralRecipeNode({k: r.random() for k in r.sample(("k0", "k1", "k2"), 2)} if r.random() < 0.7 else {"zz": 1.0}, merge_space=s, model_config=r.choice([None, None, cfg])) for s in ("param", "weight", "delta")}
    alpha = spaces["param"]
    nodes = [alpha, lit(1.0), lit(20.0)]
    before = [x.model_config for x in nodes]
    for _ in range(2):
        for recipe in (sd_mecha.weighted_sum(nodes[1], nodes[2], alpha=alpha), alpha, sd_mecha.weighted_sum(nodes[1], nodes[2], alpha=alpha | 0.5), spaces["weight"], spaces["delta"]):
            had = spaces["weight"].model_config, spaces["delta"].model_config
            outcome(lambda: sd_mecha.merge(recipe, threads=0, total_buffer_size=64, strict_weight_space=False))
            check(all(x.model_config is y for x, y in zip(nodes, before)), "a config was left behind", got=[config_id(x.model_config) for x in nodes], had=[config_id(x) for x in before])
            check(had[0] is spaces["weight"].model_config and had[1] is spaces["delta"].model_config, "a config was left behind")


CASES = {f.__name__[5:]: f for f in (case_literals, case_converters, case_keywords, case_caches, case_structural, case_history, case_builtin, case_method, case_config, case_lora, case_defaults)}


def suite(S):
    r = S.rng
    names = list(builtin_calls())
    for n in names:
        S.run("builtin", name=n, seed=r.randrange(10**6), cast=None)
    for how in ("given", "created", "shared", "one", "removed", "none"):
        for same in (True, False):
            S.run("caches", how=how, same_method=same)
    for size in (3, 2000):
        for difference in (1.0, 1e-6):
            S.run("keywords", size=size, difference=difference)
    for o in range(6):
        S.run("converters", seed=r.randrange(10**6))
        S.run("literals", seed=r.randrange(10**6))
        S.run("builtin", name="tensor_sum", seed=r.randrange(10**6), cast=None)
        S.run("method", seed=r.randrange(10**6))
        S.run("config", seed=r.randrange(10**6))
        S.run("structural", seed=r.randrange(10**6))
    S.run("lora", seed=r.randrange(10**9))
    S.run("defaults", seed=r.randrange(10**9))
    n = 0
    while S.more():
        S.run("history", seed=r.randrange(10**9), threads=0 if r.random() < 0.9 else 2)
        n += 1
        S.run("structural", seed=r.randrange(10**6))
        S.run("config", seed=r.randrange(10**6))
        if n % 20 == 0:
            S.run("lora", seed=r.randrange(10**9))
            S.run("defaults", seed=r.randrange(10**9))
            S.run("builtin", name=r.choice(names), seed=r.randrange(10**6), cast=None)
