"""C12 A merge outputs exactly the documented set of keys"""
import itertools
from collections import OrderedDict
from vc.report import Proof
from .common import *
from .c06 import Stub
from .c09 import Child, Boom, RefMissing
from sd_mecha.streaming import TensorMetadata

ID = "C12"
LEVEL = "proof"
TRUSTED = [
    "dictionaries of Python keep one entry per key; OrderedDict(pairs) and | keep the value of the last pair of a key",
    "recipes follow the contract of accept (property C09): a value, a missing key or another error for every key; the fallback method follows property C24",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py; z3, cvc5",
]
ASSUMPTIONS = ["keys are arbitrary texts in the contracts of copy_extra_keys; the number of keys and models is bounded there"]
PROOF_BUDGET = 70
SUITE_BUDGET = 8


# ----------------------------------------------------------------- contracts
class Config:
    def __init__(self, identifier, components=None, aliases=None):
        self.identifier = identifier
        self.comps = components or {}
        self.al = aliases or {}

    def components(self):
        return {n: Component(k) for n, k in self.comps.items()}

    def keys(self):
        return OrderedDict((k, KEYMETA) for ks in self.comps.values() for k in ks)

    def metadata(self):
        self.handed = OrderedDict((k, CONFIGMETA) for ks in self.comps.values() for k in ks)
        return self.handed

    def aliases(self):
        return OrderedDict((k, list(v)) for k, v in self.al.items())


class Component:
    def __init__(self, ks):
        self.ks = ks

    def keys(self):
        return OrderedDict((k, KEYMETA) for k in self.ks)

    def metadata(self):
        return OrderedDict((k, CONFIGMETA) for k in self.ks)

    def aliases(self):
        return OrderedDict((k, []) for k in self.ks)


KEYMETA = model_configs.KeyMetadata(torch.Size([1]), torch.float32)
CONFIGMETA = TensorMetadata(torch.Size([1]), torch.float32)


def outcomes_missing_or_value(c, name, config):
    return Child(c, name, lambda key: torch.ones(1), (None, merging.StateDictKeyError), config=config)


def h_visit(c):
    """which leaves are forwarded: those of the same config and merge space, once"""
    target = Config("vc12-t")
    v = merging.ForwardableNodesVisitor(target, merge_spaces.resolve("weight"))
    kind = c.choose(["model", "tensors", "numbers", "recipes", "empty", "value", "merge"], "node")
    same = bool(c.choice(2, "same config"))
    cfg = c.choose([target, Config("vc12-t")], "object") if same else Config("vc12-o")
    space = c.choose(["weight", "delta"], "space")
    metas = [(SV(c, "key0"), CONFIGMETA), (SV(c, "key1"), CONFIGMETA)]
    first = torch.zeros(1)

    class SD(dict):
        metadata = lambda self: iter(metas)
    visited = []

    class Sub(Stub):
        def accept(self, visitor):
            visited.append((self, visitor))

        def __contains__(self, item):
            return False
    subs = [Sub(merge_spaces.resolve(space), cfg) for _ in range(3)]
    if kind == "model":
        node = ModelRecipeNode(pathlib.Path("/vc12/a"), model_config=cfg, merge_space=space)
        node.state_dict = SD()
        twin = ModelRecipeNode(pathlib.Path("/vc12/a"), model_config=cfg, merge_space=space)
        twin.state_dict = node.state_dict
    elif kind == "merge":
        m = define_method("def vc12_any(*a: Parameter(Tensor), k: Parameter(Tensor)) -> Return(Tensor):\n    return 0\n", "vc12_any", register=False)
        node = MergeRecipeNode(m, tuple(subs[:2]), {"k": subs[2]})
    else:
        value = dict(tensors={"a": first, "b": first}, numbers={"a": 1.0}, recipes={"a": subs[0], "b": subs[1]}, empty={}, value=1.5)[kind]
        node = LiteralRecipeNode(value, model_config=cfg, merge_space=space)
        twin = LiteralRecipeNode(value, model_config=cfg, merge_space=space)
    node.accept(v)
    if kind in ("model", "tensors"):
        fits = same and space == "weight"
        c.prove("exactly the leaves of the same config and merge space are forwarded", len(v.forwardable_nodes) == int(fits))
        if fits:
            n, meta = v.forwardable_nodes[0]
            c.prove("with their own keys", n is node and (list(meta) == ["a", "b"] if kind == "tensors" else len(meta) in (1, 2)))
        twin.accept(v)
        c.prove("the same leaf is not forwarded twice", len(v.forwardable_nodes) == int(fits))
        if kind == "model":
            other = ModelRecipeNode(pathlib.Path("/vc12/b"), model_config=cfg, merge_space=space)
            other.state_dict = SD()
            other.accept(v)
            c.prove("another model is forwarded as well", len(v.forwardable_nodes) == 2 * int(fits))
    else:
        c.prove("nothing else is forwarded", v.forwardable_nodes == [])
        want = subs[:2] if kind == "recipes" else subs if kind == "merge" else []
        c.prove("every recipe below is visited, in order", [id(a) for a, _ in visited] == [id(x) for x in want] and all(b is v for _, b in visited))


def SV(c, name):
    from vc.values import SVal
    return SVal(name, pytype=str)


def h_copy(n_nodes, n_keys):
    def h(c):
        """arbitrary keys: which of them are equal is decided by the solver"""
        k = [SV(c, f"config key {i}") for i in range(2)]
        c.assume(k[0].e != k[1].e)
        alias = SV(c, "alias")
        for x in k:
            c.assume(alias.e != x.e)
        cfg = Config("vc12-t", {"m": k}, {k[0]: [alias], k[1]: []})
        recipe = outcomes_missing_or_value(c, "recipe", cfg)
        nodes, metas = [], []
        for i in range(n_nodes):
            ks = [SV(c, f"key {i}.{j}") for j in range(n_keys)]
            for a in range(len(ks)):
                for b in range(a):
                    c.assume(ks[a].e != ks[b].e)
            nodes.append(outcomes_missing_or_value(c, f"leaf {i}", cfg))
            metas.append(OrderedDict((x, TensorMetadata(torch.Size([7 + i]), torch.float16)) for x in ks))
        plain = [list(m) for m in metas]

        def accept(visitor):
            if isinstance(visitor, merging.ForwardableNodesVisitor):
                visitor.forwardable_nodes.extend(zip(nodes, metas))
                c.prove("leaves are compared with the config and space of the recipe", visitor.target_config is cfg and visitor.target_merge_space == recipe.merge_space)
                return
            return Child.accept(recipe, visitor)
        recipe.accept = accept
        new, meta = merging.copy_extra_keys(recipe)
        keys = list(meta)
        same = lambda a, b: bool(a == b)
        canonical = lambda x: k[0] if same(x, alias) else x
        for x in k:
            hit = [y for y in keys if same(x, y)]
            c.prove("every key of the config is there once", len(hit) == 1)
            c.prove("with what the config declares for it", meta[hit[0]] is CONFIGMETA or meta[hit[0]] == CONFIGMETA)
        for m in plain:
            for x in m:
                y = canonical(x)
                c.prove("every key of a forwarded leaf is there once, under its name in the config", len([z for z in keys if same(y, z)]) == 1)
        for y in keys:
            c.prove("no other key", any(same(y, x) for x in k) or any(same(y, canonical(x)) for m in plain for x in m))
        c.prove("the metadata of the config and of the inputs is not altered", len(cfg.handed) == 2 and all(len(m) == n_keys for m in metas))
        # the value: the recipe's own, else that of the first leaf that has it
        probe = SV(c, "probe")
        err = got = None
        try:
            got = new.accept(merging.KeyMergeVisitor(probe))
        except Exception as e:
            err = e
        ask = [recipe, *nodes]
        want = None
        for n in ask:
            o = next(iter(n.outcomes.values()), None)
            if not isinstance(o, type) and o is not None:
                want = o
                break
        c.prove("the value is the recipe's own, or else that of the first leaf which has it", (got is want) if want is not None else isinstance(err, merging.StateDictKeyError))
        if want is None:
            c.prove("a key is missing only when no leaf has it", all(len(n.outcomes) == 1 for n in ask))
    return h


def h_ema(c):
    """which keys are computed: those of the config, minus its ema keys"""
    e, m = ["e0", "e1"], ["k0", "k1", "k2"]
    has_ema = bool(c.choice(2, "has ema"))
    comps = {"a": m[:2], **({"ema": e} if has_ema else {}), "b": m[2:]}
    order = list(comps)
    cfg = synthetic_config("vc12-m", {n: {k: ([1], "float32", [], False) for k in comps[n]} for n in order})
    before = (list(cfg.keys()), list(cfg.metadata()), {n: list(x.keys()) for n, x in cfg.components().items()}, list(cfg.aliases()))
    recipe = Child(c, "recipe", lambda key: torch.full((1,), float(ord(key[0]) * 10 + int(key[1]))), (None, merging.StateDictKeyError), config=cfg)
    extra, ema = c.choose([True, False, ...], "omit extra keys"), c.choose([True, False, ...], "omit ema")
    got = sd_mecha.merge(recipe, threads=0, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None,
                         **({} if extra is ... else dict(omit_extra_keys=extra)), **({} if ema is ... else dict(omit_ema=ema)))
    omit = (True if extra is ... else extra) if ema is ... else ema
    want = {k for k in (*m, *(e if has_ema and not omit else ())) if k in recipe.outcomes and not isinstance(recipe.outcomes[k], type)}
    c.prove("every key of the config is asked for, except omitted ema keys", set(recipe.outcomes) == set((*m, *(e if has_ema and not omit else ()))))
    c.prove("the output has exactly the keys that can be computed", set(got) == want)
    c.prove("each with its own value", all(torch.equal(got[k], recipe.outcomes[k]) for k in want))
    c.prove("the config is not altered", before == (list(cfg.keys()), list(cfg.metadata()), {n: list(x.keys()) for n, x in cfg.components().items()}, list(cfg.aliases())))


NAMES = ["k0", "old0", "e0", "x0", "x1"]   # config key, its alias, an ema key, extra keys


def m_sum():
    return define_method("def vc12_sum(*a: Parameter(Tensor)) -> Return(Tensor):\n    return sum(a)\n", "vc12_sum")


def m_kw():
    return define_method("def vc12_kw(a: Parameter(Tensor), *rest: Parameter(Tensor), k: Parameter(Tensor)) -> Return(Tensor):\n    return 10 * a + sum(rest, k)\n", "vc12_kw")


def m_join():
    return define_method("def vc12_join(a: Parameter(Tensor, 'weight'), d: Parameter(Tensor, 'delta')) -> Return(Tensor, 'weight'):\n    return a + 100 * d\n", "vc12_join")


def config12(ident="vc12-e"):
    return synthetic_config(ident, {"m": {"k0": ([1], "float32", ["old0"], False), "k1": ([1], "float32", [], False)}, "ema": {"e0": ([1], "float32", [], False)}})


def run_merge(node, **kw):
    return sd_mecha.merge(node, threads=0, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, total_buffer_size=256, **kw)


def h_extra(c):
    """whole merges of two models over every combination of present keys"""
    cfg = config12()
    sds = [{n: torch.tensor([float(10 ** i * (1 + j))]) for j, n in enumerate(NAMES) if not (n == "x1" and i == 0 or n in ("e0", "k0") and i == 1) and c.choice(2, f"model {i} has {n}")} for i in range(2)]
    for i in range(2):
        sds[i].setdefault("k1", torch.tensor([9.0]))
    leaves = [LiteralRecipeNode(s, model_config=cfg, merge_space="weight") for s in sds]
    keep = [list(s) for s in sds]
    both = bool(c.choice(2, "both in one method"))
    node = m_sum()(*leaves) if both else m_kw()(leaves[0], k=leaves[1])
    ema = c.choice(2, "omit ema") == 1
    got = run_merge(node, omit_extra_keys=False, omit_ema=ema)
    want = expected(("sum" if both else "kw", [("leaf", sds[0], "weight"), ("leaf", sds[1], "weight")]), cfg, False, ema)
    c.prove("the keys of the output are the documented ones", set(got) == set(want))
    c.prove("each has the value of the recipe, or of the first model", all(torch.equal(got[k], want[k]) for k in want))
    c.prove("the inputs are not altered", keep == [list(s) for s in sds])


def proofs():
    yield Proof("which leaves are forwarded", h_visit)
    for a, b in ((0, 0), (1, 1), (1, 2), (2, 1)):
        yield Proof(f"forwarding the keys of {a} leaves with {b} keys", h_copy(a, b), kind="bounded", bound="up to 2 leaves and 2 keys, arbitrary texts", max_paths=40000)
    yield Proof("keys of the config", h_ema, kind="bounded", bound="5 keys in 3 components", max_paths=40000)
    yield Proof("extra keys of two models", h_extra, kind="bounded", bound="2 models over 5 names, 7 of them optional", max_paths=40000)
    yield Proof("forwarding the keys of 2 leaves with 2 keys", h_copy(2, 2), kind="bounded", bound="up to 2 leaves and 2 keys, arbitrary texts", max_paths=400000, thorough_only=True)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
def value(node, key, aliases):
    kind = node[0]
    if kind == "leaf":
        for n in (key, *aliases.get(key, ())):
            if n in node[1]:
                return node[1][n].double()
        raise RefMissing(key)
    if kind == "dict":
        for n in (key, *aliases.get(key, ())):
            if n in node[1]:
                return value(node[1][n], key, aliases)
        raise RefMissing(key)
    if kind == "fallback":
        try:
            return value(node[1][0], key, aliases)
        except RefMissing:
            return value(node[1][1], key, aliases)
    v = [value(n, key, aliases) for n in node[1]]
    return {"sum": lambda: sum(v), "kw": lambda: 10 * v[0] + sum(v[1:]), "join": lambda: v[0] + 100 * v[1]}[kind]()


def leaves_of(node, space):
    """input models in the order of the recipe"""
    if node[0] == "leaf":
        return [node] if node[2] == space else []
    kids = node[1].values() if node[0] == "dict" else node[1]
    return [x for n in kids for x in leaves_of(n, space)]


def expected(spec, cfg, omit_extra, omit_ema):
    aliases = {k: list(v) for k, v in cfg.aliases().items()}
    back = {a: k for k, v in aliases.items() for a in v}
    ema = set(cfg.components()["ema"].keys()) if "ema" in cfg.components() else set()
    keys = list(cfg.keys())
    models = leaves_of(spec, "weight") if not omit_extra else []
    keys += [back.get(k, k) for m in models for k in m[1]]
    res = {}
    for k in dict.fromkeys(keys):
        if omit_ema and k in ema:
            continue
        for source in (spec, *models):
            try:
                res[k] = value(source, k, aliases)
                break
            except RefMissing:
                pass
    return res


def case_random(seed, threads=0):
    r = random.Random(seed)
    n_keys, n_ema = r.randrange(1, 5), r.choice([0, 0, 1, 3])
    al = {f"k{i}": [f"old{i}_{j}" for j in range(r.choice([0, 0, 1, 2]))] for i in range(n_keys)}
    em = {f"e{i}": [f"olde{i}"] if r.random() < 0.3 else [] for i in range(n_ema)}
    comps = {"m": {k: ([1], "float64", a, r.random() < 0.3) for k, a in al.items()}}
    if n_ema:
        comps["ema"] = {k: ([1], "float64", a, False) for k, a in em.items()}
    if r.random() < 0.3:
        comps = dict(reversed(list(comps.items())))
    to_file = r.random() < 0.4
    if not to_file:     # some keys of any shape
        comps = {c: {k: (v if r.random() < 0.7 else (None, *v[1:])) for k, v in ks.items()} for c, ks in comps.items()}
    cfg = synthetic_config(f"vc12r-c{seed}", comps)
    names = [n for k, a in (al | em).items() for n in (k, *a)] + [f"x{i}" for i in range(3)] + ["ema.x", "k"]
    count = iter(range(1, 1000))
    with scratch() as d:
        dicts = []

        def leaf(space):
            i = next(count)
            sd = {n: torch.tensor([float(1 + i * 16 + r.randrange(16))], dtype=torch.float64) for n in r.sample(names, r.randrange(1, len(names) + 1))}
            dicts.append((sd, list(sd), {k: v.clone() for k, v in sd.items()}))
            if r.random() < 0.5:
                p = d / f"{i}.safetensors"
                write_st(p, sd, metadata={"a": "b"} if r.random() < 0.3 else None)
                # the order of a file is the order of its header
                return ("leaf", sd, space), ModelRecipeNode(p, model_config=cfg, merge_space=space)
            return ("leaf", sd, space), LiteralRecipeNode(sd, model_config=cfg, merge_space=space)
        pool = [leaf("weight") for _ in range(r.randrange(1, 4))]
        deltas = [leaf("delta") for _ in range(r.randrange(0, 2))]
        for _ in range(r.randrange(0, 4)):
            x = r.random()
            pick = lambda: r.choice(pool)
            if x < 0.35:
                ps = [pick() for _ in range(r.randrange(1, 4))]
                pool.append((("sum", [p[0] for p in ps]), m_sum()(*(p[1] for p in ps))))
            elif x < 0.55:
                ps = [pick() for _ in range(r.randrange(2, 4))]
                pool.append((("kw", [p[0] for p in ps]), m_kw()(*(p[1] for p in ps[:-1]), k=ps[-1][1])))
            elif x < 0.7:
                a, b = pick(), pick()
                pool.append((("fallback", [a[0], b[0]]), a[1] | b[1]))
            elif x < 0.85 and deltas:
                a, b = pick(), r.choice(deltas)
                pool.append((("join", [a[0], b[0]]), m_join()(a[1], b[1])))
            else:
                ks = [n for n in (*al, *em, "x0") if r.random() < 0.6]
                ps = {k: pick() for k in ks}
                if ps:
                    pool.append((("dict", {k: p[0] for k, p in ps.items()}), LiteralRecipeNode({k: p[1] for k, p in ps.items()}, model_config=cfg, merge_space="weight")))
        spec, node = pool[-1]
        omit = r.choice([True, False, False])
        ema = r.choice([True, False, None])
        before = (list(cfg.keys()), list(cfg.metadata()), {n: list(x.keys()) for n, x in cfg.components().items()}, {k: list(v) for k, v in cfg.aliases().items()})
        want = expected(spec, cfg, omit, omit if ema is None else ema)
        opts = dict(omit_extra_keys=omit, **({} if ema is None else dict(omit_ema=ema)))
        got = sd_mecha.merge(node, threads=threads, total_buffer_size=r.choice([0, 64, 4096]), merge_dtype=torch.float64, output_dtype=torch.float64, output=d / "o.safetensors" if to_file else None, **opts)
        if to_file:
            got = read_st(d / "o.safetensors")[1]
        info = dict(seed=seed, **opts)
        check(set(got) == set(want), "keys of the output", extra=sorted(set(got) - set(want)), missing=sorted(set(want) - set(got)), **info)
        for k in want:
            check(got[k].double().item() == want[k].item(), "value of a key", key=k, got=got[k].item(), want=want[k].item(), **info)
        check(before == (list(cfg.keys()), list(cfg.metadata()), {n: list(x.keys()) for n, x in cfg.components().items()}, {k: list(v) for k, v in cfg.aliases().items()}), "the config was altered", **info)
        for sd, ks, vs in dicts:
            check(list(sd) == ks and all(torch.equal(sd[k], vs[k]) for k in ks), "an input was altered", **info)


def case_structural(seed):
    """without a config: the keys common to all inputs, and the extra keys of each"""
    r = random.Random(seed)
    names = [f"zz{i}_{seed}" for i in range(5)]
    count = iter(range(1, 100))
    with scratch() as d:
        specs, nodes = [], []
        for i in range(r.randrange(1, 4)):
            sd = {n: torch.tensor([float(next(count))], dtype=torch.float64) for n in names if r.random() < 0.7}
            sd[names[0]] = torch.tensor([float(next(count))], dtype=torch.float64)
            if r.random() < 0.25:   # numbers have no shape, and are no input model
                specs.append(("leaf", sd, "numbers"))
                nodes.append(LiteralRecipeNode({n: t.item() for n, t in sd.items()}, merge_space="weight"))
                continue
            specs.append(("leaf", sd, "weight"))
            if r.random() < 0.5:
                write_st(d / f"{i}.safetensors", sd)
                nodes.append(ModelRecipeNode(d / f"{i}.safetensors"))
            else:
                nodes.append(LiteralRecipeNode(sd, merge_space="weight"))
        omit = r.random() < 0.5
        got = run_merge(m_sum()(*nodes), omit_extra_keys=omit)
        common = [n for n in names if all(n in s[1] for s in specs)]
        want = {n: sum(s[1][n] for s in specs) for n in common}
        if not omit:
            for s in specs:
                for n, t in s[1].items() if s[2] == "weight" else ():
                    want.setdefault(n, t)
        check(set(got) == set(want), "keys of the output", got=sorted(got), want=sorted(want), omit=omit)
        for k in want:
            check(got[k].item() == want[k].item(), "value of a key", key=k)


def case_builtin(omit_ema):
    """the ema keys of a builtin config"""
    cfg = model_configs.resolve("sd1-ldm")
    ema = list(cfg.components()["ema"].keys())
    unet = list(cfg.components()["unet"].keys()) if "unet" in cfg.components() else [k for k in cfg.keys() if k not in ema]
    n = (len(cfg.keys()), len(cfg.metadata()), len(ema))
    sd = {k: torch.ones(1) for k in [*ema[:5], *unet[:5]]} | {"alien": torch.ones(1)}
    node = LiteralRecipeNode(sd, model_config=cfg, merge_space="weight")
    for omit in (True, False):
        got = run_merge(node, omit_extra_keys=omit, **({} if omit_ema is None else dict(omit_ema=omit_ema)))
        no_ema = omit if omit_ema is None else omit_ema
        want = {*unet[:5], *(() if no_ema else ema[:5]), *(() if omit else ("alien",))}
        check(set(got) == want, "keys", got=sorted(got), want=sorted(want))
    check(n == (len(cfg.keys()), len(cfg.metadata()), len(cfg.components()["ema"].keys())), "the config was altered")


def case_shapes(form, omit, threads=0):
    """tensors of every shape are output: scalars, empty ones, ones of many dimensions"""
    shapes = {"scalar": [], "empty": [0], "empty2": [3, 0], "one": [1], "ones": [1, 1, 1, 1], "row": [1, 5], "cube": [2, 3, 4]}
    cfg = synthetic_config("vc12s-x", {"m": {k: (v, "float64", [], False) for k, v in shapes.items()}})
    sd = {k: torch.full(v, 1.5, dtype=torch.float64) for k, v in (shapes | {"xscalar": [], "xempty": [0], "xrow": [2]}).items()}
    with scratch() as d:
        if form == "file":
            write_st(d / "a.safetensors", sd)
        node = ModelRecipeNode(d / "a.safetensors", model_config=cfg) if form == "file" else LiteralRecipeNode(sd, model_config=cfg, merge_space="weight")
        for n in (node, m_sum()(node), m_sum()(node, node)):
            for to in (None, d / "o.safetensors"):
                got = sd_mecha.merge(n, threads=threads, merge_dtype=torch.float64, output_dtype=torch.float64, omit_extra_keys=omit, total_buffer_size=64, output=to)
                got = read_st(to)[1] if to else got
                want = set(shapes) if omit else set(sd)
                check(set(got) == want, "keys of the output", missing=sorted(want - set(got)), extra=sorted(set(got) - want))
                check(all(got[k].shape == sd[k].shape for k in want), "shapes of the output")


class OwnError(Exception):
    pass


def case_failing(error, key, threads):
    """only a missing key is left out: any other error of a method fails the merge"""
    cfg = synthetic_config("vc12f-x", {"m": {f"k{i}": ([1], "float64", [], i == 2) for i in range(4)}})
    e = {"key": KeyError("k1"), "index": IndexError("k1"), "value": ValueError("k1"), "stop": StopIteration("k1"), "own": OwnError("k1"), "attribute": AttributeError("k1"), "os": OSError("k1"), "memory": MemoryError("k1"), "not": NotImplementedError("k1")}[error]

    def fail(k, a):
        if k == key:
            raise e
        return a
    m = define_method("def vc12_fail(a: Parameter(Tensor), **kwargs) -> Return(Tensor, 'weight'):\n    return FAIL(kwargs['key'], a)\n", "vc12_fail", dict(FAIL=fail), fresh=True)
    sd = {k: torch.ones(1, dtype=torch.float64) for k in ("k0", "k1", "k3", "x")}
    node = m(LiteralRecipeNode(sd, model_config=cfg, merge_space="weight"))
    for omit in (True, False):
        try:
            got = sd_mecha.merge(node, threads=threads, omit_extra_keys=omit)
        except Exception as err:
            if type(err).__name__ in ("CaseTimeout", "AssertionError"):
                raise
            check(key in ("k0", "k1", "k3") or key == "x" and not omit, "a merge failed without a reason", error=repr(err))
            continue
        check(key not in ("k0", "k1", "k3"), "an error of a method was taken for a missing key", error=error, key=key, got=sorted(got))
        check(set(got) == {"k0", "k1", "k3"} | (set() if omit else {"x"}), "keys of the output", got=sorted(got))


def case_many(models, keys, extra):
    """many models with many keys, each with extra keys of its own"""
    cfg = synthetic_config("vc12m-x", {"m": {f"k{i}": ([1], "float64", [f"old{i}", f"older{i}"], False) for i in range(keys)}, "ema": {f"e{i}": ([1], "float64", [], True) for i in range(keys // 3)}})
    sds = []
    for j in range(models):
        sd = {[f"k{i}", f"old{i}", f"older{i}"][(i + j) % 3]: torch.tensor([float(j + 1)], dtype=torch.float64) for i in range(keys) if i % 7 or j}
        sd |= {f"x{(i + j * 3)}": torch.tensor([float(100 * j + i)], dtype=torch.float64) for i in range(extra)}
        sd |= {f"e{i}": torch.tensor([0.5], dtype=torch.float64) for i in range(keys // 3) if i % models == j}
        sds.append(sd)
    spec = ("sum", [("leaf", s, "weight") for s in sds])
    node = m_sum()(*(LiteralRecipeNode(s, model_config=cfg, merge_space="weight") for s in sds))
    for omit in (True, False):
        for ema in (True, False):
            got = run_merge(node, omit_extra_keys=omit, omit_ema=ema)
            want = expected(spec, cfg, omit, ema)
            check(set(got) == set(want), "keys of the output", missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5])
            check(all(torch.equal(got[k], want[k]) for k in want), "values of the output")


def case_alike(seed):
    """models with the same keys and tensors of several, also non-finite, elements; every key an input must have is there"""
    r = random.Random(seed)
    n = r.randrange(1, 4)
    comps = {"m": {f"k{i}": ([3], "float64", [f"old{i}"], False) for i in range(n)}}
    if r.random() < 0.6:
        comps["ema"] = {"e0": ([3], "float64", [], r.random() < 0.5)}
    cfg = synthetic_config(f"vc12a-c{seed}", comps)
    keys = [k for c in comps.values() for k in c]
    extra = [f"x{i}" for i in range(r.randrange(0, 3))]
    # the same method may give the values of the first model, so that only extra keys tell the models apart
    pools = [1.0, 2.0, 2.0, 5.0] + ([float("nan"), float("inf"), float("-inf")] if r.random() < 0.5 else [])
    with scratch() as d:
        sds = []
        for j in range(r.randrange(1, 4)):
            sd = {k: torch.tensor([r.choice(pools) for _ in range(3)], dtype=torch.float64) for k in keys + r.sample(extra, r.randrange(0, len(extra) + 1))}
            sds.append(sd if j == 0 or r.random() < 0.7 else dict(sds[0]))
        nodes = []
        for j, sd in enumerate(sds):
            if r.random() < 0.3:
                write_st(d / f"{j}.safetensors", sd)
                nodes.append(ModelRecipeNode(d / f"{j}.safetensors", model_config=cfg, merge_space="weight"))
            else:
                nodes.append(LiteralRecipeNode(sd, model_config=cfg, merge_space="weight"))
        for omit in (True, False):
            ema = r.choice([True, False])
            want = expected(("sum", [("leaf", sd, "weight") for sd in sds]), cfg, omit, ema)
            got = sd_mecha.merge(m_sum()(*nodes), threads=0, total_buffer_size=4096, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None,
                                 omit_extra_keys=omit, omit_ema=ema, check_mandatory_keys=r.random() < 0.5, check_finite=r.random() < 0.7)
            info = dict(seed=seed, omit_extra_keys=omit, omit_ema=ema)
            check(set(got) == set(want), "keys of the output", missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)), **info)
            for k in want:
                check(torch.equal(got[k].nan_to_num(7e7, 8e7, 9e7), want[k].nan_to_num(7e7, 8e7, 9e7)), "value of a key", key=k, got=got[k].tolist(), want=want[k].tolist(), **info)


CASES = {f.__name__[5:]: f for f in (case_alike, case_shapes, case_failing, case_many, case_random, case_structural, case_builtin)}


def suite(S):
    r = S.rng
    for e in (True, False, None):
        S.run("builtin", omit_ema=e)
    for form in ("file", "dict"):
        for omit in (True, False):
            S.run("shapes", form=form, omit=omit)
    for e in ("key", "index", "value", "own", "attribute", "os", "memory", "not"):
        for k in ("k0", "k1", "k2", "x"):
            S.run("failing", error=e, key=k, threads=0 if k != "k1" else 2)
    for m, k, x in ((1, 40, 3), (3, 30, 5), (7, 12, 9), (2, 400, 40)):
        S.run("many", models=m, keys=k, extra=x)
    for _ in range(60):
        S.run("alike", seed=r.randrange(10**9))
    while S.more():
        S.run("random", seed=r.randrange(10**9), threads=0 if r.random() < 0.9 else 2)
        if r.random() < 0.2:
            S.run("structural", seed=r.randrange(10**9))
