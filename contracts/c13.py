"""C13 Builtin merge methods never modify their inputs"""
import itertools
import numpy
from vc.report import Proof
from .common import *

ID = "C13"
LEVEL = "proof"
TRUSTED = [
    "the aliasing and mutation annotations of torch's operator schemas describe what each torch function writes and what its result may share memory with",
    "vc/tensors.py: conditional views (reshape, to, flatten, contiguous) count as views",
    "state dicts given to a merge method are only read through the Mapping interface",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py; z3, cvc5",
]
ASSUMPTIONS = ["numpy's random generator and the probability tables of `dropout` get numbers only, no tensors; they are replaced by unknown results in the proof"]
NOTE = ("Frame conditions of every registered builtin merge method and conversion, for tensors of unknown elements, shape, dtype and strides: no operation writes memory that an input may share. "
        "Truth values and numbers read from tensors are unconstrained, so every path is covered; loops over inputs are covered for 1 to 3 inputs (bounded), the Weiszfeld loop for 0 to 2 iterations "
        "(its abstract state repeats), shapes that are iterated over for rank up to 4. Every path is also executed on real tensors with the whole backing memory compared before and after (bounded).")
PROOF_BUDGET = 60
SUITE_BUDGET = 10


def builtin_methods():
    out = []
    for m in merge_methods.get_all():
        if getattr(m.__wrapped__, "__module__", "").startswith("sd_mecha.extensions.builtin"):
            out.append(m)
    return sorted(out, key=lambda m: m.get_identifier())


def is_dict(t):
    return getattr(t, "__origin__", None) is StateDict or t is StateDict


# ----------------------------------------------------------------- contracts
class SD:
    """a state dict of unknown tensors; everything but reading is a modification"""
    def __init__(self, name, config=None):
        from vc.tensors import tensor_input
        self._name, self._config, self._got, self._make = name, config, {}, tensor_input

    @property
    def model_config(self):
        return self._config

    def keys(self):
        return list(self._config.keys()) if self._config is not None else []

    def __contains__(self, k):
        return k in self.keys()

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def metadata(self):
        return self._config.metadata().items()

    def __getitem__(self, k):
        from vc.core import ctx, pyraise
        if k not in self._got:
            if self._forks and (self._config is not None and k not in self._config.keys() or ctx().choice(2, f"{self._name} has {k}") == 0):
                pyraise(merging.StateDictKeyError(k))
            self._got[k] = self._make(f"{self._name}[{k}]")
        return self._got[k]

    _forks = True

    def _write(self, what):
        from vc.tensors import ATensor
        ATensor.WRITES.append((self._name, what))

    def __setitem__(self, k, v):
        self._write("[...] =")

    def __delitem__(self, k):
        self._write("del")

    def pop(self, *a):
        self._write("pop")

    def update(self, *a, **k):
        self._write("update")

    def setdefault(self, *a):
        self._write("setdefault")

    def clear(self):
        self._write("clear")

    def get(self, k, default=None):
        try:
            return self[k]
        except merging.StateDictKeyError:
            return default


StateDict.register(SD)

STRINGS = {"component": ["c1", "c2", "nope"], "device": [None, "cpu"], "dtype": [None, "float16", "float32", "wrong"]}
NUMBERS = {"maxiter": [0, 1, 2], "seed": [None, 3]}
CONCRETE = {
    "dropout": dict(probability=[0.0, 0.5, 1.0], rescale=[1.0], overlap=[0.0, 0.5, 1.0], overlap_emphasis=[0.0, 0.5]),
    "ties_sum_with_dropout": dict(probability=[0.3, 1.0]),
    "crossover": dict(alpha=[0, 0.4, 1], tilt=[0.0, 0.5, 1.0, 1.5, 2.0, 2.5]),
    "rotate": dict(alignment=[0.0, 0.5, 1.0, 2.0]),
    "ties_sum_extended": {}, "geometric_median": {},
}


class Rng:
    def binomial(self, *a, **k):
        return Unknown()

    def choice(self, *a, **k):
        return Unknown()

    def random(self, *a, **k):
        return Unknown()


class Unknown:
    """a numpy array of unknown elements, not made from a tensor"""


def small_config():
    return synthetic_config("vc13-c", {"c1": {"a": ([2], "float32", [], False)}, "c2": {"b": ([2], "float32", [], False)}})


def argument(c, m, name, t, default, fresh_names, config):
    from vc.tensors import tensor_input, ANum
    o = CONCRETE.get(m.get_identifier(), {}).get(name)
    if o is not None:
        return c.choose(o, name)
    if is_dict(t):
        return SD(name, config)
    if name in STRINGS:
        return c.choose(STRINGS[name], name)
    if name in NUMBERS:
        return c.choose(NUMBERS[name], name)
    if t is torch.Tensor:
        return tensor_input(name)
    if t is float:
        return ANum(float)
    if t is int:
        return ANum(int)
    if t is bool:
        return bool(c.choice(2, name))
    if t is str:
        return "text"
    return SD(name, config) if not isinstance(t, type) else tensor_input(name)


def frame(c, m, args, kwargs):
    from vc.tensors import ATensor
    try:
        m.__wrapped__(*args, **kwargs)
    except Exception as e:
        # a rejected call must not have written anything either
        c.cover("raised")
    else:
        c.cover("returned")
    w = ATensor.WRITES
    c.prove(f"{m.get_identifier()} writes no memory of its inputs", not w, detail=str(w[:3]))


def callee(f):
    """contract of a merge method called by another one: it writes no memory of its inputs, its result may share their memory"""
    def result(*args, **kwargs):
        from vc.tensors import ATensor, _tensors
        return ATensor(f.__name__, args, kwargs, regions=frozenset(r for t in _tensors((args, kwargs), []) for r in t.regions))
    return result


def setup(c, method=None):
    from vc.tensors import ATensor, TorchContracts
    ATensor.WRITES = []
    ATensor.serial = 0
    c.overrides = TorchContracts()
    for m in builtin_methods():
        if method is not None and m is not method:
            c.overrides[m.__wrapped__] = callee(m.__wrapped__)
    c.overrides[numpy.random.default_rng] = lambda *a, **k: Rng()


def h_method(m):
    def h(c):
        setup(c, m)
        names, types = m.get_param_names(), m.get_input_types()
        args, kwargs = [], {}
        config = small_config()
        for n, t in zip(names.args, types.args):
            args.append(argument(c, m, n, t, None, None, config))
        if names.has_varargs():
            n = 1 + c.choice(3, "number of inputs")
            for i in range(n):
                args.append(argument(c, m, f"{names.vararg}{i}", types.vararg, None, None, config))
        for n in names.kwargs:
            kwargs[n] = argument(c, m, n, types.kwargs[n], None, None, config)
        s = inspect.signature(m.__wrapped__)
        if any(p.kind is p.VAR_KEYWORD for p in s.parameters.values()):
            kwargs["key"] = c.choose(["a", "none"] if m.get_identifier() != "rotate" else ["a"], "key")
            if m.get_identifier() == "rotate":
                cache = c.choose([None, {}], "cache")
                if cache is not None:
                    kwargs["cache"] = {}
        frame(c, m, args, kwargs)
    return h


def conversion_cases(m, limit=None):
    target = m.get_return_config([None], {})
    source = m.get_input_configs().args[0]
    return source, target


def h_conversion(m):
    (sid,) = m.get_input_configs().args
    source = sid if not isinstance(sid, str) else model_configs.resolve(sid)
    # keys that differ only in their numbers take the same way through the conversion
    classes = {}
    for k in m.get_return_config([source], {}).keys():
        classes.setdefault("".join(x for x in k if not x.isdigit()), k)
    keys = list(classes.values())

    def h(c):
        setup(c, m)
        sd = SD("state dict", None)
        sd._forks = False
        if "lora" in m.get_identifier():
            ks = keys[:3]
        else:
            ks = keys
        frame(c, m, (sd,), dict(key=c.choose(ks, "key")))
    return h


def proofs():
    ms = builtin_methods()
    conv = [m for m in ms if m in merge_methods.get_all_converters()]
    out = []
    for m in ms:
        if m not in conv:
            out.append(Proof(f"frame of {m.get_identifier()}", h_method(m), bound="1 to 3 variadic inputs; shapes iterated over have rank at most 4", budget=10, max_paths=2500, witness="method"))
    for m in conv:
        if m in ms:
            out.append(Proof(f"frame of {m.get_identifier()}", h_conversion(m), bound="one key of the target config per form of key", budget=5, witness="conversion"))
    return out


# ----------------------------------------------------------------- concrete cross-check
class Guard:
    """the whole memory behind the inputs, their shapes and strides, the entries of the state dicts"""
    def __init__(self, tensors, dicts):
        self.tensors = [(t, t.untyped_storage(), t.shape, t.stride(), t.storage_offset(), t.dtype, t.requires_grad, t.data_ptr(), t._version) for t in tensors]
        self.mem = [bytes(s.tolist()) for _, s, *_ in self.tensors]
        self.dicts = [(d, list(d.items())) for d in dicts]

    def check(self):
        for (t, s, sh, st, off, dt, rg, p, ver), mem in zip(self.tensors, self.mem):
            check(bytes(s.tolist()) == mem, "the elements of an input were modified")
            check(t._version == ver, "an input was written to")
            check((t.shape, t.stride(), t.storage_offset(), t.dtype, t.requires_grad, t.data_ptr()) == (sh, st, off, dt, rg, p), "the shape or layout of an input was modified")
        for d, items in self.dicts:
            now = list(d.items())
            check(len(now) == len(items) and all(a is c and b is e for (a, b), (c, e) in zip(now, items)), "the entries of an input state dict were modified")


class Dict(dict):
    def __init__(self, items, config=None):
        super().__init__(items)
        self.model_config = config

    def __missing__(self, k):
        raise merging.StateDictKeyError(k)

    def __hash__(self):
        return id(self)


StateDict.register(Dict)

SHAPES = [(), (1,), (5,), (4, 6), (6, 4), (3, 3), (2, 3, 3, 3), (4, 2, 1, 1), (20, 3)]
LAYOUTS = ["plain", "transposed", "strided", "offset", "expanded"]
DTYPES = ["float32", "float64", "bfloat16", "float16"]


def make_input(rng, shape, dtype, layout, special):
    n = math.prod(shape)
    kinds = {"plain": lambda: rng.gauss(0, 1), "zeros": lambda: 0.0, "nan": lambda: rng.choice([math.nan, 1.0, -1.0]), "same": lambda: 0.5, "ints": lambda: float(rng.randrange(-2, 3)),
             "inf": lambda: rng.choice([math.inf, 0.0, -2.0])}
    flat = torch.tensor([kinds[special]() for _ in range(n)], dtype=torch.float64).to(dtype)
    t = flat.reshape(shape)
    if layout == "transposed" and len(shape) >= 2:
        return t.transpose(0, 1).contiguous().transpose(0, 1)
    if layout == "strided" and len(shape) >= 1:
        big = torch.zeros((*shape[:-1], shape[-1] * 2), dtype=dtype)
        big[..., ::2] = t
        return big[..., ::2]
    if layout == "offset":
        big = torch.zeros(n + 7, dtype=dtype)
        big[3:3 + n] = flat
        return big[3:3 + n].view(shape)
    if layout == "expanded" and len(shape) >= 1:
        return t[:1].expand(shape) if shape[0] else t
    return t


OPTIONS = {
    "alpha": [0.0, 0.3, 0.5, 1.0, -0.5, 2.0], "width": [0.0, 0.3, 0.5, 1.0, -0.4], "offset": [0.0, 0.3, 0.7], "tilt": [0.0, 0.5, 1.0, 1.5, 2.0, 2.5], "alignment": [0.0, 0.5, 1.0, 2.0, 1.7],
    "stiffness": [0.0, 0.5, 1.0], "k": [0.2, 0.5, 1.0], "probability": [0.0, 0.5, 1.0], "rescale": [1.0, 0.5], "overlap": [0.0, 0.5, 1.0, 1.3], "overlap_emphasis": [0.0, 0.5], "seed": [None, 1, 7],
    "maxiter": [0, 1, 4], "eps": [1e-6], "ftol": [1e-20, 0.1], "cos_eps": [1e-6], "rank_ratio": [0.0, 0.3, 1.0], "device": [None, "cpu"], "dtype": [None, "float16", "float32", "float64", "int32"],
    "component": ["c1", "c2"],
}


def case_method(method, seed, count=6):
    m = merge_methods.resolve(method)
    rng = random.Random(seed)
    for _ in range(count):
        torch.manual_seed(rng.randrange(1000))
        shape = rng.choice(SHAPES)
        dtype = getattr(torch, rng.choice(DTYPES[:2] if rng.random() < 0.8 else DTYPES))
        names, types = m.get_param_names(), m.get_input_types()
        config = small_config()
        tensors, dicts = [], []
        shared = {}

        def tensor(name):
            if rng.random() < 0.12 and tensors:
                return rng.choice(tensors)
            t = make_input(rng, shape, dtype, rng.choice(LAYOUTS) if rng.random() < 0.6 else "plain", rng.choice(["plain"] * 5 + ["zeros", "nan", "same", "ints", "inf"]))
            tensors.append(t)
            return t

        def arg(name, t):
            if name in OPTIONS:
                v = rng.choice(OPTIONS[name])
                if t is torch.Tensor:
                    v = torch.tensor(v, dtype=dtype) if rng.random() < 0.7 else torch.full(shape, v, dtype=dtype)
                    tensors.append(v)
                return v
            if is_dict(t) or not isinstance(t, type):
                d = Dict({k: tensor(name) for k in ("a", "b") if rng.random() < 0.9}, config)
                dicts.append(d)
                return d
            if t is torch.Tensor:
                return tensor(name)
            return rng.random() < 0.5 if t is bool else 1.0
        args = [arg(n, t) for n, t in zip(names.args, types.args)]
        if names.has_varargs():
            args += [arg(names.vararg, types.vararg) for _ in range(rng.randint(1, 4))]
        kwargs = {n: arg(n, types.kwargs[n]) for n in names.kwargs}
        if any(p.kind is p.VAR_KEYWORD for p in inspect.signature(m.__wrapped__).parameters.values()):
            kwargs["key"] = rng.choice(["a", "b"])
            if rng.random() < 0.5:
                kwargs["cache"] = shared
        g = Guard(tensors, dicts)
        for _ in range(2 if "cache" in kwargs else 1):
            try:
                m.__wrapped__(*args, **kwargs)
            except Exception:
                pass
            g.check()


def case_conversion(method, seed, count=40):
    m = merge_methods.resolve(method)
    rng = random.Random(seed)
    (sid,) = m.get_input_configs().args
    source = sid if not isinstance(sid, str) else model_configs.resolve(sid)
    target = m.get_return_config([source], {})
    keys = list(target.keys())

    class Lazy(Dict):
        def __missing__(self, k):
            if k not in source.keys():
                raise merging.StateDictKeyError(k)
            sh = list(source.keys()[k].shape or [])
            if "lora" in k:
                sh = [] if k.endswith("alpha") else [3, 3]
            self[k] = make_input(rng, tuple(min(x, 6) for x in sh), torch.float32, rng.choice(LAYOUTS), "plain")
            return self[k]
    for k in rng.sample(keys, min(count, len(keys))):
        d = Lazy({}, source)
        try:
            m.__wrapped__(d, key=k)
        except Exception:
            pass
        g = Guard(list(d.values()), [d])
        try:
            m.__wrapped__(d, key=k)
        except Exception:
            pass
        g.check()


def case_merge(seed):
    """the tensors of literals given to a merge are unchanged after it"""
    rng = random.Random(seed)
    ms = [m for m in builtin_methods() if m not in merge_methods.get_all_converters()]
    m = rng.choice([x for x in ms if x.get_identifier() in (
        "weighted_sum", "n_average", "slerp", "add_difference", "subtract", "tensor_sum", "top_k_tensor_sum", "clamp", "rotate", "dropout", "ties_sum", "ties_sum_extended", "geometric_median",
        "truncate_rank", "fallback", "cast", "model_stock", "ties_sum_with_dropout", "crossover", "train_difference_mask")])
    cfg = synthetic_config("vc13-m", {"c1": {"a": ([4, 6], "float32", [], False), "b": ([4], "float32", [], False)}}, register=True)
    names = m.get_param_names()
    tensors, dicts, args = [], [], []
    spaces = m.get_input_merge_spaces()

    def model(space):
        d = {"a": torch.randn(4, 6, generator=torch.Generator().manual_seed(rng.randrange(1000))), "b": torch.randn(4, generator=torch.Generator().manual_seed(rng.randrange(1000)))}
        tensors.extend(d.values())
        dicts.append(d)
        return LiteralRecipeNode(d, model_config=cfg, merge_space=space)

    def space(s):
        return "delta" if "delta" in str(s) and "weight" not in str(s) else "weight"
    for n, s, t in zip(names.args, spaces.args, m.get_input_types().args):
        if n in OPTIONS:
            break
        args.append(model(space(s)))
    if names.has_varargs():
        args += [model(space(spaces.vararg)) for _ in range(2)]
    g = Guard(tensors, dicts)
    recipe = m(*args)
    try:
        sd_mecha.merge(recipe, merge_device=None, merge_dtype=rng.choice([None, torch.float32]), output_device=None, output_dtype=None, threads=rng.choice([0, 2]), strict_weight_space=False)
    except TypeError:
        raise
    except Exception:
        pass
    g.check()


CASES = {"method": case_method, "conversion": case_conversion, "merge": case_merge}


def suite(S):
    ms = builtin_methods()
    conv = merge_methods.get_all_converters()
    plain = [m for m in ms if m not in conv]
    for m in conv:
        if m in ms:
            S.run("conversion", method=m.get_identifier(), seed=S.rng.randrange(10**6), count=40 if not S.thorough else 400)
    i = 0
    while S.more() and i < (60 if not S.thorough else 3000):
        for m in plain:
            S.run("method", method=m.get_identifier(), seed=S.rng.randrange(10**6))
            if not S.more():
                break
        S.run("merge", seed=S.rng.randrange(10**6))
        i += 1
