"""C16 LoRA conversion rebuilds each weight delta from its own low-rank factors"""
import collections
import functools
import z3
from vc.report import Proof
from vc.linear import LTensor, normal, size_of
from vc.values import mkint, mkreal, zint, zreal
from vc import linear
from .common import *
from sd_mecha import conversion
from sd_mecha.extensions.builtin import lycoris

ID = "C16"
LEVEL = "proof"
TRUSTED = [
    "torch: matmul, conv2d with a 1x1 kernel, permute, squeeze and unsqueeze are the documented multilinear operations (vc/linear.py)",
    "elements are real numbers (rounding is not modelled)",
    "the naming of LoRA files stated in contracts/c16.py (factor_name) is the one of the kohya and lycoris formats",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["factors have consistent shapes: down is (rank, in) or (rank, in, h, w), up is (out, rank) or (out, rank, 1, 1), alpha is a number"]
NOTE = ("Algebra: for all ranks, input and output sizes, kernel sizes and contents at once (dimensions are symbolic, tensors are multilinear expressions). "
        "Naming: every key of every builtin base config in both formats (exhaustive). LoRA configs of arbitrary base configs and whole LoRAs with random ranks are checked concretely through the public API.")
PROOF_BUDGET = 60
SUITE_BUDGET = 8

FORMATS = {"lycoris": "lycoris", "kohya": "lora"}
SUFFIXES = ("alpha", "lora_down.weight", "lora_up.weight")


def factor_name(fmt, key):
    """the name under which a LoRA file stores the factors of a weight; None: no factors"""
    if key.endswith("bias"):
        return None
    return f"{FORMATS[fmt]}_{key.removesuffix('.weight').replace('.', '_')}"


def bases():
    return [b for b in model_configs.get_all_base() if not b.identifier.startswith("vc")]


def conversion_of(fmt, base_id):
    want = f"{base_id}_{fmt}_lora"
    for m in merge_methods.get_all_converters():
        (src,) = m.get_input_configs().args_varargs(1)
        if src.identifier == want and m.get_return_config([src], {}).identifier == base_id:
            return m
    return None


class Factors(dict):
    """a LoRA; records what is looked up"""
    def __init__(self, entries, config):
        super().__init__(entries)
        self.model_config, self.asked = config, []

    def __missing__(self, k):
        self.asked.append(k)
        raise merging.StateDictKeyError(k)

    def __getitem__(self, k):
        if k in self:
            self.asked.append(k)
        return super().__getitem__(k)

    def __hash__(self):
        return id(self)


StateDict.register(Factors)


def call(m, lora, key):
    try:
        return m.merge_key((lora,), {}, key, None)
    except merging.StateDictKeyError as e:
        return e


# ----------------------------------------------------------------- proofs
def h_algebra(fmt, base_id, key):
    def h(c):
        m = conversion_of(fmt, base_id)
        name = factor_name(fmt, key)
        rank, inp, out = (mkint(c.int(n, 1)) for n in ("rank", "in", "out"))
        kind = c.choose(["linear", "conv"], "kind")
        dims = []
        if kind == "conv":
            dims = [mkint(c.int(n, 2)) if c.choice(2, f"{n} more than 1") else 1 for n in ("h", "w")]
        alpha = z3.Real("alpha")
        up = LTensor.named("up", [out, rank] + [1] * len(dims))
        down = LTensor.named("down", [rank, inp] + dims)
        entries = {f"{name}.alpha": LTensor([], [], coef=alpha), f"{name}.lora_down.weight": down, f"{name}.lora_up.weight": up}
        lacks = c.choose([None, *SUFFIXES], "lacks")
        if lacks:
            del entries[f"{name}.{lacks}"]
        # factors of another weight must not matter
        entries["lora_other.lora_up.weight"] = LTensor.named("other", [out, rank])
        lora = Factors(entries, None)
        res = call(m, lora, key)
        if lacks:
            c.cover("missing factor")
            c.prove("missing if a factor is missing", isinstance(res, merging.StateDictKeyError))
            return
        c.cover(f"{kind}")
        c.prove("a tensor is returned", isinstance(res, LTensor), detail=repr(type(res)))
        if not isinstance(res, LTensor):
            return
        want = [out, inp] + dims
        c.prove("as many axes as the factors", len(res.axes) == len(want), detail=f"{len(res.axes)}")
        if len(res.axes) != len(want):
            return
        for i, d in enumerate(want):
            c.prove(f"size of axis {i}", zint(size_of(res.axes[i])) == zint(d))
        expected = linear.contract(LTensor.named("up", [out, rank]), LTensor.named("down", [rank, inp] + dims), [(1, 0)])
        drop = lambda nf: tuple((n, tuple(a for a in idx if a)) for n, idx in nf)
        c.prove("the entry is the sum over the rank of the products of the entries of the factors", drop(normal(res)) == drop(normal(expected)), detail=f"{normal(res)}")
        c.prove("scaled by alpha divided by the rank", res.coef == alpha / z3.ToReal(zint(rank)))
    return h


def h_naming(fmt, base, keys, n):
    def h(c):
        m = conversion_of(fmt, base.identifier)
        c.prove("the conversion is registered", m is not None)
        if m is None:
            return
        made_up, bias, wrong = [], [], []
        three, five, seven = torch.tensor(3.0), torch.tensor([[5.0]]), torch.tensor([[7.0]])
        for key in keys:
            name = factor_name(fmt, key)
            if not isinstance(call(m, Factors({}, None), key), merging.StateDictKeyError):
                made_up.append(key)
            if name is None:
                c.cover("bias")
                if not isinstance(call(m, Decoys({}), key), merging.StateDictKeyError):
                    bias.append(key)
                continue
            c.cover("weight")
            # a LoRA that has factors under every name: those of another weight give another value
            res = call(m, Decoys({f"{name}.alpha": three, f"{name}.lora_down.weight": five, f"{name}.lora_up.weight": seven}), key)
            if not (isinstance(res, torch.Tensor) and res.tolist() == [[105.0]]):
                wrong.append(key)
        c.prove("missing if there are no factors", not made_up, detail=str(made_up[:3]))
        c.prove("biases are reported missing", not bias, detail=str(bias[:3]))
        c.prove("made of the factors stored for that very weight", not wrong, detail=str(wrong[:3]))
    return h


ELEVEN, THIRTEEN = torch.tensor(11.0), torch.tensor([[13.0]])


class Decoys(Factors):
    """any factor that is not given is that of another weight"""
    def __init__(self, entries):
        super().__init__(entries, None)

    def __missing__(self, k):
        self.asked.append(k)
        return ELEVEN if k.endswith(".alpha") else THIRTEEN


def h_config(fmt, base):
    def h(c):
        try:
            lora = model_configs.resolve(f"{base.identifier}_{fmt}_lora")
        except ValueError:
            c.prove("the LoRA config is registered", False)
            return
        c.prove("identifier", lora.identifier == f"{base.identifier}_{fmt}_lora")
        weights = [k for k, md in base.keys().items() if md.dtype.is_floating_point and factor_name(fmt, k) is not None]
        want = collections.Counter(f"{factor_name(fmt, k)}.{s}" for k in weights for s in SUFFIXES)
        c.prove("each factor key belongs to one weight only", all(n == 1 for n in want.values()))
        have = list(lora.keys())
        c.prove("the config lists exactly the factor keys of the floating-point weights", set(have) == set(want), detail=str(sorted(set(have) ^ set(want))[:3]))
        c.prove("factors are optional and have no other names", all(md.optional and not list(md.aliases) for md in lora.keys().values()))
        for n, comp in base.components().items():
            mine = {f"{factor_name(fmt, k)}.{s}" for k in comp.keys() if k in set(weights) for s in SUFFIXES}
            c.prove("factors belong to the component of their weight", set(lora.components()[n].keys()) == mine, detail=n)
        # looked up keys
        m = conversion_of(fmt, base.identifier)
        asked = set()
        for k in weights[::max(1, len(weights) // 150)]:
            d = Decoys({})
            call(m, d, k)
            c.prove("the conversion looks up listed keys only", bool(d.asked) and set(d.asked) <= set(have), detail=f"{k}: {d.asked}")
            c.prove("the conversion looks up each factor of the weight", set(d.asked) == {f"{factor_name(fmt, k)}.{s}" for s in SUFFIXES}, detail=f"{k}: {d.asked}")
    return h


def proofs():
    out = []
    for fmt in FORMATS:
        for base, key in (("sd1-ldm", "model.diffusion_model.input_blocks.1.1.proj_in.weight"), ("sdxl-kohya", "te1.text_model.encoder.layers.0.mlp.fc1.weight")):
            out.append(Proof(f"{fmt} LoRA of {base}: algebra", h_algebra(fmt, base, key), budget=30, witness=lambda model, o: ("compose", dict(seed=1))))
    for base in bases():
        for fmt in FORMATS:
            out.append(Proof(f"{fmt} LoRA of {base.identifier}: config", h_config(fmt, base), budget=20))
            keys = [k for k, md in base.keys().items() if md.dtype.is_floating_point]
            for i in range(0, len(keys), 400):
                out.append(Proof(f"{fmt} LoRA of {base.identifier}: keys {i} to {min(i + 400, len(keys)) - 1}", h_naming(fmt, base, keys[i:i + 400], i), budget=20))
    return out


# ----------------------------------------------------------------- concrete cross-check
def delta(alpha, up, down):
    """entry by entry"""
    r = down.shape[0]
    u = up.reshape(up.shape[0], r).tolist()
    d = down.reshape(r, -1).tolist()
    rows = [[sum(u[o][k] * d[k][j] for k in range(r)) * alpha / r for j in range(len(d[0]))] for o in range(len(u))]
    return torch.tensor(rows, dtype=torch.float64).reshape(up.shape[0], *down.shape[1:])


def make_factors(rng, rank, shape, dtype=torch.float64):
    out, inp, *k = shape
    t = lambda *s: torch.tensor([rng.randint(-4, 4) / 4 for _ in range(math.prod(s))], dtype=dtype).reshape(s)
    return t(out, rank, *[1] * len(k)), t(rank, inp, *k)


SHAPES = [(3, 4), (4, 3), (1, 5), (5, 1), (2, 2), (3, 4, 1, 1), (5, 2, 1, 1), (3, 2, 3, 3), (2, 3, 3, 3), (2, 3, 1, 3), (2, 3, 3, 1), (1, 1, 3, 3), (2, 2, 2, 2)]


def convert_lora(base, fmt, model, form, d):
    if form == "file":
        write_st(d / "lora.safetensors", model)
        lora = sd_mecha.model(d / "lora.safetensors", f"{base}_{fmt}_lora")
    else:
        lora = LiteralRecipeNode(model, model_config=f"{base}_{fmt}_lora", merge_space="weight")
    node = sd_mecha.convert(lora, base)
    check(node.merge_space.identifier == "delta", "a converted LoRA is a delta")
    return sd_mecha.merge(node, merge_device=None, output_device=None, merge_dtype=None, output_dtype=None, threads=0, strict_weight_space=False, check_mandatory_keys=False,
                          omit_extra_keys=True, omit_ema=False, total_buffer_size=2**20)


def case_lora(base, fmt, seed):
    rng = random.Random(seed)
    cfg = model_configs.resolve(base)
    keys = list(cfg.keys())
    weights = [k for k in keys if factor_name(fmt, k) is not None and cfg.keys()[k].dtype.is_floating_point]
    model, want = {}, {}
    for k in rng.sample(weights, min(len(weights), rng.choice([1, 3, 12]))):
        name = factor_name(fmt, k)
        up, down = make_factors(rng, rng.choice([1, 1, 2, 3, 4, 7]), rng.choice(SHAPES))
        alpha = rng.choice([1.0, 0.5, 4.0, 3.0, -2.0, 0.0])
        parts = {"alpha": torch.tensor(alpha, dtype=torch.float64), "lora_up.weight": up, "lora_down.weight": down}
        if rng.random() < 0.25:
            del parts[rng.choice(list(parts))]
        else:
            want[k] = delta(alpha, up, down)
        model.update({f"{name}.{s}": t for s, t in parts.items()})
    if rng.random() < 0.5:          # entries under other names are not factors
        aliases = [a for k in keys for a in cfg.keys()[k].aliases]
        for a in rng.sample(aliases, min(3, len(aliases))) + rng.sample(weights, min(2, len(weights))):
            model[a] = torch.full((2, 2), 9.0)
        other = [f for f in FORMATS if f != fmt][0]
        k = rng.choice(weights)
        up, down = make_factors(rng, 2, (2, 2))
        model |= {f"{factor_name(other, k)}.alpha": torch.tensor(1.0), f"{factor_name(other, k)}.lora_up.weight": up, f"{factor_name(other, k)}.lora_down.weight": down}
        biases = [k for k in keys if k.endswith(".bias")]
        for k in rng.sample(biases, min(2, len(biases))):
            n = f"{FORMATS[fmt]}_{k.replace('.', '_')}"
            model |= {f"{n}.alpha": torch.tensor(1.0), f"{n}.lora_up.weight": up, f"{n}.lora_down.weight": down}
    if not model:
        return
    backup = {k: v.clone() for k, v in model.items()}
    with scratch() as d:
        out = convert_lora(base, fmt, model, rng.choice(["file", "literal"]), d)
    # keys whose name is built like that of a weight although their tensors are integers are not decided here
    extra = {k for k in set(out) - set(want) if cfg.keys().get(k) is None or cfg.keys()[k].dtype.is_floating_point}
    check(not extra, "a weight without factors was made up", keys=sorted(extra)[:3])
    for k, t in want.items():
        check(k in out, "a weight with factors is missing", key=k)
        check(out[k].shape == t.shape, "the delta has another shape", key=k, got=list(out[k].shape), expected=list(t.shape))
        check(torch.allclose(out[k].double(), t, rtol=1e-5, atol=1e-6), "the delta is not alpha / rank * up @ down", key=k, got=out[k].flatten()[:4].tolist(), expected=t.flatten()[:4].tolist())
    check(all(torch.equal(model[k], backup[k]) for k in model), "a factor was modified")


def case_compose(seed):
    """every shape, with every rank up to 5"""
    rng = random.Random(seed)
    base, fmt = rng.choice(["sd1-ldm", "sdxl-sgm"]), rng.choice(list(FORMATS))
    cfg = model_configs.resolve(base)
    weights = [k for k in cfg.keys() if factor_name(fmt, k) is not None and cfg.keys()[k].dtype.is_floating_point]
    combos = [(s, r) for s in SHAPES for r in range(1, 6)]
    model, want = {}, {}
    for k, (s, r) in zip(rng.sample(weights, len(combos)), combos):
        up, down = make_factors(rng, r, s)
        alpha = rng.choice([1.0, 2.0, 0.75])
        model |= {f"{factor_name(fmt, k)}.{x}": t for x, t in {"alpha": torch.tensor(alpha, dtype=torch.float64), "lora_up.weight": up, "lora_down.weight": down}.items()}
        want[k] = delta(alpha, up, down)
    with scratch() as d:
        out = convert_lora(base, fmt, model, "literal", d)
    for k, t in want.items():
        check(k in out and out[k].shape == t.shape and torch.allclose(out[k].double(), t, rtol=1e-5, atol=1e-6), "the delta is not alpha / rank * up @ down", key=k, shape=list(t.shape), got=out[k].flatten()[:4].tolist() if k in out else None, expected=t.flatten()[:4].tolist())


def case_config(seed):
    """LoRA configs of arbitrary base configs"""
    rng = random.Random(seed)
    part = lambda: rng.choice(["a", "b", "conv", "0", "1", "out_proj", "norm1", "weight_g", "bias_net"])
    comps = {}
    used = set()
    for n in rng.sample(["c1", "c2", "c3"], rng.randint(1, 3)):
        comps[n] = {}
        for _ in range(rng.randint(0, 5)):
            k = ".".join(part() for _ in range(rng.randint(1, 3))) + rng.choice([".weight", ".bias", "", ".in_proj_bias", "_x"])
            name = k.removesuffix(".weight").replace(".", "_")
            if name in used:
                continue
            used.add(name)
            comps[n][k] = ([2, 2], rng.choice(["float32", "float16", "int64", "bool"]), rng.choice([[], [f"alias.{len(used)}"]]), rng.random() < 0.5)
    base = synthetic_config(f"vc16-b{seed}", comps)
    for fmt, prefix in FORMATS.items():
        cfg = lycoris.LycorisModelConfig(base, fmt, prefix, "lora")
        check(cfg.identifier == f"{base.identifier}_{fmt}_lora", "identifier", got=cfg.identifier)
        for n, ks in comps.items():
            want = {f"{factor_name(fmt, k)}.{s}" for k, (_, dt, _, _) in ks.items() if dt.startswith("float") and factor_name(fmt, k) is not None for s in SUFFIXES}
            have = cfg.components()[n].keys()
            check(set(have) == want, "the LoRA config lists other keys than the factors of the floating-point weights", differ=sorted(set(have) ^ want)[:4])
            check(all(not list(md.aliases) for md in have.values()), "factors have no other names")
            for k in ks:
                looked = set(cfg.to_lycoris_keys(k))
                check(looked == ({f"{factor_name(fmt, k)}.{s}" for s in SUFFIXES} if factor_name(fmt, k) is not None else set()), "other keys are looked up", key=k, looked=sorted(looked))


CASES = {"lora": case_lora, "compose": case_compose, "config": case_config}


def suite(S):
    S.run("compose", seed=S.rng.randrange(10**6))
    names = [b.identifier for b in bases()]
    for b in names:
        for fmt in FORMATS:
            S.run("lora", base=b, fmt=fmt, seed=S.rng.randrange(10**6))
    i = 0
    while S.more() and i < (40 if not S.thorough else 800):
        S.run("config", seed=S.rng.randrange(10**6))
        S.run("lora", base=S.rng.choice(names), fmt=S.rng.choice(list(FORMATS)), seed=S.rng.randrange(10**6))
        if i % 10 == 0:
            S.run("compose", seed=S.rng.randrange(10**6))
        i += 1
