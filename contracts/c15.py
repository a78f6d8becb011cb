"""C15 Builtin conversions relocate every tensor of the source model, once and intact"""
import collections
import re
from torch.utils._pytree import tree_map, tree_flatten
from vc.report import Proof
from .common import *
from sd_mecha import conversion

ID = "C15"
LEVEL = "proof"
TRUSTED = [
    "torch: the shapes computed for tensors without storage (meta tensors) are the shapes of the real ones, and transposing, reshaping and concatenating move elements regardless of their values",
    "the configs of sd_mecha/extensions/builtin/model_configs/*.yaml are the configs of the architectures",
    "the correspondence of names in contracts/c15.py (counterpart), written from the naming of diffusers, kohya and the original repositories, is the documented one",
    "the rewriting of vc/instrument.py",
]
ASSUMPTIONS = ["the source model has the keys and shapes of its config (or lacks some of the keys)"]
NOTE = ("Every key of every target config of every builtin conversion is evaluated (the tables are finite: exhaustive, no bound). Tensors are abstract: they carry a shape and the operations applied to them, and cannot be inspected, so that a result holds for all contents. "
        "The correspondence of names is stated in the other direction than the code (from source keys to target keys) and independently of it. In addition whole models with small tensors are converted concretely through the public API.")
PROOF_BUDGET = 60
SUITE_BUDGET = 12

# ----------------------------------------------------------------- specification
RESNET = {"norm1": "in_layers.0", "conv1": "in_layers.2", "norm2": "out_layers.0", "conv2": "out_layers.3", "time_emb_proj": "emb_layers.1", "conv_shortcut": "skip_connection"}
TOP = {"time_embedding.linear_1": "time_embed.0", "time_embedding.linear_2": "time_embed.2", "add_embedding.linear_1": "label_emb.0.0", "add_embedding.linear_2": "label_emb.0.2",
       "conv_in": "input_blocks.0.0", "conv_norm_out": "out.0", "conv_out": "out.2"}


def unet_to_ldm(k, attention_first):
    """key of the diffusers unet -> key of the original unet; attention_first: whether up block 0 has attentions"""
    if m := re.fullmatch(r"(.+)\.(weight|bias)", k):
        if m[1] in TOP:
            return f"{TOP[m[1]]}.{m[2]}"
    if m := re.fullmatch(r"down_blocks\.(\d+)\.downsamplers\.0\.conv\.(\w+)", k):
        return f"input_blocks.{3 * int(m[1]) + 3}.0.op.{m[2]}"
    if m := re.fullmatch(r"up_blocks\.(\d+)\.upsamplers\.0\.(.+)", k):
        has_attention = attention_first or int(m[1]) > 0
        return f"output_blocks.{3 * int(m[1]) + 2}.{2 if has_attention else 1}.{m[2]}"
    if m := re.fullmatch(r"(down|up)_blocks\.(\d+)\.(resnets|attentions)\.(\d+)\.(.+)", k):
        block = f"input_blocks.{3 * int(m[2]) + int(m[4]) + 1}" if m[1] == "down" else f"output_blocks.{3 * int(m[2]) + int(m[4])}"
        return f"{block}.{resnet(m[5])}" if m[3] == "resnets" else f"{block}.1.{m[5]}"
    if m := re.fullmatch(r"mid_block\.resnets\.(\d+)\.(.+)", k):
        return f"middle_block.{2 * int(m[1])}.{resnet(m[2])[2:]}"
    if m := re.fullmatch(r"mid_block\.attentions\.0\.(.+)", k):
        return f"middle_block.1.{m[1]}"
    raise LookupError(k)


def resnet(k):
    part, end = k.rsplit(".", 1)
    return f"0.{RESNET[part]}.{end}"


VAE_ATTENTION = {"group_norm": "norm", "to_q": "q", "to_k": "k", "to_v": "v", "to_out.0": "proj_out"}


def vae_to_ldm(k):
    """key of the diffusers vae -> (key of the original vae, transform)"""
    coder, _, rest = k.partition(".")
    if coder in ("quant_conv", "post_quant_conv"):
        return k, "same"
    rest = rest.replace("conv_shortcut", "nin_shortcut")
    if m := re.fullmatch(r"mid_block\.attentions\.0\.(.+)\.(weight|bias)", rest):
        tr = "conv" if m[1] != "group_norm" and m[2] == "weight" else "same"
        return f"{coder}.mid.attn_1.{VAE_ATTENTION[m[1]]}.{m[2]}", tr
    if m := re.fullmatch(r"mid_block\.resnets\.(\d+)\.(.+)", rest):
        return f"{coder}.mid.block_{int(m[1]) + 1}.{m[2]}", "same"
    if m := re.fullmatch(r"(down|up)_blocks\.(\d+)\.(resnets|downsamplers|upsamplers)\.(\d+)\.(.+)", rest):
        i = int(m[2]) if m[1] == "down" else 3 - int(m[2])
        part = f"block.{m[4]}" if m[3] == "resnets" else m[3][:-2].rstrip("r").rstrip("e") + "e"
        return f"{coder}.{m[1]}.{i}.{part}.{m[5]}", "same"
    return f"{coder}.{rest.replace('conv_norm_out', 'norm_out')}", "same"


CLIP_G = {"self_attn.out_proj": "attn.out_proj", "mlp.fc1": "mlp.c_fc", "mlp.fc2": "mlp.c_proj", "layer_norm1": "ln_1", "layer_norm2": "ln_2"}


def clip_g_to_open(k):
    """key of the second text encoder -> (key, transform, position)"""
    if k == "text_projection.weight":
        return "text_projection", "transposed", 0
    if k == "text_model.embeddings.position_embedding.weight":
        return "positional_embedding", "same", 0
    if k == "text_model.embeddings.token_embedding.weight":
        return "token_embedding.weight", "same", 0
    if m := re.fullmatch(r"text_model\.final_layer_norm\.(\w+)", k):
        return f"ln_final.{m[1]}", "same", 0
    if m := re.fullmatch(r"text_model\.encoder\.layers\.(\d+)\.self_attn\.([qkv])_proj\.(weight|bias)", k):
        return f"transformer.resblocks.{m[1]}.attn.in_proj_{m[3]}", "joined", "qkv".index(m[2])
    if m := re.fullmatch(r"text_model\.encoder\.layers\.(\d+)\.(.+)\.(weight|bias)", k):
        return f"transformer.resblocks.{m[1]}.{CLIP_G[m[2]]}.{m[3]}", "same", 0
    raise LookupError(k)


def relocate(source, k):
    """(target key, transform, position) of a source key; None: no counterpart"""
    if source == "flux-flux":
        p = "model.diffusion_model."
        return (k[len(p):], "same", 0) if k.startswith(p) else None
    if source == "flux-flux_diffuser_only":
        return "model.diffusion_model." + k, "same", 0
    if source == "sd1-kohya":
        part, _, rest = k.partition(".")
        if part == "te":
            return f"cond_stage_model.transformer.{rest}", "same", 0
        if part == "unet":
            return f"model.diffusion_model.{unet_to_ldm(rest, False)}", "same", 0
        if part == "vae":
            t, tr = vae_to_ldm(rest)
            return f"first_stage_model.{t}", tr, 0
    if source == "sdxl-kohya":
        part, _, rest = k.partition(".")
        if part == "te1":
            return f"conditioner.embedders.0.transformer.{rest}", "same", 0
        if part == "te2":
            t, tr, pos = clip_g_to_open(rest)
            return f"conditioner.embedders.1.model.{t}", tr, pos
        if part == "unet":
            return f"model.diffusion_model.{rest}", "same", 0
        if part == "first_stage_model":
            return k, "same", 0
    if source == "sdxl-diffusers_unet_only":
        return f"model.diffusion_model.{unet_to_ldm(k, True)}", "same", 0
    raise LookupError(f"{source} {k}")


def block_of(source, k):
    """block weight of a target key"""
    last = "OUT11" if source.startswith("sd1") else "OUT08"
    if m := re.match(r"model\.diffusion_model\.(input_blocks|output_blocks|middle_block|out)\.(\d+)\.", k):
        return {"input_blocks": f"IN{int(m[2]):02}", "output_blocks": f"OUT{int(m[2]):02}", "middle_block": "M00", "out": last}[m[1]]
    if source.startswith("sdxl") and k.startswith("first_stage_model."):
        return "VAE"
    return "BASE"


PRESETS = {"sd1-supermerger_blocks": "sd1-ldm", "sdxl-supermerger_blocks": "sdxl-sgm"}
COMPONENT = {("flux-flux", "flux-flux_diffuser_only")}
PAIRS = [("flux-flux", "flux-flux_diffuser_only"), ("flux-flux_diffuser_only", "flux-flux"), ("sd1-kohya", "sd1-ldm"), ("sdxl-kohya", "sdxl-sgm"),
         ("sdxl-diffusers_unet_only", "sdxl-sgm"), ("sd1-supermerger_blocks", "sd1-ldm"), ("sdxl-supermerger_blocks", "sdxl-sgm")]
_expected = {}


def expected(pair):
    """target key -> (transform, [source keys]) ; absent: no counterpart"""
    if pair not in _expected:
        src, tgt = (model_configs.resolve(x) for x in pair)
        out = {}
        if pair[0] in PRESETS:
            out = {k: ("same", [block_of(pair[0], k)]) for k in tgt.keys()}
        else:
            for k in src.keys():
                r = relocate(pair[0], k)
                if r is not None:
                    t, tr, pos = r
                    _, parts = out.setdefault(t, (tr, {}))
                    assert pos not in parts, (k, t)
                    parts[pos] = k
            out = {t: (tr, [p[i] for i in range(len(p))]) for t, (tr, p) in out.items()}
        _expected[pair] = out
    return _expected[pair]


def transform(tr, tensors):
    if tr == "transposed":
        return tensors[0].transpose(0, 1)
    if tr == "conv":
        return tensors[0][..., None, None]
    if tr == "joined":
        return torch.cat(tensors, dim=0)
    return tensors[0]


def method_of(pair):
    ms = [m for m in merge_methods.get_all_converters() if ends(m) == pair]
    return ms[0] if ms else None


def ends(m):
    (src,) = m.get_input_configs().args_varargs(1)
    return src.identifier, m.get_return_config([src], {}).identifier


# ----------------------------------------------------------------- abstract tensors
MOVES = {"aten::" + x for x in (
    "t", "transpose.int", "permute", "view", "_unsafe_view", "reshape", "_reshape_alias", "cat", "clone", "unsqueeze", "squeeze", "squeeze.dim", "squeeze.dims", "slice.Tensor", "select.int", "detach", "alias", "contiguous",
    "expand", "stack", "concat", "flatten.using_ints", "unflatten.int", "numpy_T", "movedim.int", "chunk", "split.Tensor", "unbind.int", "narrow", "numpy_T", "swapaxes", "hstack", "vstack", "lift_fresh", "as_strided")}


class Opaque(torch.Tensor):
    """a tensor without contents: shape, dtype and the operations that made it"""
    @staticmethod
    def __new__(cls, meta, expr):
        r = torch.Tensor._make_wrapper_subclass(cls, meta.shape, strides=meta.stride(), storage_offset=meta.storage_offset(), dtype=meta.dtype, device="cpu")
        r.meta, r.expr = meta, expr
        return r

    LOG = []

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name + (f".{func._schema.overload_name}" if func._schema.overload_name else "")
        if func._schema.is_mutable:
            cls.LOG.append(("writes", name))
        elif name not in MOVES:
            cls.LOG.append(("computes", name))
        strip = lambda x: x.meta if isinstance(x, Opaque) else x
        kw = {**kwargs, "device": "meta"} if "device" in kwargs else kwargs
        metas = func(*tree_map(strip, args), **tree_map(strip, kw))
        flat, _ = tree_flatten(metas)
        if not all(isinstance(x, torch.Tensor) for x in flat):
            raise Inspected(name)
        i = iter(range(len(flat)))
        return tree_map(lambda m: Opaque(m, ("op", func, args, kwargs, next(i))), metas)

    def __repr__(self):
        return f"Opaque({self.expr[1] if self.expr[0] == 'source' else self.expr[1]})"

    def __bool__(self):
        raise Inspected("bool")

    def item(self):
        raise Inspected("item")

    def tolist(self):
        raise Inspected("tolist")


class Inspected(Exception):
    pass


def evaluate(t, sources):
    """the value of an abstract tensor for given contents"""
    if not isinstance(t, Opaque):
        return t
    if t.expr[0] == "source":
        return sources[t.expr[1]]
    _, func, args, kwargs, i = t.expr
    res = func(*tree_map(lambda x: evaluate(x, sources), args), **tree_map(lambda x: evaluate(x, sources), kwargs))
    return tree_flatten(res)[0][i]


class Source(dict):
    """abstract model of a config that lacks the given keys; records the keys that are looked up"""
    def __init__(self, config, lacks=()):
        super().__init__()
        self.model_config, self.lacks, self.looked_up = config, set(lacks), []

    def __getitem__(self, k):
        metadata = self.model_config.keys().get(k)
        if metadata is None or k in self.lacks:
            raise merging.StateDictKeyError(k)
        self.looked_up.append(k)
        if k not in self:
            dict.__setitem__(self, k, Opaque(torch.empty(tuple(metadata.shape), dtype=metadata.dtype, device="meta"), ("source", k)))
        return dict.__getitem__(self, k)

    def __hash__(self):
        return id(self)


StateDict.register(Source)


def call(m, src, key):
    try:
        return m.merge_key((src,), {}, key, None)
    except merging.StateDictKeyError as e:
        return e


def h_key(pair, keys):
    def h(c):
        m = method_of(pair)
        src, tgt = (model_configs.resolve(x) for x in pair)
        want = expected(pair)
        for key in keys:
            Opaque.LOG.clear()
            tr, parts = want.get(key, (None, None))
            source = Source(src)
            res = call(m, source, key)
            if parts is None:
                c.cover("missing")
                c.prove("reported missing if the source has no counterpart", isinstance(res, merging.StateDictKeyError), detail=key)
                continue
            c.prove("computed if the source has a counterpart", isinstance(res, torch.Tensor), detail=f"{key}: {type(res).__name__}")
            if not isinstance(res, torch.Tensor):
                continue
            c.cover("relocated")
            c.prove("no source tensor is written", not any(k == "writes" for k, _ in Opaque.LOG), detail=f"{key}: {Opaque.LOG[:4]}")
            metadata = tgt.keys()[key]
            shape = tuple(metadata.shape) if pair[0] not in PRESETS else ()
            c.prove("the shape is the one that the target config declares", tuple(res.shape) == shape, detail=f"{key}: {tuple(res.shape)} instead of {tuple(metadata.shape)}")
            c.prove("made of the corresponding source tensors", same(c, res, tr, parts, src, key), detail=key)
            for p in dict.fromkeys(source.looked_up):
                r = call(m, Source(src, lacks=[p]), key)
                if p in parts:
                    c.prove("missing if the model lacks a corresponding key", isinstance(r, merging.StateDictKeyError), detail=f"{key} without {p}")
                else:
                    c.prove("other keys of the model do not matter", isinstance(r, torch.Tensor) and same(c, r, tr, parts, src, key), detail=f"{key} without {p}")
    return h


def same(c, res, tr, parts, src, key):
    """whether the result has the expected contents, whatever the contents of the model"""
    if not isinstance(res, Opaque):
        return False
    if tr == "same" and res.expr[0] == "source":
        return res.expr[1] == parts[0]
    used = set()

    def collect(t):
        if isinstance(t, Opaque):
            if t.expr[0] == "source":
                used.add(t.expr[1])
            else:
                for x in tree_flatten((t.expr[2], t.expr[3]))[0]:
                    collect(x)
    collect(res)
    # every element has a tag of its own; moves of elements do not depend on their values
    names = list(dict.fromkeys(parts + sorted(used)))
    computes = any(k == "computes" for k, _ in Opaque.LOG)
    sources, n = {}, 1
    for x in names:
        md = src.keys()[x]
        size = math.prod(md.shape)
        tags = torch.arange(n, n + size, dtype=torch.int64).reshape(tuple(md.shape))
        sources[x] = (tags * 7919 % 65521 / 65521 - 0.5).to(md.dtype) if computes else tags
        n += size
    try:
        got = evaluate(res, sources)
    except (RuntimeError, TypeError):
        c.cover("not decided")
        return True
    exp = transform(tr, [sources[p] for p in parts])
    return got.shape == exp.shape and torch.equal(got, exp)


def h_relation(pair):
    """the correspondence itself: between existing keys; each source key once, none lost"""
    def h(c):
        src, tgt = (model_configs.resolve(x) for x in pair)
        want = expected(pair)
        c.prove("targets are keys of the target config", all(t in tgt.keys() for t in want), detail=str([t for t in want if t not in tgt.keys()][:3]))
        c.prove("sources are keys of the source config", all(p in src.keys() for _, ps in want.values() for p in ps), detail=str([p for _, ps in want.values() for p in ps if p not in src.keys()][:3]))
        c.prove("shapes agree", all(tuple(tgt.keys()[t].shape) == tuple(transform(tr, [torch.empty(tuple(src.keys()[p].shape), device="meta") for p in ps]).shape) for t, (tr, ps) in want.items()) if pair[0] not in PRESETS else True)
        count = collections.Counter(p for _, ps in want.values() for p in ps)
        if pair[0] in PRESETS:
            c.prove("each block weight is used", all(count[k] >= 1 for k in src.keys()), detail=str([k for k in src.keys() if not count[k]]))
        elif pair not in COMPONENT:
            c.prove("each source tensor ends up in exactly one target key", all(count[k] == 1 for k in src.keys()), detail=str([k for k in src.keys() if count[k] != 1][:3]))
        else:
            c.prove("no source tensor is used twice", all(count[k] <= 1 for k in src.keys()))
        c.prove("the conversion is registered", method_of(pair) is not None)
    return h


def proofs():
    out = []
    for pair in PAIRS:
        out.append(Proof(f"{pair[0]} to {pair[1]}: correspondence", h_relation(pair), budget=20, witness=None))
        if method_of(pair) is None:
            continue
        keys = list(model_configs.resolve(pair[1]).keys())
        n = 200
        for i in range(0, len(keys), n):
            out.append(Proof(f"{pair[0]} to {pair[1]}: keys {i} to {min(i + n, len(keys)) - 1}", h_key(pair, keys[i:i + n]), budget=30, witness=None))
    return out


# ----------------------------------------------------------------- concrete cross-check
def small(shape, seed, index, dtype):
    """a small tensor with the rank of the shape and values of its own"""
    sh = [min(int(x), 2 + (seed + index + j) % 2) if x > 1 else int(x) for j, x in enumerate(shape)]
    n = math.prod(sh)
    return (torch.arange(n, dtype=torch.float64) + 8 * index).reshape(sh).to(torch.float64)


def case_convert(source, target, seed, drop=0, via="convert"):
    """a whole model with small tensors"""
    rng = random.Random(seed)
    pair = source, target
    src, tgt = (model_configs.resolve(x) for x in pair)
    want = expected(pair)
    model = {}
    for i, (k, md) in enumerate(src.keys().items()):
        model[k] = small(md.shape, seed, i, md.dtype)
        if "_proj." in k:  # the parts of a concatenation fit together
            model[k] = (torch.arange(math.prod([2] * len(md.shape)), dtype=torch.float64) + 8 * i).reshape([2] * len(md.shape))
    order = list(model)
    rng.shuffle(order)
    lacks = set(rng.sample(order, min(drop, len(order) - 1)))
    model = {k: model[k] for k in order if k not in lacks}
    backup = {k: v.clone() for k, v in model.items()}
    recipe = LiteralRecipeNode(model, model_config=src, merge_space="weight")
    m = method_of(pair)
    check(m is not None, "the conversion is not registered")
    node = sd_mecha.convert(recipe, tgt) if via == "convert" else m(recipe)
    out = sd_mecha.merge(node, merge_device=None, output_device=None, merge_dtype=None, output_dtype=None, threads=0, strict_weight_space=False, check_mandatory_keys=False, omit_extra_keys=False, omit_ema=False, total_buffer_size=2**20)
    for t in tgt.keys():
        tr, parts = want.get(t, (None, None))
        if parts is None or any(p in lacks for p in parts):
            check(t not in out, "a key without counterpart was made up", key=t)
            continue
        check(t in out, "a key was lost", key=t, sources=parts)
        exp = transform(tr, [backup[p] for p in parts])
        check(out[t].shape == exp.shape and torch.equal(out[t], exp), "a key does not hold the corresponding source tensor", key=t, sources=parts, transform=tr, got=list(out[t].shape), expected=list(exp.shape), values=out[t].flatten()[:3].tolist())
    check(set(out) <= set(tgt.keys()), "the result has unknown keys", keys=sorted(set(out) - set(tgt.keys()))[:3])
    if pair[0] not in PRESETS and pair not in COMPONENT:
        check(sum(t.numel() for t in out.values()) == sum(backup[p].numel() for _, ps in want.values() if not any(p in lacks for p in ps) for p in ps), "elements were lost or duplicated")
    check(all(torch.equal(model[k], backup[k]) for k in model), "a source tensor was modified")


def case_shapes(source, target):
    """the tensors that are transformed, and a sample of the others, with their real shapes"""
    pair = source, target
    src, tgt = (model_configs.resolve(x) for x in pair)
    m = method_of(pair)
    seen = collections.Counter()
    for i, (t, (tr, parts)) in enumerate(expected(pair).items()):
        if seen[tr] >= (3 if tr == "same" else 4) or sum(math.prod(src.keys()[p].shape) for p in parts) > 2**24:
            continue
        seen[tr] += 1
        model = {p: torch.arange(math.prod(src.keys()[p].shape), dtype=torch.float64).reshape(tuple(src.keys()[p].shape)) + 0.25 * j for j, p in enumerate(parts)}
        backup = {k: v.clone() for k, v in model.items()}
        out = sd_mecha.merge(m(LiteralRecipeNode(model, model_config=src, merge_space="weight")), merge_device=None, output_device=None, merge_dtype=None, output_dtype=None, threads=0, strict_weight_space=False, check_mandatory_keys=False, omit_extra_keys=False, omit_ema=False, total_buffer_size=2**20)
        check(t in out, "a key was lost", key=t)
        check(tuple(out[t].shape) == (tuple(tgt.keys()[t].shape) if source not in PRESETS else ()), "the shape is not the one of the target config", key=t, got=list(out[t].shape), expected=list(tgt.keys()[t].shape))
        check(torch.equal(out[t], transform(tr, [backup[p] for p in parts])), "a key does not hold the corresponding source tensor", key=t)


CASES = {"convert": case_convert, "shapes": case_shapes}


def suite(S):
    for pair in PAIRS:
        S.run("convert", source=pair[0], target=pair[1], seed=S.rng.randrange(10**6))
    for pair in PAIRS:
        S.run("shapes", source=pair[0], target=pair[1])
    i = 0
    while S.more() and i < (8 if not S.thorough else 200):
        pair = S.rng.choice(PAIRS)
        S.run("convert", source=pair[0], target=pair[1], seed=S.rng.randrange(10**6), drop=S.rng.choice([1, 5, 100, 600]), via=S.rng.choice(["convert", "method"]))
        i += 1
