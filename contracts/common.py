"""Shared parts of the concrete cross-checks (executed on the untouched code)."""
import contextlib
import inspect
import json
import math
import os
import pathlib
import random
import shutil
import struct
import tempfile
import torch
import sd_mecha
from sd_mecha import serialization, recipe_nodes, merging
from sd_mecha.extensions import merge_methods, merge_spaces, model_configs
from sd_mecha.extensions.merge_methods import Parameter, Return, StateDict, merge_method
from sd_mecha.recipe_nodes import LiteralRecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNode


def check(cond, msg="", **info):
    if not cond:
        raise AssertionError(f"{msg} {json.dumps(info, default=repr)[:900] if info else ''}".strip())


def same_value(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, RecipeNode):
        return node_diff(a, b) is None
    if isinstance(a, torch.Tensor):
        return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)
    return a == b


def config_id(c):
    return getattr(c, "identifier", None)


def node_diff(a, b, path="root"):
    """first difference of two recipe graphs, or None"""
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} became {type(b).__name__}"
    if isinstance(a, LiteralRecipeNode):
        if not same_value(a.value, b.value):
            return f"{path}: literal {a.value!r} became {b.value!r}"
        if config_id(a.model_config) != config_id(b.model_config):
            return f"{path}: config {config_id(a.model_config)} became {config_id(b.model_config)}"
        if a.merge_space != b.merge_space:
            return f"{path}: space {a.merge_space} became {b.merge_space}"
    elif isinstance(a, ModelRecipeNode):
        if a.path != b.path:
            return f"{path}: path {a.path} became {b.path}"
        if config_id(a.model_config) != config_id(b.model_config):
            return f"{path}: config {config_id(a.model_config)} became {config_id(b.model_config)}"
        if a.merge_space != b.merge_space:
            return f"{path}: space {a.merge_space} became {b.merge_space}"
    elif isinstance(a, MergeRecipeNode):
        if a.merge_method is not b.merge_method:
            return f"{path}: method {a.merge_method} became {b.merge_method}"
        if len(a.args) != len(b.args):
            return f"{path}: {len(a.args)} args became {len(b.args)}"
        if list(a.kwargs) != list(b.kwargs):
            return f"{path}: kwargs {list(a.kwargs)} became {list(b.kwargs)}"
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            d = node_diff(x, y, f"{path}.{i}")
            if d:
                return d
        for k in a.kwargs:
            d = node_diff(a.kwargs[k], b.kwargs[k], f"{path}.{k}")
            if d:
                return d
    return None


_dir = None


def scratch_dir():
    base = os.environ.get("VC_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(dir=base)


@contextlib.contextmanager
def scratch():
    d = scratch_dir()
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# an independent encoder and decoder of safetensors files
ST_DTYPES = {
    "F64": (torch.float64, 8), "F32": (torch.float32, 4), "F16": (torch.float16, 2), "BF16": (torch.bfloat16, 2),
    "I64": (torch.int64, 8), "I32": (torch.int32, 4), "I16": (torch.int16, 2), "I8": (torch.int8, 1), "U8": (torch.uint8, 1),
    "BOOL": (torch.bool, 1), "F8_E4M3": (torch.float8_e4m3fn, 1), "F8_E5M2": (torch.float8_e5m2, 1),
    "U16": (torch.uint16, 2), "U32": (torch.uint32, 4), "U64": (torch.uint64, 8),
}
ST_NAMES = {v[0]: k for k, v in ST_DTYPES.items()}


def raw_bytes(t):
    """bytes of the elements in row-major order, element by element"""
    t = t.detach()
    if t.numel() == 0:
        return b""
    size = ST_DTYPES[ST_NAMES[t.dtype]][1]
    c = torch.empty(t.shape, dtype=t.dtype)
    c.copy_(t.resolve_neg())
    ints = {1: torch.uint8, 2: torch.int16, 4: torch.int32, 8: torch.int64}[size]
    flat = c.reshape(-1).view(ints).tolist()
    fmt = {1: "B", 2: "h", 4: "i", 8: "q"}[size]
    return struct.pack(f"<{len(flat)}{fmt}", *flat)


def from_raw(data, dtype, shape):
    size = ST_DTYPES[ST_NAMES[dtype]][1]
    n = len(data) // size
    if n == 0:
        return torch.empty(shape, dtype=dtype)
    fmt = {1: "B", 2: "h", 4: "i", 8: "q"}[size]
    ints = {1: torch.uint8, 2: torch.int16, 4: torch.int32, 8: torch.int64}[size]
    return torch.tensor(struct.unpack(f"<{n}{fmt}", data), dtype=ints).view(dtype).reshape(shape)


def write_st(path, tensors, metadata=None, order=None, header_pad=0, gap=0):
    header, data = {}, b""
    if metadata is not None:
        header["__metadata__"] = metadata
    for k in (order or tensors):
        b = raw_bytes(tensors[k])
        header[k] = {"dtype": ST_NAMES[tensors[k].dtype], "shape": list(tensors[k].shape), "data_offsets": [len(data), len(data) + len(b)]}
        data += b
    if order:
        header = {k: header[k] for k in (["__metadata__"] if metadata is not None else []) + list(tensors)}
    h = json.dumps(header).encode() + b" " * header_pad
    pathlib.Path(path).write_bytes(struct.pack("<Q", len(h)) + h + data)
    return header


def read_st(path):
    """(metadata, {key: tensor}, header); checks the format: a valid header and regions tiling the data section"""
    b = pathlib.Path(path).read_bytes()
    check(len(b) >= 8, "file shorter than 8 bytes", size=len(b))
    n = struct.unpack("<Q", b[:8])[0]
    check(8 + n <= len(b), "header longer than the file", n=n, size=len(b))
    header = json.loads(b[8:8 + n].decode("utf-8"))
    data = b[8 + n:]
    meta = header.pop("__metadata__", {})
    check(isinstance(meta, dict) and all(isinstance(v, str) for v in meta.values()), "metadata must map text to text", meta=meta)
    regions, out = [], {}
    for k, v in header.items():
        dtype, size = ST_DTYPES[v["dtype"]]
        lo, hi = v["data_offsets"]
        check(0 <= lo <= hi <= len(data), "region outside of the data section", key=k, lo=lo, hi=hi, size=len(data))
        check(hi - lo == size * math.prod(v["shape"]), "region size differs from shape and dtype", key=k, entry=v)
        regions.append((lo, hi))
        out[k] = from_raw(data[lo:hi], dtype, v["shape"])
    end = 0
    for lo, hi in sorted(regions):
        check(lo == end, "regions do not tile the data section", regions=sorted(regions)[:20])
        end = hi
    check(end == len(data), "data section is longer than the regions", end=end, size=len(data))
    return meta, out, header


def same_bits(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and raw_bytes(a) == raw_bytes(b)


_methods = {}


def define_method(source, name, env=None, fresh=False, **kw):
    """a merge method from source text, so that its signature can be generated"""
    key = (source, name)
    if fresh or key not in _methods:
        ns = dict(Parameter=Parameter, Return=Return, StateDict=StateDict, Tensor=torch.Tensor, torch=torch, merge_method=merge_method)
        ns.update(env or {})
        exec(source, ns)
        _methods[key] = merge_method(ns[name], **kw)
    return _methods[key]


def synthetic_config(identifier, keys, register=False):
    """keys: {key: (shape, dtype name, aliases, optional)} or {component: {...}} given as {component: {key: ...}}"""
    comps = {}
    for comp, ks in keys.items():
        comps[comp] = {k: model_configs.KeyMetadata(None if sh is None else list(sh), dt, list(al), opt) for k, (sh, dt, al, opt) in ks.items()}
    cfg = model_configs.ModelConfigImpl(identifier, comps)
    if register and identifier not in {c.identifier for c in model_configs.get_all()}:
        model_configs.register_aux(cfg)
    return cfg


def interleaved(works, seed, density):
    """runs the functions in threads; at random lines of streaming.py a thread hands over to another one"""
    import sys
    import threading
    import time
    errors = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def body(n, f):
        r = random.Random(seed * 101 + n)

        def local(frame, event, arg):
            if r.random() < density:
                time.sleep(r.choice([0, 0, 1e-6, 2e-4]))
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.endswith("streaming.py") else None
        sys.settrace(tracer)
        try:
            f()
        except BaseException as e:
            errors.append(f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
    # a thread is not known by its name
    th = [threading.Thread(target=body, args=(n, f), **({"name": "w"} if seed % 2 else {})) for n, f in enumerate(works)]
    try:
        [t.start() for t in th]
        [t.join() for t in th]
    finally:
        sys.setswitchinterval(old)
    check(not errors, "a thread failed", errors=errors[:3])
