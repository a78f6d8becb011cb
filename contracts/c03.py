"""C03 Tensors are encoded by their logical content, whatever their memory layout"""
import ctypes
import numpy
from vc.report import Proof
from .common import *
from sd_mecha import streaming
from sd_mecha.streaming import OutSafetensorsDict, TensorMetadata

ID = "C03"
LEVEL = "proof"
TRUSTED = [
    "torch: contiguous() is the tensor itself or a copy that stores the elements' values in row-major order from data_ptr() on; resolve_neg() materialises a negation view; "
    "numel() and element_size() are the number of elements and their size; data_ptr() is 0 only for tensors without elements",
    "ctypes.cast and numpy.ctypeslib.as_array view the memory at the pointer; ndarray.tobytes copies it",
    "sys.byteorder is 'little' (the branch for big-endian machines is not reachable here)",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["strided CPU tensors of the dtypes of the format", "memory layout is abstracted: either the elements lie in row-major order at data_ptr(), or the memory there is arbitrary"]
PROOF_BUDGET = 40
SUITE_BUDGET = 7


# ----------------------------------------------------------------- contracts
def tensor_model(c, dtype):
    """an arbitrary tensor: n logical elements L(i), arbitrary layout"""
    import z3
    from vc.values import Model, SInt, SBytes, mkint, zint
    from vc import rt
    from vc.core import Unsupported, pyraise
    I = z3.IntSort()
    k = dtype.itemsize
    n = c.int("numel", 0)
    L = c.fun("element", I, I)
    byte = c.fun("byte_of", I, I, I)       # byte j of an element value in little-endian order

    class Ptr(Model):
        def __init__(self, mem):
            self.mem = mem

        def __eq__(self, o):
            if type(o) is int and o == 0:
                # a null pointer: only without elements
                return rt.core.ctx().branch(n == 0) and rt.core.ctx().choice(2, "null pointer") == 1
            return self is o

        def __bool__(self):
            return not (self == 0)

        def __ne__(self, o):
            return not (self == o)

        __hash__ = object.__hash__

    class Array(Model):
        pytype = numpy.ndarray

        def __init__(self, mem, nbytes):
            self.mem, self.nbytes = mem, nbytes

        def tobytes(self, *a):
            mem = self.mem
            return SBytes(self.nbytes, lambda i: byte(mem(i / k), i % k))

        def view(self, *a):
            raise Unsupported("view of the byte array")

    class T(Model):
        pytype = torch.Tensor

        def __init__(self, mem, contiguous, neg):
            self.mem, self.contig, self.neg = mem, contiguous, neg
            self.dtype, self.device = dtype, torch.device("cpu")

        def detach(self):
            return self

        cpu = detach

        def resolve_conj(self):
            return self

        def is_neg(self):
            return self.neg

        def is_contiguous(self, **kw):
            return self.contig

        def resolve_neg(self):
            return T(lambda i: L(i), True, False) if self.neg else self

        def contiguous(self, **kw):
            if self.contig:
                return self
            return T(lambda i: L(i), True, False)   # a copy, of the values

        def clone(self, **kw):
            return T(lambda i: L(i), self.contig, False) if self.contig else T(c.fun("memory", I, I), False, False)

        def flatten(self, *a):
            return self.contiguous()

        def reshape(self, *shape):
            if shape in ((-1,), ((-1,),)):
                return self.contiguous()
            raise Unsupported("reshape")

        def ravel(self):
            return self.contiguous()

        def numel(self):
            return mkint(n)

        nelement = numel

        def element_size(self):
            return k

        def data_ptr(self):
            return Ptr(self.mem)

        @property
        def itemsize(self):
            return k

        @property
        def nbytes(self):
            return mkint(n * k)

    def cast(p, typ):
        if type(p) is not Ptr:
            return NotImplemented
        if typ is not ctypes.POINTER(ctypes.c_ubyte):
            raise Unsupported("cast to another pointer type")
        return p

    def as_array(p, shape=None):
        if type(p) is not Ptr:
            return NotImplemented
        (total,) = shape
        return Array(p.mem, zint(total))

    c.overrides[ctypes.cast] = cast
    c.overrides[numpy.ctypeslib.as_array] = as_array
    c.overrides[ctypes.string_at] = lambda p, size: Array(p.mem, zint(size)).tobytes() if type(p) is Ptr else NotImplemented
    neg = dtype.is_floating_point and c.choice(2, "negation view") == 1
    contig = c.choice(2, "contiguous") == 1
    junk = c.fun("memory", I, I)
    mem = (lambda i: L(i)) if contig and not neg else (lambda i: junk(i))
    return T(mem, contig, neg), n, k, L, byte


def h_bytes(name):
    def h(c):
        import z3
        from vc.values import as_bytes
        t, n, k, L, byte = tensor_model(c, ST_DTYPES[name][0])
        out = as_bytes(streaming.tensor_to_bytes(t))
        i = c.int("i", 0)
        c.cover("encoded")
        c.prove("the encoding has number of elements times element size bytes", out.length == n * k)
        c.prove("every byte is the one of the logical element in row-major order", z3.Implies(i < n * k, out.at(i) == byte(L(i / k), i % k)))
    return h


def proofs():
    for name in ST_DTYPES:
        yield Proof(f"encoding of any {name} tensor", h_bytes(name), min_paths=2)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
def layouts(r, base):
    """views of one storage with their names"""
    n = base.numel()
    out = {"plain": base, "sliced": base[r.randrange(n // 2):], "stepped": base[::2], "reversed": base.flip(0), "one": base[n // 2], "none": base[:0],
           "offset1": base[1:]}
    m = base[:24].reshape(2, 3, 4)
    out |= {"t": m.transpose(0, 1), "perm": m.permute(2, 0, 1), "mid": m[:, 1], "col": m[..., 2], "inner": m[:, 1:, 1:3], "exp": m[:1].expand(5, 3, 4), "exp0": base[3:4].expand(7),
            "exps": base[3].expand(2, 2), "strided": base.as_strided((3, 3), (2, 5), 4), "overlap": base.as_strided((4, 4), (1, 1), 2), "cl": m[None].contiguous(memory_format=torch.channels_last),
            "diag": base[:25].reshape(5, 5).diagonal(), "unf": base.unfold(0, 5, 2), "empty2": m[:, :0], "sq": m[:1, :1, :1].squeeze(), "T0": base[:6].reshape(6, 1).mT, "row": base[:6].reshape(1, 6)[:, ::3]}
    return out


def neg_views(r):
    z = torch.complex(torch.tensor([r.uniform(-1, 1) for _ in range(12)]), torch.tensor([r.uniform(-1, 1) for _ in range(12)])).reshape(3, 4)
    q = z.conj().imag
    return {"neg": q, "negt": q.mT, "negs": q[1:, ::2], "neg0": q[1, 2], "negd": z.to(torch.complex128).conj().imag, "notneg": z.imag, "real": z.real, "nege": q[:, :1].expand(3, 3)}


def case_layouts(seed, dtype, buffer, via):
    r = random.Random(seed)
    dt, size = ST_DTYPES[dtype]
    n = r.randrange(30, 60)
    raw = bytes(r.randrange(2) for _ in range(n)) if dtype == "BOOL" else bytes(r.randrange(256) for _ in range(n * size))
    ints = {1: torch.uint8, 2: torch.int16, 4: torch.int32, 8: torch.int64}[size]
    flat = from_raw(raw, dt, [n])
    # the expected bytes come from the same views of the element numbers
    index = torch.arange(n)
    elems = [raw[i * size:(i + 1) * size] for i in range(n)]
    try:
        views = layouts(random.Random(seed), flat)
    except (NotImplementedError, RuntimeError):
        views = {"plain": flat, "sliced": flat[3:], "stepped": flat[::2], "none": flat[:0], "t": flat[:24].reshape(2, 3, 4).transpose(0, 1), "exp": flat[3:4].expand(7)}
        iviews = {"plain": index, "sliced": index[3:], "stepped": index[::2], "none": index[:0], "t": index[:24].reshape(2, 3, 4).transpose(0, 1), "exp": index[3:4].expand(7)}
    else:
        iviews = layouts(random.Random(seed), index)
    want = {k: b"".join(elems[i] for i in v.flatten().tolist()) for k, v in iviews.items()}
    encode_and_check(views, want, buffer, via)
    check(raw_bytes(flat) == raw, "the encoding changed the tensor")


def encode_and_check(views, want, buffer, via):
    if via == "function":
        for k, v in views.items():
            got = streaming.tensor_to_bytes(v)
            check(bytes(got) == want[k], "wrong bytes", layout=k, dtype=str(v.dtype), got=bytes(got)[:64].hex(), want=want[k][:64].hex())
        return
    with scratch() as d:
        o = OutSafetensorsDict(d / "o.safetensors", {}, None, buffer)
        for k, v in views.items():
            o[k] = v
        o.close()
        b = (d / "o.safetensors").read_bytes()
        n = struct.unpack("<Q", b[:8])[0]
        h = json.loads(b[8:8 + n])
        for k, v in views.items():
            lo, hi = h[k]["data_offsets"]
            check(b[8 + n + lo:8 + n + hi] == want[k], "wrong bytes in the file", layout=k, dtype=str(v.dtype), shape=list(v.shape))
            check(h[k]["shape"] == list(v.shape), "wrong shape in the file", layout=k)


def case_negations(seed, dtype, via):
    r = random.Random(seed)
    views = {k: v for k, v in neg_views(r).items()}
    want = {k: struct.pack(f"<{v.numel()}{'f' if v.dtype == torch.float32 else 'd'}", *v.flatten().tolist()) for k, v in views.items()}
    encode_and_check(views, want, 64, via)


def case_negated(seed, dtype, via):
    """lazily negated views, of numbers of every type that can be negated"""
    r = random.Random(seed)
    dt = ST_DTYPES[dtype][0]
    base = torch.tensor([[r.randrange(1, 100) for _ in range(6)] for _ in range(4)], dtype=torch.int64).to(dt)
    views, want = {}, {}
    for i, f in enumerate((lambda t: t, lambda t: t.T, lambda t: t[1:3], lambda t: t[:, ::2], lambda t: t[2, 3], lambda t: t[:, 1:2].expand(4, 3))):
        v = torch._neg_view(f(base))
        views[f"n{i}"] = v
        want[f"n{i}"] = raw_bytes(torch.tensor([-x for x in f(base).flatten().tolist()], dtype=torch.int64).to(dt).reshape(v.shape))
    encode_and_check(views, want, r.choice([0, 50]), via)


def case_special(via):
    vals = [0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1e-45, 3.4e38, -1.5]
    t = torch.tensor(vals)
    encode_and_check({"s": t, "p": torch.nn.Parameter(t.clone()), "g": (t * 1).requires_grad_(False), "r": t.clone().requires_grad_(True)},
                     {k: struct.pack("<8f", *vals) for k in "spgr"}, 0, via)


def case_shared(seed):
    """views of one storage are written one after another while the storage is changed in between"""
    r = random.Random(seed)
    with scratch() as d:
        base = torch.arange(20.0)
        o = OutSafetensorsDict(d / "o.safetensors", {}, None, r.choice([0, 1000]))
        o["a"] = base[2:8]
        want_a = base[2:8].tolist()
        base.mul_(3)
        o["b"] = base.reshape(4, 5).T
        want_b = base.reshape(4, 5).T.flatten().tolist()
        base.zero_()
        o.close()
        _, got, _ = read_st(d / "o.safetensors")
        check(got["a"].tolist() == want_a and got["b"].flatten().tolist() == want_b, "a tensor written earlier followed its storage")


def case_strides(seed, dtype, via):
    """any strides and offset over one storage: overlapping, repeated, padded"""
    r = random.Random(seed)
    dt, size = ST_DTYPES[dtype]
    raw = bytes(r.randrange(2) for _ in range(200)) if dtype == "BOOL" else bytes(r.randrange(256) for _ in range(200 * size))
    flat = from_raw(raw, dt, [200])
    views, want = {}, {}
    for i in range(8):
        nd = r.choice([1, 2, 2, 2, 3, 4])
        shape = [r.choice([1, 2, 3, 4, 5]) for _ in range(nd)]
        near = [0, 1, 1, 2, 3, *shape, shape[-1] + 1]
        stride = [r.choice(near) for _ in range(nd)]
        offset = r.randrange(0, 200 - sum((s - 1) * t for s, t in zip(shape, stride)))
        views[f"v{i}"] = torch.as_strided(flat, shape, stride, offset)
        index = torch.as_strided(torch.arange(200), shape, stride, offset).flatten().tolist()
        want[f"v{i}"] = b"".join(raw[j * size:(j + 1) * size] for j in index)
    encode_and_check(views, want, r.choice([0, 100, 5000]), via)


def case_large(n, dtype, via):
    dt = ST_DTYPES[dtype][0]
    base = (torch.arange(n * 3) % 251 + torch.arange(n * 3) // 65521).to(dt).reshape(3, n)
    if not base.is_floating_point() and base.element_size() == 8:
        base += 2**62 + 1
    views = {"whole": base, "turned": base.T, "row": base[1], "rest": base[1:, 5:], "same": base[:1].expand(2, n)}
    want = {k: raw_bytes(torch.stack([x.clone() for x in v.unbind(0)]) if v.ndim > 1 and len(v) < 9 else v.clone(memory_format=torch.contiguous_format)) for k, v in views.items()}
    encode_and_check(views, want, 1 << 16, via)


CASES = {f.__name__[5:]: f for f in (case_strides, case_large, case_layouts, case_negations, case_special, case_negated, case_shared)}


def suite(S):
    r = S.rng
    for via in ("function", "file"):
        for n in ST_DTYPES:
            S.run("layouts", seed=1, dtype=n, buffer=50, via=via)
        for s in range(3):
            S.run("negations", seed=s, dtype="F32", via=via)
        S.run("special", via=via)
        for n in ("I8", "I16", "I32", "I64", "F16", "BF16", "F32", "F64"):
            S.run("negated", seed=3, dtype=n, via=via)
    S.run("shared", seed=0)
    for n in ST_DTYPES:
        for i in range(3):
            S.run("strides", seed=i, dtype=n, via="function" if i % 2 else "file")
    for n, t in ((400000, "F32"), (3 << 20, "I8"), (30000, "I64"), (30000, "F64"), (70000, "BF16")):
        S.run("large", n=n, dtype=t, via="function")
    S.run("large", n=300000, dtype="F16", via="file")
    while S.more():
        S.run("strides", seed=r.randrange(10**9), dtype=r.choice(list(ST_DTYPES)), via=r.choice(["function", "file"]))
        S.run("layouts", seed=r.randrange(10**9), dtype=r.choice(list(ST_DTYPES)), buffer=r.choice([0, 7, 100, 10000]), via=r.choice(["function", "file"]))
        S.run("negations", seed=r.randrange(10**9), dtype="F32", via=r.choice(["function", "file"]))
        S.run("shared", seed=r.randrange(10**9))
