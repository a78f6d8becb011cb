"""C02 A streamed input file yields exactly the stored tensors"""
from vc.report import Proof
from .common import *
from sd_mecha.streaming import InSafetensorsDict, StateDictKeyError
from sd_mecha import streaming

ID = "C02"
LEVEL = "proof"
TRUSTED = [
    "BufferedReader.read/readinto return as many bytes as are left in the file, up to the requested number; seek sets the position",
    "torch.frombuffer views count elements at the given offset of the buffer and raises ValueError outside of it; reshape keeps the elements",
    "struct.unpack('<Q') and json.loads decode what the format defines",
    "threading.Lock is a mutex; a dictionary read is atomic",
    "the rewriting of vc/instrument.py and the models of vc/models.py; z3, cvc5",
]
ASSUMPTIONS = ["the header of the file is well-formed: for every tensor 0 <= begin <= end and end - begin = number of elements times element size",
               "the decoding of header numbers and JSON is the dependency's"]
PROOF_BUDGET = 60
SUITE_BUDGET = 8


# ----------------------------------------------------------------- contracts
class World:
    """an arbitrary safetensors file and a reader of it in an arbitrary reachable state"""

    def __init__(self, c, dtype="F32", constructed=False):
        from vc.models import GMap, GFile, Inode, GLock, GShape, GPath, JsonText
        from vc.values import SVal, SInt, SByteArray, mkint
        import z3
        from vc.strings import SStr
        self.c = c
        c.model_bytearray = True
        self.item = streaming.DTYPE_MAPPING[dtype][1]
        self.torch_dtype = streaming.DTYPE_MAPPING[dtype][0]
        F = c.fun("file", z3.IntSort(), z3.IntSort())
        self.F = F
        self.S = c.int("file_size", 0)
        self.H = c.int("header_size", 2, 2**64 - 1)
        self.D = c.int("buffer_size")
        self.key = SVal("key", str)
        self.o0, self.n = c.int("begin", 0), c.int("numel", 0)
        self.o1 = self.o0 + self.n * self.item
        self.shape = GShape(self.n, list)
        self.entry = {"dtype": dtype, "shape": self.shape, "data_offsets": [mkint(self.o0), mkint(self.o1)]}
        self.meta = {"a": "b"}
        c.assume(self.key.e != __import__("vc.values", fromlist=["lit"]).lit("__metadata__"))
        self.count = c.int("tensors", 1)
        has_meta = c.choose([False, True], "metadata")
        self.has_meta = has_meta

        def elem(k):
            a, m = c.int("b", 0), c.int("n", 0)
            return {"dtype": dtype, "shape": GShape(m, list), "data_offsets": [mkint(a), mkint(a + m * self.item)]}
        self.header = GMap(elem, length=self.count + int(has_meta), name="header")
        self.header.track("__metadata__", has_meta, self.meta)
        self.header.track(self.key, True, self.entry)
        self.inode = Inode(lambda i: F(i), self.S)
        self.inode.mark(z3.IntVal(0), z3.IntVal(8), ("u64", self.H))
        self.inode.mark(z3.IntVal(8), self.H, ("text", JsonText(self.header, None)))
        self.path = GPath("x.safetensors")
        c.fs = {self.path: self.inode}
        self.reader = None
        if not constructed:
            r = object.__new__(InSafetensorsDict)
            r.default_buffer_size = SInt(self.D)
            r.file_path = self.path
            r.header = self.header
            r.header_size = SInt(self.H)
            r.file = GFile(self.inode, c.int("pos", 0), True, False)
            r.buffer, r.buffer_start_offset = None, None
            self.reader = r
            self.havoc()
            r.lock = GLock(self.havoc, self.released)

    def havoc(self):
        """any state that earlier or concurrent reads can leave behind"""
        from vc.values import SByteArray, SInt
        import z3
        c, r = self.c, self.reader
        L, b = c.int("buffered", 0), c.int("buffer_start", 0)
        c.assume(z3.Implies(L > 0, b + L <= self.S))
        c.assume(b >= 8 + self.H)
        r.buffer = SByteArray(L, lambda i, b=b: self.F(b + i))
        r.buffer.exports = 1
        r.buffer_start_offset = SInt(b)
        if r.file is not None:
            r.file.pos = c.int("pos", 0)

    def invariant(self):
        import z3
        from vc.values import zint
        c, r = self.c, self.reader
        i = c.int("i")
        b, L = zint(r.buffer_start_offset), r.buffer.length
        c.prove("the buffer holds exactly the bytes of the file from its start offset on",
                z3.Implies(z3.And(0 <= i, i < L), z3.And(r.buffer.at(i) == self.F(b + i), b + L <= self.S)))

    def released(self):
        self.invariant()
        self.havoc()

    def check_tensor(self, t):
        import z3
        c = self.c
        total = self.o1 - self.o0
        i = c.int("i", 0)
        c.prove("a tensor is only returned if the file holds all of its bytes", z3.Or(total == 0, 8 + self.H + self.o1 <= self.S))
        if isinstance(t, torch.Tensor) and not hasattr(t, "nbytes_"):
            pass
        from vc.models import ByteTensor
        if type(t) is ByteTensor:
            c.prove("the tensor has the number of bytes stored for the key", t.nbytes == total)
            c.prove("the tensor has the stored bytes", z3.Implies(i < total, t.at(i) == self.F(8 + self.H + self.o0 + i)))
            c.prove("the tensor has the stored dtype", t.dtype is self.torch_dtype)
            c.prove("the tensor has the stored shape", getattr(t.shape, "origin", t.shape) is self.shape)
        else:
            raise __import__("vc.core", fromlist=["Unsupported"]).Unsupported(f"result {type(t)}")


def h_read(dtype):
    def h(c):
        import z3
        w = World(c, dtype)
        c.assume(w.n > 0)
        try:
            t = w.reader[w.key]
        except (ValueError, OSError, EOFError, RuntimeError):
            c.prove("an error is raised only if the file ends before the end of the tensor", 8 + w.H + w.o1 > w.S)
            c.cover("truncated")
            return
        c.cover("read")
        w.check_tensor(t)
        w.invariant()
    return h


def h_empty(c):
    """a stored tensor without elements"""
    w = World(c, "F32")
    c.assume(w.n == 0)
    t = w.reader[w.key]
    c.prove("an empty tensor has the stored shape and dtype", getattr(t.shape, "origin", t.shape) is w.shape and t.dtype == torch.float32)
    w.invariant()


def h_missing(c):
    """any key that the header does not list, and the metadata entry"""
    from vc.values import SVal
    w = World(c)
    q = SVal("query", str)
    e = w.header.entry(q)
    tensor = e[1] and e[0] != "__metadata__"
    try:
        w.reader[q]
        c.prove("only keys of stored tensors are readable", tensor)
    except StateDictKeyError:
        c.cover("missing")
        c.prove("only keys that are not stored are reported missing", not tensor)
    except Exception as ex:
        c.prove(f"a missing key is reported as a missing key, not as {type(ex).__name__}", tensor)


def h_iterate(c):
    from vc.values import mkbool
    import z3
    w = World(c)
    r = w.reader
    c.prove("the metadata entry is not counted", zint_(rt_call(len, r)) == w.count)
    for what in ("keys", "__iter__"):
        view = rt_call(getattr(r, what))
        at = view.at if hasattr(view, "at") else None
        if at is None:
            raise __import__("vc.core", fromlist=["Unsupported"]).Unsupported("iteration")
        c.prove(f"{what}: every stored key is iterated once", at(w.key) == [w.key])
        c.prove(f"{what}: the metadata entry is not iterated", at("__metadata__") == [])


def zint_(v):
    from vc.values import zint
    return zint(v)


def rt_call(f, *a):
    from vc import rt
    if f is len:
        return rt.vc_call(a[0].__len__)
    return rt.vc_call(f, *a)


def h_open(c):
    """the constructor reads the header of any file and starts with an empty window"""
    import z3
    from vc.values import SInt, zint
    w = World(c, constructed=True)
    from vc.core import pyraise
    r = object.__new__(InSafetensorsDict)
    try:
        r.__init__(w.path, SInt(w.D))
    except Exception as ex:
        c.prove("opening fails only if the file is shorter than its header", z3.Or(w.S < 8 + w.H))
        c.prove("a file that cannot be opened as safetensors is closed", all(f.closed for f in c.__dict__.get("opened", [])))
        return
    c.cover("opened")
    c.prove("the header size is the one stored", zint(r.header_size) == w.H)
    c.prove("the stored entry of a key is kept", r.header.get(w.key) is w.entry)
    c.prove("the buffer window starts empty or valid", z3.Or(r.buffer.length == 0))


def proofs():
    yield Proof("reading a key in any state of the reader", h_read("F32"), min_paths=2)
    yield Proof("reading a key of one-byte elements", h_read("BOOL"))
    yield Proof("reading a key of two-byte elements", h_read("BF16"))
    yield Proof("reading a key of eight-byte elements", h_read("I64"))
    yield Proof("reading an empty tensor", h_empty)
    yield Proof("reading a key that is not stored", h_missing)
    yield Proof("iterating and counting", h_iterate)
    yield Proof("opening a file", h_open)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
KEY_CHARS = ["a", "b.weight", "model.x", "\u00e9", "with space", "quote\"", "__metadata", "metadata__", "data_offsets", "k/k", "\u2028", "0", ""]


def rand_tensor(r, dtype=None, big=False):
    name = dtype or r.choice(list(ST_DTYPES))
    dt, item = ST_DTYPES[name]
    shape = r.choice([[], [0], [1], [2, 0, 3], [r.randrange(1, 9)], [r.randrange(1, 6), r.randrange(1, 6)], [r.randrange(1, 4)] * 3, [r.randrange(1, 60 if not big else 3000)]])
    n = math.prod(shape)
    if name == "BOOL":
        data = bytes(r.randrange(2) for _ in range(n))
    else:
        data = bytes(r.randrange(256) for _ in range(n * item))
    return from_raw(data, dt, shape)


def rand_tensors(r, n, big=False):
    out = {}
    for i in range(n):
        k = r.choice(KEY_CHARS) + (str(i) if r.random() < 0.8 else "")
        if k in out or k == "__metadata__":
            k = f"k{i}"
        out[k] = rand_tensor(r, big=big)
    return out


def make_file(r, path, n, big=False):
    ts = rand_tensors(r, n, big)
    order = list(ts)
    r.shuffle(order)
    meta = r.choice([None, {}, {"mecha_recipe": "version 0.1.0\nliteral 1"}, {"k": "v"}])
    write_st(path, ts, meta, order=order, header_pad=r.choice([0, 0, 1, 8, 57]))
    return ts, meta


def case_read(seed, n, buffer):
    r = random.Random(seed)
    with scratch() as d:
        p = d / "a.safetensors"
        ts, meta = make_file(r, p, n)
        f = InSafetensorsDict(p, buffer)
        try:
            check(len(f) == len(ts), "wrong number of keys", got=len(f), want=len(ts))
            check(sorted(f.keys()) == sorted(ts) and sorted(f) == sorted(ts), "wrong keys", got=list(f.keys()), want=list(ts))
            held = []
            seq = [r.choice(list(ts)) for _ in range(3 * n)] + list(ts)
            for k in seq:
                t = f[k]
                check(same_bits(t, ts[k]), "a tensor differs from the stored one", key=k, shape=list(t.shape), dtype=str(t.dtype), want=[str(ts[k].dtype), list(ts[k].shape)])
                held.append((k, t))
                if r.random() < 0.15:
                    try:
                        f[r.choice(["missing", "__metadata__", k + "x"])]
                        check(False, "a missing key was read")
                    except StateDictKeyError:
                        pass
                if r.random() < 0.05 and t.numel():
                    check((k in f) is True and ("missing" in f) is False and "__metadata__" not in f, "membership")
            for k, t in held:
                check(same_bits(t, ts[k]), "a tensor returned earlier changed because of later reads", key=k)
            for k, t in f.items():
                check(same_bits(t, ts[k]), "items() differs", key=k)
            check(len(list(f.values())) == len(ts), "values()")
            md = dict(f.metadata())
            check(sorted(md) == sorted(ts), "metadata() keys")
            for k, m in md.items():
                check(list(m.shape) == list(ts[k].shape) and m.dtype == ts[k].dtype, "metadata() of a key", key=k)
            for k, t in f.items():
                check(f.get(k) is not None and f.get("missing", 5) == 5, "get")
        finally:
            f.close()


def case_threads(seed, buffer):
    import threading
    r = random.Random(seed)
    with scratch() as d:
        p = d / "a.safetensors"
        ts, meta = make_file(r, p, 12, big=True)
        f = InSafetensorsDict(p, buffer)
        errors = []

        def work(s):
            def run():
                q = random.Random(s)
                held = []
                for _ in range(12):
                    k = q.choice(list(ts))
                    held.append((k, f[k]))
                errors.extend(f"wrong tensor for {k}" for k, t in held if not same_bits(t, ts[k]))
            return run
        try:
            interleaved([work(seed + i) for i in range(3)], seed, 0.5)
        finally:
            f.close()
        check(not errors, "concurrent reads", errors=errors[:3])


def case_truncated(seed, buffer, cut):
    r = random.Random(seed)
    with scratch() as d:
        p = d / "a.safetensors"
        ts, meta = make_file(r, p, 4)
        b = p.read_bytes()
        hn = struct.unpack("<Q", b[:8])[0]
        header = json.loads(b[8:8 + hn])
        size = 8 + hn + int(cut * (len(b) - 8 - hn))
        p.write_bytes(b[:size])
        f = InSafetensorsDict(p, buffer)
        try:
            keys = list(ts) * 2
            r.shuffle(keys)
            for k in keys:
                lo, hi = header[k]["data_offsets"]
                complete = lo == hi or 8 + hn + hi <= size
                try:
                    t = f[k]
                    check(complete, "a tensor was returned although the file ends before its end", key=k, end=8 + hn + hi, size=size)
                    check(same_bits(t, ts[k]), "a tensor of a truncated file differs", key=k)
                except (AssertionError, KeyboardInterrupt):
                    raise
                except Exception as e:
                    check(not complete, f"a complete tensor could not be read: {type(e).__name__}: {e}", key=k)
        finally:
            f.close()


def case_short(size):
    with scratch() as d:
        p = d / "a.safetensors"
        write_st(p, {"a": torch.arange(4.0)})
        p.write_bytes(p.read_bytes()[:size])
        try:
            f = InSafetensorsDict(p, 64)
        except Exception:
            return
        f.close()
        check(False, "a file without a complete header was opened", size=size)


def case_dtypes(buffer):
    """every dtype, stored and decoded"""
    r = random.Random(buffer)
    with scratch() as d:
        p = d / "a.safetensors"
        ts = {n: rand_tensor(r, n) for n in ST_DTYPES}
        ts |= {n + "_": torch.zeros(3).to(v[0]) for n, v in ST_DTYPES.items()}
        write_st(p, ts)
        f = InSafetensorsDict(p, buffer)
        try:
            for k in ts:
                check(same_bits(f[k], ts[k]), "dtype", key=k)
        finally:
            f.close()


def case_big(seed):
    """offsets beyond 2**32 in a sparse file"""
    with scratch() as d:
        p = d / "a.safetensors"
        off = 2**32 + 4 * seed
        h = {"z": {"dtype": "U8", "shape": [off], "data_offsets": [0, off]}, "b": {"dtype": "F32", "shape": [2], "data_offsets": [off, off + 8]}}
        hb = json.dumps(h).encode()
        with open(p, "wb") as f:
            f.write(struct.pack("<Q", len(hb)) + hb)
            f.seek(8 + len(hb) + off)
            f.write(struct.pack("<ff", 1.5, -2.5))
        f = InSafetensorsDict(p, 1 << 16)
        try:
            check(f["b"].tolist() == [1.5, -2.5], "data beyond 4 GiB", got=f["b"].tolist())
        finally:
            f.close()


def case_merge(seed, buffer):
    """through the public interface"""
    r = random.Random(seed)
    with scratch() as d:
        p = d / "a.safetensors"
        ts = {f"k{i}": torch.tensor([r.uniform(-9, 9) for _ in range(r.randrange(1, 40))]) for i in range(10)}
        write_st(p, ts, order=r.sample(list(ts), len(ts)))
        out = sd_mecha.merge(sd_mecha.model(p), merge_dtype=None, output_dtype=None, total_buffer_size=buffer, threads=r.choice([1, 3]), omit_extra_keys=False, check_mandatory_keys=False)
        check(sorted(out) == sorted(ts) and all(same_bits(out[k], ts[k]) for k in ts), "merged model differs", got=sorted(out))


def case_large(seed, keys, width, buffer):
    """many keys, or much data: header sizes, tensor sizes and offsets beyond 16 and 20 bits"""
    r = random.Random(seed)
    with scratch() as d:
        p = d / "a.safetensors"
        ts = {f"model.diffusion_model.blocks.{i}.attn.to_q.weight": torch.arange(i, i + width, dtype=torch.int32) for i in range(keys)}
        ts["large"] = torch.arange(width * 50, dtype=torch.int16)
        ts["after"] = torch.tensor([1.5])
        order = list(ts)
        write_st(p, ts)
        f = InSafetensorsDict(p, buffer)
        try:
            check(sorted(f.keys()) == sorted(ts) and len(f) == len(ts), "keys", n=len(f))
            r.shuffle(order)
            held = [(k, f[k]) for k in order[:300] + ["after", "large", "after"]]
            for k, t in held:
                check(same_bits(t, ts[k]), "a tensor differs", key=k)
        finally:
            f.close()


CASES = {f.__name__[5:]: f for f in (case_read, case_large, case_threads, case_truncated, case_short, case_dtypes, case_big, case_merge)}


def suite(S):
    r = S.rng
    for b in (0, 1, 3, 8, 64, 1000, 1 << 20):
        S.run("dtypes", buffer=b)
        S.run("read", seed=b + 1, n=6, buffer=b)
        S.run("truncated", seed=b, buffer=b, cut=0.5)
        S.run("merge", seed=b, buffer=b)
    for size in (0, 1, 7, 8, 9, 30, 60):
        S.run("short", size=size)
    S.run("big", seed=1)
    for n, w, b in ((2500, 1, 1 << 16), (2500, 2, 0), (60, 30000, 1 << 20), (60, 30000, 1 << 17), (5, 100000, 0)):
        S.run("large", seed=n, keys=n, width=w, buffer=b)
    for b in (0, 16, 500, 5000):
        S.run("threads", seed=b, buffer=b)
    while S.more():
        S.run("read", seed=r.randrange(10**9), n=r.choice([1, 2, 5, 10]), buffer=r.choice([0, 1, 2, 5, 16, 31, 64, 128, 200, 1024, 4096, 1 << 20]))
        S.run("truncated", seed=r.randrange(10**9), buffer=r.choice([0, 1, 16, 64, 256, 1 << 20]), cut=r.random())
        if r.random() < 0.03:
            S.run("threads", seed=r.randrange(10**9), buffer=r.choice([0, 16, 300, 3000]))
