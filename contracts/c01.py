"""C01 A streamed output file holds exactly the tensors that were written"""
from vc.report import Proof
from .common import *
from sd_mecha import streaming
from sd_mecha.streaming import OutSafetensorsDict, TensorMetadata

ID = "C01"
LEVEL = "proof"
TRUSTED = [
    "file.write/seek/read/truncate of a regular file; open('rb+') keeps the content; close() flushes",
    "json.dumps gives ASCII text that describes its argument; struct.pack('<Q')",
    "bytearray slices; threading.Lock is a mutex; single dictionary operations are atomic; distinct running threads have distinct identifiers",
    "tensor_to_bytes returns the element bytes (this is property C03, proved there)",
    "the rewriting of vc/instrument.py and the models of vc/models.py; z3, cvc5",
]
ASSUMPTIONS = ["all written keys are distinct and different from '__metadata__'", "headers are shorter than 2**62 bytes", "close() is called after the writing threads have finished",
               "every byte of the header's JSON text is the dependency's (its length is arbitrary here)"]
PROOF_BUDGET = 80
SUITE_BUDGET = 8


# ----------------------------------------------------------------- contracts
class Key:
    def __init__(self, c, name):
        import z3
        from vc.values import SVal, lit
        from vc.models import GShape
        self.key = SVal(name, str)
        c.assume(self.key.e != lit("__metadata__"))
        self.n = c.int(f"size_{name}", 0)
        self.T = c.fun(f"bytes_{name}", z3.IntSort(), z3.IntSort())
        self.shape = GShape(c.int(f"numel_{name}", 0))
        self.dtype_name, self.dtype = "F32", torch.float32
        self.loc = "none"
        self.lo = None

    def value(self, lo):
        from vc.values import mkint
        return {"dtype": self.dtype_name, "shape": self.shape.vc_list(list), "data_offsets": [mkint(lo), mkint(lo + self.n)]}


def measure(v):
    import z3
    from vc.values import zint
    if not isinstance(v, dict) or "data_offsets" not in v:
        return z3.IntVal(0)
    lo, hi = v["data_offsets"]
    return zint(hi) - zint(lo)


class World:
    def __init__(self, c):
        import z3
        from vc.models import GMap, GFile, Inode, GLock, GPath, GThread
        from vc.values import SInt, SVal
        self.c = c
        c.model_bytearray = True
        c.tag_bytes = True
        self.k1, self.k2 = Key(c, "k1"), Key(c, "k2")
        c.assume(self.k1.key.e != self.k2.key.e)
        self.keys = [self.k1, self.k2]
        self.M = c.int("max_header_size", 2, 2**62)
        self.B = c.int("minimum_buffer_size", 0)
        self.phi = c.int("flushed", 0)
        self.others_phi = z3.IntVal(0)        # bytes flushed by other threads since the start
        self.others_total = z3.IntVal(0)      # bytes entered into the header by other threads since the start
        self.path = GPath("out.safetensors")
        self.inode = Inode(None, None)
        c.fs = {self.path: self.inode}
        self.metadata = {"mecha_recipe": "text"}

        def elem(k):
            a, n = c.int("a", 0), c.int("n", 0)
            from vc.models import GShape
            from vc.values import mkint
            return {"dtype": "F32", "shape": GShape(c.int("m", 0), list), "data_offsets": [mkint(a), mkint(a + n)]}
        self.elem = elem
        self.GMap = GMap
        o = object.__new__(OutSafetensorsDict)
        self.o = o
        o.header = GMap(elem, measure, total=c.int("header_total", 0), name="header")
        o.header.track("__metadata__", True, self.metadata)
        o.file = GFile(self.inode, 0, False, True)
        o.file_path = self.path
        o.flushed_size = SInt(self.phi)
        o.minimum_buffer_size = SInt(self.B)
        o.max_header_size = SInt(self.M)
        o.lock = GLock(self.interfere, self.interfere)
        o.thread_states = GMap(lambda k: self.arbitrary_state(), name="thread_states")
        self.tid = SVal("thread")
        c.thread = GThread(self.tid)
        self.state = None

    # ---- building an arbitrary pre-state
    def arbitrary_state(self, keys=()):
        """a thread state that satisfies the invariant and holds the given keys"""
        import z3
        from vc.values import SByteArray, SInt
        c = self.c
        L, m = c.int("buffer_len", 0), c.int("memory_used", 0)
        c.assume(m <= L)
        sub = self.GMap(self.elem, measure, total=m, name="sub_header")
        sub.track("__metadata__", False)
        for k in self.keys:
            if k not in keys:
                sub.track(k.key, False)
        junk = c.fun("buffer", z3.IntSort(), z3.IntSort())
        at = lambda i: junk(i)
        for k in keys:
            k.lo = c.int("local_offset", 0)
            c.assume(k.lo + k.n <= m)
            at = self.with_region(at, k.lo, k)
            sub.track(k.key, True, k.value(k.lo))
        self.disjoint(keys)
        s = streaming.OutSafetensorsDictThreadState(SByteArray(L, at))
        s.memory_used = SInt(m)
        s.sub_header = sub
        s.vc_keys = list(keys)
        s.vc_m = m
        return s

    def with_region(self, at, base, k):
        import z3
        return lambda i: z3.If(z3.And(base <= i, i < base + k.n), k.T(i - base), at(i))

    def disjoint(self, keys):
        import z3
        keys = list(keys)
        for i in range(len(keys)):
            for j in range(i):
                a, b = keys[i], keys[j]
                self.c.assume(z3.Or(a.lo + a.n <= b.lo, b.lo + b.n <= a.lo))

    def place(self, l1, l2):
        """puts the two keys at the given locations"""
        import z3
        c = self.c
        for k, l in ((self.k1, l1), (self.k2, l2)):
            k.loc = l
        have_state = "cur" in (l1, l2) or c.choice(2, "thread has a state") == 1
        if have_state:
            self.state = self.arbitrary_state([k for k in self.keys if k.loc == "cur"])
            self.o.thread_states.track(self.tid, True, self.state)
        else:
            self.o.thread_states.track(self.tid, False)
        junk = c.fun("file", z3.IntSort(), z3.IntSort())
        at = lambda i: junk(i)
        inh = [k for k in self.keys if k.loc == "header"]
        for k in inh:
            k.lo = c.int("offset", 0)
            c.assume(k.lo + k.n <= self.phi)
            at = self.with_region(at, 8 + self.M + k.lo, k)
            self.o.header.track(k.key, True, k.value(k.lo))
        self.disjoint(inh)
        for k in self.keys:
            if k.loc != "header":
                self.o.header.track(k.key, False)
        self.inode.at = at
        self.inode.size = z3.If(self.phi > 0, 8 + self.M + self.phi, c.int("size", 0))
        c.assume(z3.And(self.inode.size >= 0, self.inode.size <= 8 + self.M + self.phi))
        self.o.file.pos = 8 + self.M + self.phi
        self.total0 = self.o.header.total
        self.m0 = self.state.vc_m if self.state is not None else z3.IntVal(0)

    def interfere(self):
        """other threads flush their buffers and enter their keys into the header"""
        import z3
        from vc.values import SInt, zint
        c, o = self.c, self.o
        c.prove("the lock protects a consistent file position", o.file.pos == 8 + self.M + zint(o.flushed_size))
        phi = zint(o.flushed_size)
        d, dt = c.int("flushed_by_others", 0), c.int("entered_by_others", 0)
        new = z3.simplify(phi + d)
        old = self.inode.at
        junk = c.fun("file", z3.IntSort(), z3.IntSort())
        at = lambda i: z3.If(i < 8 + self.M + phi, old(i), junk(i))
        for k in self.keys:
            if k.loc == "other" and c.choice(2, "other thread flushes") == 1:
                k.loc = "header"
                k.lo = c.int("offset", 0)
                c.assume(z3.And(k.lo >= phi, k.lo + k.n <= new))
                at = self.with_region(at, 8 + self.M + k.lo, k)
                e = o.header.entry(k.key)
                e[1], e[2] = True, k.value(k.lo)
        self.inode.at = at
        self.inode.size = z3.simplify(z3.If(d > 0, 8 + self.M + new, self.inode.size))
        o.flushed_size = SInt(new)
        o.file.pos = 8 + self.M + new
        if o.header.total is not None:
            o.header.total = o.header.total + dt
            o.header._bound()
        self.others_phi = self.others_phi + d
        self.others_total = self.others_total + dt

    # ---- the invariant afterwards
    def check(self, written):
        import z3
        from vc.values import zint
        c, o = self.c, self.o
        s = o.thread_states[self.tid]
        phi, m = zint(o.flushed_size), zint(s.memory_used)
        L = zint(s.buffer.vc_len()) if hasattr(s.buffer, "vc_len") else z3.IntVal(len(s.buffer))
        c.prove("the used part of the buffer lies inside of it", z3.And(0 <= m, m <= L))
        own = phi - self.phi - self.others_phi
        c.prove("every written byte is either in the buffer or flushed, once", own + m == self.m0 + written)
        tot = None if type(s.sub_header) is dict else s.sub_header.total
        if type(s.sub_header) is dict:
            tot = z3.Sum([z3.IntVal(0)] + [measure(v) for v in s.sub_header.values()])
        c.prove("the regions listed for the buffer add up to its used size", tot is not None and tot == m)
        c.prove("the regions entered into the header add up to the flushed bytes",
                o.header.total is not None and o.header.total - self.total0 - self.others_total == own)
        c.prove("the file position is the end of the flushed data", z3.And(o.file.pos == 8 + self.M + phi, z3.Implies(phi > 0, self.inode.size == 8 + self.M + phi)))
        c.prove("the metadata of the file is kept", o.header["__metadata__"] is self.metadata)
        where = {}
        for n, k in enumerate(self.keys):
            from vc import rt
            f = rt.find_key(s.sub_header, k.key) if type(s.sub_header) is dict else None
            in_sub = (f is not None) if type(s.sub_header) is dict else k.key in s.sub_header
            in_head = k.key in o.header
            if k.loc == "none":
                c.prove("a key that was not written is not listed", not in_sub and not in_head)
                continue
            if k.loc == "other":
                c.prove("a key of another thread is not touched", not in_sub and not in_head)
                continue
            c.prove("a written key is listed exactly once", in_sub != in_head)
            if in_sub == in_head:
                continue
            v = (s.sub_header[f[0]] if f else s.sub_header[k.key]) if in_sub else o.header[k.key]
            lo, hi = zint(v["data_offsets"][0]), zint(v["data_offsets"][1])
            end = m if in_sub else phi
            i = c.int("i", 0)
            c.prove("the region of a key has the size of its tensor and lies inside of the data", z3.And(0 <= lo, hi == lo + k.n, hi <= end))
            byte = s.buffer.at(lo + i) if in_sub else self.inode.at(8 + self.M + lo + i)
            c.prove("the region of a key holds its bytes", z3.Implies(i < k.n, byte == k.T(i)))
            c.prove("the dtype of a key is listed", v["dtype"] == k.dtype_name)
            c.prove("the shape of a key is listed", getattr(v["shape"], "origin", None) is k.shape)
            where[n] = (in_sub, lo, hi)
        if len(where) == 2 and where[0][0] == where[1][0]:
            (_, a, b), (_, x, y) = where[0], where[1]
            c.prove("the regions of different keys are disjoint", z3.Or(b <= x, y <= a))


class FakeTensor:
    pass


def make_tensor(c, k):
    from vc.values import Model, SBytes

    class T(Model):
        pytype = torch.Tensor
        dtype, shape = k.dtype, k.shape
    t = T()
    c.overrides[streaming.tensor_to_bytes] = lambda x: SBytes(k.n, lambda i: k.T(i)) if x is t else NotImplemented
    return t


def h_set_new(c):
    """writing a key: its region is right, and disjoint from the region of an arbitrary other key"""
    w = World(c)
    w.place("none", c.choose(["none", "cur", "other", "header"], "other key"))
    t = make_tensor(c, w.k1)
    w.o[w.k1.key] = t
    c.cover("written")
    w.k1.loc = "written"
    w.check(w.k1.n)


def h_set_frame(c):
    """writing any key keeps the regions of two arbitrary other keys right and disjoint"""
    w = World(c)
    l = c.choose([("cur", "cur"), ("cur", "header"), ("cur", "other"), ("header", "header"), ("header", "other")], "locations")
    w.place(*l)
    k3 = Key(c, "k3")
    c.assume(k3.key.e != w.k1.key.e)
    c.assume(k3.key.e != w.k2.key.e)
    w.o.header.track(k3.key, False)
    if w.state is not None:
        w.state.sub_header.track(k3.key, False)
    t = make_tensor(c, k3)
    w.o[k3.key] = t
    w.check(k3.n)


def h_close(c):
    """closing: an arbitrary number of threads with arbitrary buffers, an arbitrary final header"""
    import z3
    from vc.models import GLock, JsonText
    from vc.values import zint, SInt, mkint, SVal
    from vc.core import PathEnd, Unsupported
    w = World(c)
    o = w.o
    l1, l2 = c.choose([("a", "a"), ("a", "b"), ("a", "header"), ("header", "header"), ("a", "none")], "locations")
    for k, l in ((w.k1, l1), (w.k2, l2)):
        k.loc = l
    names = ["a", "b", "g"]
    states = {n: w.arbitrary_state([k for k in w.keys if k.loc == n]) for n in names}
    for k in w.keys:
        if k.loc in states:
            k.local = k.lo
    junk = c.fun("file", z3.IntSort(), z3.IntSort())
    at = lambda i: junk(i)
    inh = [k for k in w.keys if k.loc == "header"]
    for k in inh:
        k.lo = c.int("offset", 0)
        c.assume(k.lo + k.n <= w.phi)
        at = w.with_region(at, 8 + w.M + k.lo, k)
        o.header.track(k.key, True, k.value(k.lo))
    w.disjoint(inh)
    for k in w.keys:
        if k.loc != "header":
            o.header.track(k.key, False)
    w.inode.at = at
    w.inode.size = z3.If(w.phi > 0, 8 + w.M + w.phi, c.int("size", 0))
    c.assume(z3.And(w.inode.size >= 0, w.inode.size <= 8 + w.M + w.phi))
    o.file.pos = 8 + w.M + w.phi
    o.header.total = w.phi
    c.assume(z3.Sum([z3.IntVal(0)] + [k.n for k in inh]) <= w.phi)
    o.lock = GLock()
    ghost = dict(relocated=False)

    def invariant(done, what):
        phi = zint(o.flushed_size)
        c.prove(f"{what}: the file position is the end of the flushed data", z3.And(o.file.pos == 8 + w.M + phi, z3.Implies(phi > 0, w.inode.size == 8 + w.M + phi)))
        c.prove(f"{what}: the header lists exactly the flushed bytes", o.header.total is not None and o.header.total == phi)
        where = []
        for k in w.keys:
            present = k.key in o.header
            if k.loc in ("header", *done):
                c.prove(f"{what}: a flushed key is listed", present)
                if not present:
                    continue
                v = o.header[k.key]
                lo, hi = zint(v["data_offsets"][0]), zint(v["data_offsets"][1])
                i = c.int("i", 0)
                c.prove(f"{what}: the region of a key has the size of its tensor and lies inside of the data", z3.And(0 <= lo, hi == lo + k.n, hi <= phi))
                c.prove(f"{what}: the region of a key holds its bytes", z3.Implies(i < k.n, w.inode.at(8 + w.M + lo + i) == k.T(i)))
                c.prove(f"{what}: dtype and shape are listed", v["dtype"] == k.dtype_name and getattr(v["shape"], "origin", None) is k.shape)
                where.append((lo, hi))
            else:
                c.prove(f"{what}: an unflushed key is not listed", not present)
        if len(where) == 2:
            (a, b), (x, y) = where
            c.prove(f"{what}: the regions of different keys are disjoint", z3.Or(b <= x, y <= a))

    def havoc(done):
        """an arbitrary state in which the given thread states are flushed"""
        phi0 = zint(o.flushed_size)
        phi = c.int("flushed", 0)
        c.assume(phi >= phi0)
        old, j = w.inode.at, c.fun("file", z3.IntSort(), z3.IntSort())
        at = lambda i: z3.If(i < 8 + w.M + phi0, old(i), j(i))
        o.header.total = phi
        moved = []
        for k in w.keys:
            if k.loc in done:
                k.lo = c.int("offset", 0)
                c.assume(z3.And(k.lo >= phi0, k.lo + k.n <= phi))
                moved.append(k)
                at = w.with_region(at, 8 + w.M + k.lo, k)
                e = o.header.entry(k.key)
                e[1], e[2] = True, k.value(k.lo)
        w.disjoint(moved)
        o.header._bound()
        w.inode.at = at
        w.inode.size = z3.If(phi > 0, 8 + w.M + phi, c.int("size", 0))
        c.assume(z3.And(w.inode.size >= 0, w.inode.size <= 8 + w.M + phi))
        o.flushed_size = SInt(phi)
        o.file.pos = 8 + w.M + phi
        for n in done:
            states[n].sub_header.clear()
            states[n].memory_used = 0

    def states_loop(loop, view):
        mode = c.choose(["exit", *names], "state")
        if mode == "exit":
            havoc(names)
            return
        done = [n for n in names if n != mode and c.choice(2, f"{n} is flushed") == 1]
        havoc(done)
        yield view.of(SVal("tid"), states[mode])
        invariant([*done, mode], "after flushing a buffer")
        c.prove("a flushed state holds no keys any more", bool(states[mode].sub_header) is False)
        raise PathEnd()

    def move_loop(loop, rng):
        start, stop, step = zint(rng.start), zint(rng.stop), zint(rng.step)
        if not c.must(step < 0):
            raise Unsupported("the data section is not moved from its end")
        final = zint(o.flushed_size)
        f = o.file
        ino, old = w.inode, w.inode.at
        size = ino.size
        d = ghost["J"] - w.M
        j = c.fun("moving", z3.IntSort(), z3.IntSort())

        def content(e):
            return lambda i: z3.If(i < e, old(i), z3.If(z3.And(e + d <= i, i < start + d), old(i - d), j(i)))
        if c.choose(["exit", "step"], "move") == "exit":
            e = zmin_(start, stop)
            ino.at = content(e)
            f.pos = c.int("pos", 0)
            ino.size = zmax_(size, c.int("size", 0))
            c.assume(ino.size <= zmax_(size, start + d))
            ino.marks = []
            return
        e = c.int("chunk_end")
        c.assume(z3.And(stop < e, e <= start))
        ino.at = content(e)
        ino.marks = []
        f.pos = c.int("pos", 0)
        yield SInt(e)
        e2 = z3.If(e + step > stop, e + step, stop)
        i = c.int("p", 0)
        c.prove("moving the data: everything from the chunk on has been moved", z3.Implies(z3.And(e2 <= i, i < start), ino.at(i + d) == old(i)))
        c.prove("moving the data: everything before the chunk is unchanged", z3.Implies(i < e2, ino.at(i) == old(i)))
        c.prove("moving the data: the file does not grow", ino.size <= zmax_(size, start + d))
        raise PathEnd()

    o.thread_states.loop_contract = states_loop
    c.range_loop = move_loop
    import json as j_
    from vc import rt

    def dumps(x, **kw):
        r = rt.HANDLERS[j_.dumps]((x,), kw)
        ghost["J"], ghost["json"] = r.length, r
        c.assume(r.length < 2**62)
        return r
    c.overrides[j_.dumps] = dumps
    o.close()
    c.cover("closed")
    files = [o.file] + c.__dict__.get("opened", [])
    c.prove("the file is closed", all(f.closed for f in files))
    ino = w.inode
    phi = zint(o.flushed_size)
    head = [m for m in ino.marks if c.must(m[0] == 0)]
    c.prove("the file starts with the header size", len(head) == 1 and head[0][2][0] == "u64")
    text = [m for m in ino.marks if m[2] is not None and m[2][0] == "text"]
    c.prove("the header follows its size", len(text) == 1 and c.must(text[0][0] == 8) and text[0][2][1] is ghost["json"])
    if not (len(head) == 1 and len(text) == 1):
        return
    N, J = head[0][2][1], text[0][1]
    i = c.int("i", 0)
    c.prove("the header fits into its announced size", J <= N)
    c.prove("the rest of the header is padded with spaces", z3.Implies(z3.And(8 + J <= i, i < 8 + N), ino.at(i) == 32))
    c.prove("the data section ends with the file", z3.Or(ino.size == 8 + N + phi))
    header = ghost["json"].value
    c.prove("the regions add up to the data section", header.total is not None and header.total == phi)
    c.prove("the metadata is kept", header["__metadata__"] is w.metadata)
    regions = []
    for k in w.keys:
        present = k.key in header
        c.prove("exactly the written keys are listed", present == (k.loc != "none"))
        if not present:
            continue
        v = header[k.key]
        lo, hi = zint(v["data_offsets"][0]), zint(v["data_offsets"][1])
        q = c.int("q", 0)
        c.prove("final region of a key: size and bounds", z3.And(0 <= lo, hi == lo + k.n, hi <= phi))
        c.prove("final region of a key: bytes", z3.Implies(q < k.n, ino.at(8 + N + lo + q) == k.T(q)))
        c.prove("final dtype and shape of a key", v["dtype"] == k.dtype_name and getattr(v["shape"], "origin", None) is k.shape)
        regions.append((lo, hi))
    if len(regions) == 2:
        (a, b), (x, y) = regions
        c.prove("the final regions of different keys are disjoint", z3.Or(b <= x, y <= a))


def zmin_(a, b):
    import z3
    return z3.If(a <= b, a, b)


def zmax_(a, b):
    import z3
    return z3.If(a >= b, a, b)


def h_init(c):
    """the constructor establishes the invariant for any announced header and metadata"""
    import z3
    from vc.models import GMap, GPath, Inode, GShape
    from vc.values import SInt, zint
    from vc.core import PathEnd
    c.json_opaque = True
    path = GPath("out.safetensors")
    ino = Inode(lambda i: z3.IntVal(0), z3.IntVal(0))
    c.fs = {path: ino}

    def elem(k):
        known = c.choose(["known", "no shape", "no dtype"], "announced")
        return TensorMetadata(None if known == "no shape" else GShape(c.int("numel", 0)), None if known == "no dtype" else torch.float32)
    header = GMap(elem, name="announced")
    recipe = c.choose([None, "text"], "recipe")

    def loop(lp, view):
        ints = {k: SInt(c.int(k)) for k, v in lp.locals().items() if k in lp.assigned and type(v) in (int, SInt)}
        if c.choice(2, "loop") == 0:
            lp.vars = ints
            return
        lp.vars = ints
        k = __import__("vc.values", fromlist=["SVal"]).SVal("announced_key", str)
        e = view.m.entry(k)
        if not e[1]:
            raise PathEnd()
        yield view.of(k, e[2])
        raise PathEnd()
    c.map_loop = loop
    B = c.int("B", 0)
    o = object.__new__(OutSafetensorsDict)
    o.__init__(path, header, recipe, SInt(B))
    c.cover("constructed")
    c.prove("nothing is flushed", o.flushed_size == 0 and len(o.thread_states) == 0)
    c.prove("the header holds only the metadata", list(o.header) == ["__metadata__"] and o.header["__metadata__"] == ({} if recipe is None else {"mecha_recipe": "text"}))
    M = zint(o.max_header_size)
    c.prove("the data section starts after the reserved header", z3.And(o.file.pos == 8 + M, M >= 2, ino.size <= 8 + M))
    c.prove("the parameters are kept", o.minimum_buffer_size.e is B or z3.eq(o.minimum_buffer_size.e, B))


def h_dtypes(c):
    """the listed dtype and size of every dtype of the format"""
    name = c.choose(sorted(ST_DTYPES), "dtype")
    dt, size = ST_DTYPES[name]
    c.prove("name and size of the dtype", streaming.DTYPE_REVERSE_MAPPING[dt] == (name, size) and streaming.DTYPE_MAPPING[name] == (dt, size))


def proofs():
    yield Proof("writing a key", h_set_new, min_paths=4)
    yield Proof("writing a key keeps the others", h_set_frame, min_paths=4)
    yield Proof("closing the file", h_close, min_paths=4, budget=80)
    yield Proof("opening the file", h_init)
    yield Proof("dtypes of the format", h_dtypes)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
from . import c02 as readers  # noqa: E402


def announce(r, ts):
    """an announced header that differs from what is written"""
    h = {}
    for k, t in ts.items():
        q = r.random()
        if q < 0.15:
            continue
        if q < 0.25:
            h[k] = TensorMetadata(None, t.dtype)
        elif q < 0.35:
            h[k] = TensorMetadata(t.shape, None)
        elif q < 0.5:
            h[k] = TensorMetadata(torch.Size([r.randrange(5)]), r.choice([torch.float32, torch.bool, torch.float64]))
        else:
            h[k] = TensorMetadata(t.shape, t.dtype)
    for i in range(r.choice([0, 0, 1, 5])):
        h[f"announced only {i}"] = TensorMetadata(torch.Size([3]), torch.float32)
    return h


def check_file(path, ts, recipe, loader=True):
    meta, got, header = read_st(path)
    check(meta == ({} if recipe is None else {"mecha_recipe": recipe}), "metadata", meta=meta)
    check(sorted(got) == sorted(ts), "the listed keys are not the written ones", missing=sorted(set(ts) - set(got))[:5], extra=sorted(set(got) - set(ts))[:5])
    for k, t in ts.items():
        check(list(t.shape) == header[k]["shape"] and ST_DTYPES[header[k]["dtype"]][0] == t.dtype, "dtype or shape", key=k, entry=header[k], want=[str(t.dtype), list(t.shape)])
        check(same_bits(got[k], t), "the bytes of a key differ", key=k, dtype=str(t.dtype), shape=list(t.shape))
    if loader:
        import safetensors.torch
        lib = safetensors.torch.load_file(str(path))
        check(sorted(lib) == sorted(ts) and all(same_bits(lib[k], ts[k]) for k in ts), "the safetensors library reads something else")


def writable(r, n, big=False):
    return readers.rand_tensors(r, n, big)


def write_all(path, ts, header, recipe, buffer, order):
    o = OutSafetensorsDict(path, header, recipe, buffer)
    for k in order:
        o[k] = ts[k]
    o.close()


def case_write(seed, n, buffer, exact=False):
    r = random.Random(seed)
    with scratch() as d:
        ts = writable(r, n)
        order = list(ts)
        r.shuffle(order)
        recipe = r.choice([None, "", "version 0.1.0\nliteral 1", 'quote " \\ \u00e9 \u2028'])
        h = {k: TensorMetadata(t.shape, t.dtype) for k, t in ts.items()} if exact else announce(r, ts)
        write_all(d / "o.safetensors", ts, h, recipe, buffer, order)
        check_file(d / "o.safetensors", ts, recipe, loader=not any(t.dtype in (torch.uint16, torch.uint32, torch.uint64) for t in ts.values()))


def case_unannounced(n, buffer, width):
    """nothing is announced: the data section has to move to make room for the header"""
    with scratch() as d:
        ts = {f"some.long.key.name.{i}": torch.arange(i * width, (i + 1) * width, dtype=torch.float32) for i in range(n)}
        write_all(d / "o.safetensors", ts, {}, None, buffer, list(ts))
        check_file(d / "o.safetensors", ts, None)


def case_views(seed, buffer):
    """tensors that are views: transposed, expanded, sliced, negated"""
    r = random.Random(seed)
    base = torch.tensor([r.uniform(-1, 1) for _ in range(60)]).reshape(3, 4, 5)
    ts = {"t": base.transpose(0, 2), "e": base[:1, :1].expand(2, 3, 5), "s": base[1:, ::2, 1:4], "f": base.flip(1), "z": base[0, 0, 0], "h": base.half().mT,
          "n": torch.view_as_complex(base[..., :4].reshape(-1, 2).contiguous()).conj().imag}
    with scratch() as d:
        write_all(d / "o.safetensors", ts, announce(r, ts), None, buffer, list(ts))
        check_file(d / "o.safetensors", {k: v.clone() for k, v in ts.items()}, None)


def case_threads(seed, n, threads, buffer):
    r = random.Random(seed)
    with scratch() as d:
        ts = writable(r, n)
        parts = [list(ts)[i::threads] for i in range(threads)]
        o = OutSafetensorsDict(d / "o.safetensors", announce(r, ts), None, buffer)

        def work(keys):
            def f():
                for k in keys:
                    o[k] = ts[k]
            return f
        interleaved([work(p) for p in parts], seed, 0.4)
        if r.random() < 0.5:   # a second generation of threads, after the first has finished
            more = {f"second {k}": t for k, t in list(ts.items())[:n // 2]}
            interleaved([work_more(o, more, ks) for ks in (list(more)[::2], list(more)[1::2])], seed + 1, 0.3)
            ts = ts | more
        o.close()
        check_file(d / "o.safetensors", ts, None, loader=False)


def work_more(o, ts, keys):
    def f():
        for k in keys:
            o[k] = ts[k]
    return f


def case_turns(seed, threads, buffer):
    """a fixed order of writes over several threads: deterministic"""
    import threading
    r = random.Random(seed)
    with scratch() as d:
        ts = writable(r, 14)
        o = OutSafetensorsDict(d / "o.safetensors", announce(r, ts), "x", buffer)
        owner = {k: r.randrange(threads) for k in ts}
        turn = [0]
        cond = threading.Condition()
        errors = []
        order = list(ts)

        def work(me):
            try:
                for n, k in enumerate(order):
                    if owner[k] != me:
                        continue
                    with cond:
                        cond.wait_for(lambda: turn[0] == n or turn[0] < 0, 20)
                        if turn[0] < 0:
                            return
                        o[k] = ts[k]
                        turn[0] += 1
                        cond.notify_all()
            except BaseException as e:
                errors.append(f"{type(e).__name__}: {e}")
                with cond:
                    turn[0] = -1
                    cond.notify_all()
        th = [threading.Thread(target=work, args=(i,), **({"name": "w"} if seed % 2 else {})) for i in range(threads)]
        [t.start() for t in th]
        [t.join() for t in th]
        check(not errors, "writing failed", errors=errors)
        o.close()
        check_file(d / "o.safetensors", ts, "x", loader=False)


def case_empty(buffer, announced):
    with scratch() as d:
        h = {"never written": TensorMetadata(torch.Size([1000]), torch.float64)} if announced else {}
        write_all(d / "o.safetensors", {}, h, None, buffer, [])
        check_file(d / "o.safetensors", {}, None)


def case_merge(seed, buffer, threads):
    """through the public interface"""
    r = random.Random(seed)
    with scratch() as d:
        ts = {f"k{i}": torch.tensor([r.uniform(-9, 9) for _ in range(r.randrange(0, 40))]) for i in range(12)}
        write_st(d / "a.safetensors", ts)
        sd_mecha.merge(sd_mecha.model(d / "a.safetensors"), merge_dtype=None, output_dtype=None, total_buffer_size=buffer, threads=threads,
                       omit_extra_keys=False, check_mandatory_keys=False, output=d / "o.safetensors")
        meta, got, header = read_st(d / "o.safetensors")
        check(sorted(got) == sorted(ts) and all(same_bits(got[k], ts[k]) for k in ts), "merged file differs", got=sorted(got))


def case_large(keys, width, buffer, announced, threads=1):
    """many keys, or much data: sizes and offsets beyond 16 and 20 bits"""
    with scratch() as d:
        ts = {f"model.diffusion_model.blocks.{i}.attn.to_q.weight": torch.arange(i, i + width, dtype=torch.int32) for i in range(keys)}
        ts["large"] = torch.arange(width * 50, dtype=torch.int16)
        ts["after"] = torch.tensor([1.5])
        h = {k: TensorMetadata(t.shape, t.dtype) for k, t in ts.items()} if announced else {}
        o = OutSafetensorsDict(d / "o.safetensors", h, "version 0.1.0\n" + "literal 1\n" * 9000, buffer)
        interleaved([work_more(o, ts, list(ts)[i::threads]) for i in range(threads)], 0, 0) if threads > 1 else work_more(o, ts, list(ts))()
        o.close()
        check_file(d / "o.safetensors", ts, "version 0.1.0\n" + "literal 1\n" * 9000)


CASES = {f.__name__[5:]: f for f in (case_write, case_unannounced, case_large, case_views, case_threads, case_turns, case_empty, case_merge)}


def suite(S):
    r = S.rng
    for b in (0, 1, 7, 64, 1000, 1 << 16):
        for n in (1, 2, 8):
            S.run("write", seed=b + n, n=n, buffer=b)
            S.run("write", seed=b + n, n=n, buffer=b, exact=True)
        S.run("views", seed=b, buffer=b)
        S.run("empty", buffer=b, announced=b % 2 == 0)
        S.run("turns", seed=b, threads=3, buffer=b)
    for n, b, w in ((1, 0, 1), (3, 0, 2), (10, 16, 5), (30, 100, 33), (200, 4096, 100), (50, 1, 3), (7, 1 << 16, 1000)):
        S.run("unannounced", n=n, buffer=b, width=w)
    for n, w, b, a in ((2500, 1, 1 << 20, True), (2500, 3, 1 << 12, False), (60, 30000, 1 << 20, False), (60, 30000, 1 << 17, True), (3, 40000, 0, True), (5, 100000, 1 << 23, False)):
        S.run("large", keys=n, width=w, buffer=b, announced=a)
    S.run("large", keys=100, width=5000, buffer=1 << 18, announced=True, threads=12)
    for t in (1, 2, 4):
        S.run("merge", seed=t, buffer=64 * t, threads=t)
    for b in (0, 40, 300):
        S.run("threads", seed=b, n=24, threads=4, buffer=b)
    i = 0
    while S.more():
        i += 1
        b = r.choice([0, 1, 2, 5, 16, 31, 64, 128, 200, 1024, 4096, 1 << 20])
        S.run("write", seed=r.randrange(10**9), n=r.choice([1, 2, 5, 10, 25]), buffer=b, exact=r.random() < 0.3)
        S.run("turns", seed=r.randrange(10**9), threads=r.choice([2, 3]), buffer=r.choice([0, 8, 40, 100]))
        if i % 4 == 0:
            S.run("threads", seed=r.randrange(10**9), n=r.choice([8, 24]), threads=r.choice([2, 3, 5]), buffer=r.choice([0, 16, 60, 300, 3000]))
        if i % 10 == 0:
            S.run("unannounced", n=r.randrange(1, 60), buffer=r.choice([0, 1, 10, 100, 10000]), width=r.randrange(0, 200))
            S.run("views", seed=r.randrange(10**9), buffer=b)
