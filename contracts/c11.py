"""C11 Every file opened by a merge is closed again, whatever happens"""
import contextlib as _ctx
import threading
import time
from vc.report import Proof
from .common import *
from .c06 import Stub
from .c09 import Boom
from sd_mecha import streaming, conversion
from sd_mecha.extensions import model_formats

ID = "C11"
LEVEL = "proof"
TRUSTED = [
    "with statements, contextlib.contextmanager, try/finally of Python; file.close() closes the descriptor even when it raises",
    "closing an opened input state dict does not raise (InSafetensorsDict.close is checked to be repeatable)",
    "ThreadPoolExecutor: submit never runs after shutdown, __exit__ waits for the started tasks, cancel() only stops tasks that have not started",
    "that a closed output is a readable safetensors file whatever was written before is property C01; here a failed write is shown to leave its invariant intact",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["exceptions are raised by the operations that are called (files, formats, methods, mappings, progress bars), not asynchronously inside of the clean-up itself"]
PROOF_BUDGET = 60
SUITE_BUDGET = 8
KINDS = [Boom, merging.StateDictKeyError, KeyboardInterrupt]


# ----------------------------------------------------------------- contracts
class Faults:
    """at most one of the operations raises: every operation and every kind of exception is explored"""

    def __init__(self, c, kinds=KINDS):
        self.c, self.kinds, self.fired, self.on = c, kinds, None, True

    def point(self, where):
        from vc.core import pyraise
        if self.fired is not None or not self.on:
            return
        k = self.c.choice(1 + len(self.kinds), f"{where} raises")
        if k:
            self.fired = (where, self.kinds[k - 1])
            pyraise(self.kinds[k - 1](where))


class InDict(dict):
    """an opened input"""

    def __init__(self, world, name):
        super().__init__({k: torch.full((1,), 1.0) for k in world.keys})
        self.world, self.name, self.closed = world, name, False

    def metadata(self):
        self.world.faults.point("metadata()")
        return [(k, streaming.TensorMetadata(torch.Size([1]), torch.float32)) for k in self.keys()]

    def __getitem__(self, key):
        self.world.c.prove("no input is read after it was closed", not self.closed)
        self.world.faults.point("reading a tensor")
        return super().__getitem__(key)

    def close(self):
        self.closed = True


class World:
    def __init__(self, c, keys=("k0", "k1"), kinds=KINDS):
        self.c, self.keys, self.faults = c, keys, Faults(c, kinds)
        self.opened, self.outputs, self.pools = [], [], []
        self.cfg = synthetic_config("vc11-x", {"m": {k: ([1], "float32", [], False) for k in keys}})
        w = self

        class Format:
            identifier = "vc11"

            def matches(self, path):
                w.faults.point("matches()")
                return True

            def get_read_dict(self, path, buffer_size):
                w.faults.point("opening an input")
                w.opened.append(InDict(w, str(path)))
                return w.opened[-1]
        c.overrides[model_formats.get_all] = lambda: [Format()]

        def infer(metadata, *a, **kw):
            w.faults.point("inferring a config")
            return [{w.cfg}]
        c.overrides[merging.infer_model_configs] = infer

        def checked(*a):
            w.faults.point("checking the keys")
        c.overrides[merging.check_model_config] = checked

        class Out:
            def __init__(self, path, header, recipe, size):
                w.faults.point("creating the output")
                self.items, self.closed, self.file = {}, 0, self.File()
                w.outputs.append(self)

            class File:
                closed = False

                def close(self):
                    self.closed = True

            def __setitem__(self, k, v):
                w.c.prove("nothing is written to a closed output", not self.closed)
                w.faults.point("writing a tensor")
                self.items[k] = v

            def __len__(self):
                return len(self.items)

            def close(self):
                self.closed += 1
                w.faults.point("finalising the output")
                self.file.close()
        c.overrides[merging.OutSafetensorsDict] = Out
        self.Out = Out

    def model(self, name, config=True):
        return ModelRecipeNode(pathlib.Path(f"/vc11/{name}.safetensors"), model_config=self.cfg if config else None)

    def check(self, nodes):
        for d in self.opened:
            self.c.prove("every opened input is closed", d.closed)
        for p in self.pools:
            self.c.prove("no task is left running", p.done())
        for n in nodes:
            self.c.prove("no node refers to an opened state dict", n.state_dict is None)
        for o in self.outputs:
            self.c.prove("the output is finalised once", o.closed == 1)
            self.c.prove("the output file is closed", o.file.closed)


def graphs(w, which, method):
    """(recipe, fallback, its models)"""
    a, b, x = w.model("a"), w.model("b", False), w.model("a")
    if which == "model":
        return a, None, [a]
    if which == "one path twice":
        return method(a, k=x), None, [a, x]
    if which == "unbalanced":
        return method(method(a, b), x, k=w.model("a")), None, [a, b, x]
    if which == "dictionary":
        return method(LiteralRecipeNode({"k0": a, "k1": x}, merge_space="weight"), b), None, [a, b, x]
    if which == "mixed dictionary":
        return LiteralRecipeNode({"k0": torch.zeros(1), "k1": a}, model_config=w.cfg, merge_space="weight"), None, [a]
    return method(a), b, [a, b]


GRAPHS = ["model", "one path twice", "unbalanced", "dictionary", "mixed dictionary", "fallback"]


def make_method(w):
    def body(key):
        w.faults.point("merge method")
    BODY[0] = body
    return both("vc11_m", "BODY[0](kwargs['key'])\n    return a", dict(BODY=BODY), register=False)


def both(name, body, env, **kw):
    """a method with, and one without a keyword parameter"""
    ms = [define_method(f"def {name}{i}(a: Parameter(Tensor), *rest: Parameter(Tensor), {'k: Parameter(Tensor), ' if i else ''}**kwargs) -> Return(Tensor, 'weight'):\n    {'' if i else 'k = 0'}\n    {body}\n", f"{name}{i}", env, **kw)
          for i in (0, 1)]
    return lambda *args, **kwargs: ms[len(kwargs)](*args, **kwargs)


BODY = [None]


def run(c, fn):
    """(result, error); engine signals pass"""
    try:
        return fn(), None
    except (Exception, KeyboardInterrupt) as e:
        return None, e


def h_merge(which, threads, kinds=KINDS):
    def h(c):
        w = World(c, kinds=kinds)
        m = make_method(w)
        recipe, fallback, nodes = graphs(w, which, m)
        if threads:
            executor(c, w)
        out = c.choose([pathlib.Path("/vc11/out.safetensors"), None] if not threads else [pathlib.Path("/vc11/out.safetensors")], "output")

        class Progress:
            """the progress bar is code of the user as well"""
            def __init__(self, *a, **k):
                w.faults.point("progress bar")
            update = lambda self, *a: w.faults.point("progress update") if not threads else None
            set_postfix = lambda self, *a, **k: None
            __enter__ = lambda self: self

            def __exit__(self, *a):
                return None
        got, err = run(c, lambda: sd_mecha.merge(recipe, fallback_model=fallback, threads=threads, output=out, tqdm=Progress, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None))
        c.cover("ended")
        w.check(nodes)
        f = w.faults.fired
        c.prove("only a fault makes the merge fail", f is not None or err is None)
        if f and f[1] is not merging.StateDictKeyError:
            c.prove("an exception is not swallowed", type(err) is f[1])
        if out is not None and f is None:
            c.prove("the output has every key", len(w.outputs) == 1 and set(w.outputs[0].items) == set(w.keys))
    return h


class Task:
    def __init__(self, c, fn, args, kwargs):
        self.c, self.call, self.state, self.res, self.err = c, (fn, args, kwargs), "pending", None, None

    def run(self):
        from vc.core import EngineSignal
        self.state = "done"
        fn, args, kwargs = self.call
        try:
            self.res = fn(*args, **kwargs)
        except EngineSignal:
            raise
        except BaseException as e:
            self.err = e

    def cancel(self):
        if self.state != "pending":
            return False
        if self.c.choice(2, "already running"):
            self.state = "running"
            return False
        self.state = "cancelled"
        return True

    def exception(self):
        return self.err

    def result(self):
        if self.err is not None:
            from vc.core import pyraise
            pyraise(self.err)
        return self.res


def executor(c, w):
    """contract of ThreadPoolExecutor: a task runs at any time between its submission and the end of the pool, unless it was cancelled before it started"""
    class Pool:
        def __init__(self, max_workers=None):
            self.tasks = []
            w.pools.append(self)

        def submit(self, fn, /, *args, **kwargs):
            t = Task(c, fn, args, kwargs)
            self.tasks.append(t)
            return t

        def __enter__(self):
            return self

        def __exit__(self, *a):
            from vc import core
            if core._aborting:
                return
            self.shutdown()

        def done(self):
            return all(t.state in ("done", "cancelled") for t in self.tasks)

        def shutdown(self, wait=True, cancel_futures=False):
            for t in self.tasks:
                if t.state in ("pending", "running") and not (cancel_futures and t.cancel()):
                    t.run()

    def as_completed(tasks):
        left = list(tasks)
        while left:
            w.faults.point("waiting")
            t = left.pop(c.choice(len(left), "next"))
            if t.state == "pending":
                t.run()
            yield t
    c.overrides[merging.ThreadPoolExecutor] = Pool
    c.overrides[merging.as_completed] = as_completed


def h_convert(c):
    """the other operation that opens inputs"""
    w = World(c)
    m = make_method(w)
    a, b = w.model("a", c.choice(2, "explicit config") == 1), w.model("b", False)
    mode = c.choice(3, "target")
    nodes = [a, b]
    target = [w.cfg, b, m(b, k=a)][mode]
    recipe = [a, m(a)][c.choice(2, "recipe")]
    c.overrides[merge_methods.get_all_converters] = lambda: []
    got, err = run(c, lambda: sd_mecha.convert(recipe, target))
    w.check(nodes)
    f = w.faults.fired
    c.prove("only a fault makes the conversion fail", (type(err) is f[1]) if f else (err is None and got is recipe))


class Rec(Stub):
    """an arbitrary recipe: whatever a visitor does with it may fail"""

    def __init__(self, c, log, faults=None):
        super().__init__(merge_spaces.resolve("weight"), None)
        self.c, self.log, self.faults = c, log, faults

    def accept(self, visitor, *args, **kwargs):
        self.log.append((self, visitor))
        if self.faults is not None:
            self.faults.point("loading" if isinstance(visitor, merging.LoadInputDictsVisitor) else "closing")
        return self

    def __contains__(self, item):
        return item is self


def h_open(c):
    """open_input_dicts closes the recipe after an arbitrary body, and restores every hint"""
    log = []
    faults = Faults(c, [Boom, KeyboardInterrupt, GeneratorExit, SystemExit])
    r = Rec(c, log, None)
    nodes = [LiteralRecipeNode({"k": torch.zeros(1)}) for _ in range(2)]
    hints = [None, "hint"]

    def accept(visitor):
        log.append(visitor)
        if isinstance(visitor, merging.LoadInputDictsVisitor):
            for n, h in zip(nodes, hints):
                faults.point("loading")
                visitor.config_hints.append((n, h))
                n.model_config = "inferred"
            faults.point("loading")
        return r
    r.accept = accept

    def body():
        with merging.open_input_dicts(r, [], 0, True, False) as got:
            c.prove("the recipe is opened for the body", got is r and len(log) == 1)
            faults.point("body")
    err = None
    try:
        body()
    except (Boom, KeyboardInterrupt, GeneratorExit, SystemExit) as e:
        err = e
    c.prove("the recipe is loaded, then closed", len(log) == 2 and isinstance(log[0], merging.LoadInputDictsVisitor) and isinstance(log[1], merging.CloseInputDictsVisitor))
    c.prove("exceptions are passed on", (err is None) == (faults.fired is None) and (err is None or type(err) is faults.fired[1]))
    for n, h in zip(nodes, hints):
        c.prove("nothing that was inferred outlives the inputs", n.model_config == h or any(n is x for x in nodes) and n.model_config is None)


def h_close(c):
    """the closing visitor reaches every recipe below a node"""
    log = []
    kids = [Rec(c, log) for _ in range(4)]
    kind = c.choose(["merge", "dictionary", "mixed", "leaf", "model"], "node")
    v = merging.CloseInputDictsVisitor()
    if kind == "merge":
        n, k = c.choice(3, "positional"), c.choice(3, "keyword")
        kw = ", ".join(f"k{i}: Parameter(Tensor)" for i in range(k))
        m = define_method(f"def vc11_any{k}(*args: Parameter(Tensor), {kw}) -> Return(Tensor, 'weight'):\n    return 0\n", f"vc11_any{k}", register=False)
        node = MergeRecipeNode(m, tuple(kids[:n]), {f"k{i}": kids[2 + i] for i in range(k)})
        want = [*kids[:n], *kids[2:2 + k]]
    elif kind in ("dictionary", "mixed"):
        n = c.choice(3, "recipes")
        value = {f"r{i}": kids[i] for i in range(n)}
        if kind == "mixed":
            value = {"t": torch.zeros(1), **value, "u": torch.zeros(1)}
        node, want = LiteralRecipeNode(value, merge_space="weight"), kids[:n]
    elif kind == "leaf":
        node, want = LiteralRecipeNode(c.choose([None, 1, 1.5, "a", torch.zeros(1), {}, {"k": torch.zeros(1)}, {"k": 1}], "value")), []
    else:
        node, want = ModelRecipeNode(pathlib.Path("a.safetensors")), []

        class D:
            closed = 0

            def close(self):
                self.closed += 1
        d = D()
        node.state_dict = d if c.choice(2, "opened") else None
        opened = node.state_dict is not None
        node.accept(v)
        c.prove("an opened model is closed and forgotten", node.state_dict is None and d.closed == int(opened))
        return
    node.accept(v)
    c.prove("every recipe below the node is closed", all(any(x is k for x, _ in log) for k in want))
    c.prove("by a visitor of the same kind", all(isinstance(y, merging.CloseInputDictsVisitor) for _, y in log))
    c.prove("nothing else is closed", len(log) == len(want))


def h_load(c):
    """an opened dict is referred to by its node at once: whatever fails later, the closing visitor finds it"""
    w = World(c)
    cfg = c.choose([w.cfg, None], "config")
    node = ModelRecipeNode(c.choose([pathlib.Path("/vc11/a.safetensors"), pathlib.Path("a.safetensors")], "path"), model_config=cfg)
    v = merging.LoadInputDictsVisitor([pathlib.Path("/vc11/dir")], 16, True, c.choice(2, "mandatory") == 1)
    cached = bool(c.choice(2, "opened by another node"))
    if cached:
        w.faults.on = False
        other = ModelRecipeNode(node.path, model_config=w.cfg)
        other.accept(v)
        w.faults.on = True
    got, err = run(c, lambda: node.accept(v))
    c.prove("at most one file is opened per path", len(w.opened) <= 1)
    c.prove("an opened file is referred to by the node", all(node.state_dict is d or cached and other.state_dict is d for d in w.opened))
    c.prove("a node without fault is opened", w.faults.fired is not None or err is None and node.state_dict is w.opened[0])
    c.prove("loading closes nothing", not any(d.closed for d in w.opened))
    c.prove("what is inferred is remembered to be undone", node.model_config is cfg or any(n is node and h is cfg for n, h in v.config_hints))


def h_output(c):
    """_get_output_dict finalises and closes the output after an arbitrary body"""
    w = World(c)
    c.overrides[serialization.serialize] = lambda r: w.faults.point("serialising")
    a = w.model("a")

    def body():
        with merging._get_output_dict(c.choose([pathlib.Path("/x/o.safetensors"), "o.safetensors", "/x/o.safetensors"], "path"), {}, a, [], 10) as o:
            c.prove("the body writes to the open output", o is w.outputs[0] and not o.closed)
            w.faults.point("body")
    _, err = run(c, body)
    w.check([])
    c.prove("the output is created unless something failed before", bool(w.outputs) or w.faults.fired[0] in ("creating the output", "serialising"))
    c.prove("exceptions are passed on", (err is None) == (w.faults.fired is None) and (err is None or type(err) is w.faults.fired[1]))


def h_in_init(c):
    """a file whose header cannot be read is closed before the error leaves the constructor"""
    from vc.models import GPath, Inode
    path = GPath("a.safetensors", c.choose([".safetensors", ".ckpt"], "suffix"))
    c.fs = {path: Inode(c.fun("file", __import__("z3").IntSort(), __import__("z3").IntSort()), c.int("size", 0))}
    faults = Faults(c, [Boom, ValueError, KeyboardInterrupt, MemoryError])

    def read(self):
        faults.point("reading the header")
        return 2, {}
    c.overrides[streaming.InSafetensorsDict._read_header] = read
    got, err = run(c, lambda: streaming.InSafetensorsDict(path, 16))
    files = c.__dict__.get("opened", [])
    if err is None:
        c.prove("the file is open", len(files) == 1 and not files[0].closed)
        got.close()
        c.prove("close() closes it", files[0].closed)
        got.close()
        c.prove("close() can be repeated", files[0].closed)
    else:
        c.prove("a rejected file is not left open", all(f.closed for f in files))


def h_failed_write(c):
    """a write that fails leaves the output as if it had not been tried"""
    from vc.values import SBytes, SInt
    from .c01 import World as OutWorld, make_tensor, Key
    from vc.core import pyraise
    w = OutWorld(c)
    w.place(*c.choose([("cur", "cur"), ("cur", "header"), ("cur", "other"), ("header", "other")], "locations"))
    k3 = Key(c, "k3")
    c.assume(k3.key.e != w.k1.key.e)
    c.assume(k3.key.e != w.k2.key.e)
    w.o.header.track(k3.key, False)
    if w.state is not None:
        w.state.sub_header.track(k3.key, False)
    how = c.choose(["unsupported dtype", "encoding fails", "not a tensor"], "failure")
    if how == "unsupported dtype":
        k3.dtype = torch.complex64
        t = make_tensor(c, k3)
    elif how == "encoding fails":
        t = make_tensor(c, k3)

        def encode(x):
            pyraise(Boom("no memory"))
        c.overrides[streaming.tensor_to_bytes] = encode
    else:
        t = "text"
    _, err = run(c, lambda: w.o.__setitem__(k3.key, t))
    c.prove("the write fails", err is not None)
    if w.tid in w.o.thread_states:
        w.check(0)


def proofs():
    yield Proof("open_input_dicts", h_open)
    yield Proof("closing visitor", h_close)
    yield Proof("loading a model", h_load)
    yield Proof("output", h_output)
    yield Proof("constructor of input files", h_in_init)
    yield Proof("failed write", h_failed_write)
    yield Proof("convert", h_convert, kind="bounded", bound="6 combinations of recipe and target; one fault at any operation")
    for g in GRAPHS:
        yield Proof(f"merge of a graph with {g}", h_merge(g, 0), kind="bounded", bound="6 graphs with up to 4 models, 2 keys, one fault (3 kinds) at any operation", max_paths=20000)
    yield Proof("merge with worker threads", h_merge("unbalanced", 2, [Boom]), kind="bounded", bound="2 keys, any order of the tasks, one fault at any operation", max_paths=20000)
    yield Proof("interrupted merge with worker threads", h_merge("model", 2), kind="bounded", bound="2 keys, any order of the tasks, one fault (3 kinds) at any operation", max_paths=20000)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
def walk(node, seen=None):
    seen = {} if seen is None else seen
    if id(node) in seen:
        return seen
    seen[id(node)] = node
    if isinstance(node, MergeRecipeNode):
        for x in (*node.args, *node.kwargs.values()):
            walk(x, seen)
    elif isinstance(node, LiteralRecipeNode) and isinstance(node.value, dict):
        for x in node.value.values():
            if isinstance(x, RecipeNode):
                walk(x, seen)
    return seen


def open_files(d):
    """descriptors of this process that refer to files below d, or to a sink"""
    res = []
    for fd in os.listdir("/proc/self/fd"):
        with _ctx.suppress(OSError):
            p = os.readlink(f"/proc/self/fd/{fd}")
            if p.startswith(str(d)) or p == "/dev/full":
                res.append(p)
    return res


class FailingMapping(dict):
    def __init__(self, n, error):
        super().__init__()
        self.n, self.error = n, error

    def __setitem__(self, k, v):
        if len(self) == self.n:
            raise self.error("mapping")
        super().__setitem__(k, v)


ERRORS = dict(runtime=RuntimeError, key=KeyError, interrupt=KeyboardInterrupt, memory=MemoryError, exit=SystemExit, stop=StopIteration)
FAULTS = ["none", "method", "method", "tqdm", "update", "mapping", "bad header", "odd dtype", "odd header", "short file", "missing file", "suffix", "space", "mandatory", "infer", "truncated", "dtype", "full", "directory", "serialise", "missing key"]
KEYS = [f"k{i}" for i in range(5)]
STATE = {}


def method11():
    return both("vc11_sum", "STATE['hook'](kwargs['key'])\n    return sum(rest, a) + k", dict(STATE=STATE))


def case_faults(fault, error, threads, seed, op="merge"):
    r = random.Random(seed)
    E = ERRORS[error]
    cfg = synthetic_config("vc11s-x", {"m": {k: ([2], "float32", [], False) for k in KEYS}}, register=True)
    m = method11()
    at = r.randrange(len(KEYS))
    STATE["hook"] = lambda key: None
    with scratch() as d:
        files = ["a", "b", "c"]
        for i, f in enumerate(files):
            write_st(d / f"{f}.safetensors", {k: torch.full((2,), 10.0 * i + j) for j, k in enumerate(KEYS)})

        def leaf():
            f = r.choice(files)
            p = d / f"{f}.safetensors" if r.random() < 0.5 else pathlib.Path(f"{f}.safetensors")
            return ModelRecipeNode(p, model_config=r.choice([cfg, None]))

        def graph(depth):
            x = r.random()
            if depth == 0 or x < 0.25:
                return leaf()
            if x < 0.4:
                n = ModelRecipeNode(d / "a.safetensors", model_config=cfg)
                extra = {} if r.random() < 0.5 else {"unknown": ModelRecipeNode(d / "c.safetensors", model_config=cfg)}
                return LiteralRecipeNode({k: n if r.random() < 0.7 else torch.zeros(2) for k in KEYS} | extra if r.random() < 0.4 else {k: ModelRecipeNode(d / "b.safetensors", model_config=cfg) for k in KEYS} | extra,
                                         model_config=cfg, merge_space="weight") if r.random() < 0.9 else LiteralRecipeNode({k: torch.zeros(2) for k in KEYS}, model_config=cfg, merge_space="weight")
            return m(*(graph(depth - 1) for _ in range(r.randrange(1, 3))), **({"k": graph(depth - 1)} if r.random() < 0.5 else {}))
        while True:
            try:
                recipe = m(*(graph(2) for _ in range(2)))
                break
            except AttributeError:
                continue   # a mixed dictionary that starts with a recipe
        special, kw = None, {}
        out = d / "out.safetensors" if r.random() < 0.7 or fault in ("dtype", "full", "directory", "serialise", "truncated") else {}
        written = []
        if fault == "method":
            def hook(key):
                if key == KEYS[at]:
                    raise E("method")
            STATE["hook"] = hook
        elif fault in ("tqdm", "update"):
            class Bar:
                n = 0

                def __init__(self, *a, **k):
                    if fault == "tqdm":
                        raise E("bar")
                set_postfix = lambda self, *a, **k: None
                __enter__ = lambda self: self
                __exit__ = lambda self, *a: None

                def update(self, *a):
                    Bar.n += 1
                    if Bar.n == at + 1:
                        raise E("update")
            kw["tqdm"] = Bar
        elif fault == "mapping":
            out = FailingMapping(at, E)
        elif fault in ("bad header", "odd dtype", "odd header", "short file", "missing file", "suffix", "truncated"):
            p = d / ("broken.ckpt" if fault == "suffix" else "broken.safetensors")
            if fault == "bad header":
                p.write_bytes(struct.pack("<Q", 10) + b"not json!!" + b"0" * 10)
            elif fault in ("odd dtype", "odd header"):
                h = json.dumps({"k0": {"dtype": "C64", "shape": [1], "data_offsets": [0, 8]}} if fault == "odd dtype" else {"k0": {"dtype": "F32", "data_offsets": [0, 8]}}).encode()
                p.write_bytes(struct.pack("<Q", len(h)) + h + b"0" * 8)
            elif fault == "short file":
                p.write_bytes(b"123")
            elif fault == "truncated":
                write_st(p, {k: torch.ones(2) for k in KEYS})
                b = p.read_bytes()
                p.write_bytes(b[:-8 * (len(KEYS) - at)])
            elif fault == "suffix":
                p.write_bytes(b"x")
            special = ModelRecipeNode(p, model_config=cfg if fault == "truncated" or r.random() < 0.5 else None)
        elif fault == "space":
            special = "space"
        elif fault in ("mandatory", "missing key"):
            write_st(d / "few.safetensors", {k: torch.ones(2) for k in KEYS[:at + 1]})
            special = ModelRecipeNode(d / "few.safetensors", model_config=cfg)
            kw["check_mandatory_keys"] = fault == "mandatory"
        elif fault == "infer":
            write_st(d / "odd.safetensors", {"odd": torch.ones(2)})
            special = ModelRecipeNode(d / "odd.safetensors", model_config=model_configs.INFER)
        elif fault == "dtype":
            special = LiteralRecipeNode({k: torch.ones(2, dtype=torch.complex64) if i == at else torch.ones(2) for i, k in enumerate(KEYS)}, model_config=cfg, merge_space="weight")
            kw |= dict(merge_dtype=None, output_dtype=None, merge_device=None, output_device=None)
        elif fault == "full":
            out = d / "full.safetensors"
            out.symlink_to("/dev/full")
            kw["total_buffer_size"] = 0
        elif fault == "directory":
            out = d / "nowhere" / "out.safetensors"
        elif fault == "serialise":
            special = LiteralRecipeNode({k: torch.ones(2) for k in KEYS}, model_config=cfg, merge_space="weight")
        if special == "space":
            recipe = recipe - ModelRecipeNode(d / "c.safetensors", model_config=cfg)
        elif special is not None:
            recipe = m(recipe, special, *([leaf()] if r.random() < 0.5 else [])) if r.random() < 0.7 else m(special, recipe)
        fallback = leaf() if r.random() < 0.2 and fault not in ("missing key", "space") else None
        nodes = list(walk(recipe).values()) + (list(walk(fallback).values()) if fallback is not None else [])
        err = None
        try:
            if op == "convert":
                sd_mecha.convert(recipe, r.choice([cfg, recipe, leaf()]), model_dirs=[d])
            elif op == "open":
                with sd_mecha.open_input_dicts(recipe, [d], 64, check_mandatory_keys=kw.get("check_mandatory_keys", False)):
                    if fault == "method":
                        raise E("body")
            else:
                sd_mecha.merge(recipe, fallback_model=fallback, threads=threads, model_dirs=[d], output=out, **(dict(total_buffer_size=r.choice([0, 64, 4096])) | kw))
        except BaseException as e:
            err = e   # keeps every frame alive: nothing is closed by the garbage collector
            if type(e).__name__ == "CaseTimeout":
                raise
        info = dict(fault=fault, error=repr(err)[:200], op=op)
        left = open_files(d)
        check(not left, "files are left open", files=left, **info)
        for n in nodes:
            check(not isinstance(n, ModelRecipeNode) or n.state_dict is None, "a node refers to an opened state dict", **info)
        if op != "merge":
            return
        must_fail = fault in ("method", "tqdm", "update", "mapping", "bad header", "odd dtype", "odd header", "short file", "missing file", "suffix", "space", "mandatory", "infer", "truncated", "dtype", "full", "directory")
        if fault == "mandatory" and at == len(KEYS) - 1:
            must_fail = False
        if fault == "truncated" and at == len(KEYS):
            must_fail = False
        check((err is not None) == must_fail, "the merge fails exactly when something went wrong", **info)
        if isinstance(out, pathlib.Path) and fault not in ("full", "directory", "tqdm", "bad header", "odd dtype", "odd header", "short file", "missing file", "suffix", "space", "infer") and not (fault == "mandatory" and must_fail):
            check(out.exists(), "the output file is missing", **info)
            _, tensors, _ = read_st(out)
            check(set(tensors) <= set(KEYS), "keys of the output", got=sorted(tensors), **info)
            if fault in ("none", "serialise"):
                check(set(tensors) == set(KEYS), "keys of the output", got=sorted(tensors), **info)
            if threads == 0 and fault in ("method", "dtype", "update"):
                n = at + (fault == "update")
                check(set(tensors) == set(KEYS[:n]), "the output lacks keys that were written", got=sorted(tensors), want=KEYS[:n], **info)
            if fault == "missing key":
                check(set(tensors) == set(KEYS[:at + 1]), "the output has exactly the keys that can be computed", got=sorted(tensors), **info)
            # values: the same recipe merged without the fault
            STATE["hook"] = lambda key: None
            if fault in ("none", "method", "update", "missing key", "serialise"):
                again = sd_mecha.merge(recipe, fallback_model=fallback, threads=0, model_dirs=[d], total_buffer_size=64)
                for k, t in tensors.items():
                    check(k in again and same_bits(t, again[k]), "value of a key in the output", key=k, **info)


def case_race():
    """a key fails while another thread is in the middle of writing its own"""
    cfg = synthetic_config("vc11s-x", {"m": {k: ([2], "float32", [], False) for k in KEYS}}, register=True)
    STATE["go"] = threading.Event()
    src = define_method("def vc11_race(a: Parameter(Tensor), **kwargs) -> Return(Tensor, 'weight'):\n    return STATE['race'](a, kwargs['key'])\n", "vc11_race", dict(STATE=STATE))
    started = threading.Event()
    ended = []

    def race(a, key):
        if key == "k0":
            started.wait(2)
            raise RuntimeError("k0 fails")
        if key == "k1":
            started.set()
            STATE["go"].wait(0.25)
            ended.append(key)
            return a
        return a
    STATE["race"] = race
    with scratch() as d:
        write_st(d / "a.safetensors", {k: torch.full((2,), float(j)) for j, k in enumerate(KEYS)})
        node = ModelRecipeNode(d / "a.safetensors", model_config=cfg)
        err = None
        try:
            sd_mecha.merge(src(node), threads=2, output=d / "out.safetensors", total_buffer_size=64)
        except RuntimeError as e:
            err = e
        check(str(err) == "k0 fails", "the error is reported", got=repr(err))
        check(ended == ["k1"], "a running key was not waited for")
        left = open_files(d)
        check(not left, "files are left open", files=left)
        _, tensors, _ = read_st(d / "out.safetensors")
        check("k1" in tensors, "a key that was computed and written is not in the output", got=sorted(tensors))
        check(all(torch.equal(t.float(), torch.full((2,), float(k[1:]))) for k, t in tensors.items()), "values")


def case_dtype_config():
    """a config with a dtype that files cannot store"""
    cfg = synthetic_config("vc11s-y", {"m": {"k0": ([2], "float32", [], False), "k1": ([2], "complex64", [], True)}})
    with scratch() as d:
        n = LiteralRecipeNode({"k0": torch.ones(2)}, model_config=cfg, merge_space="weight")
        err = None
        try:
            sd_mecha.merge(n, threads=0, output=d / "o.safetensors", total_buffer_size=64)
        except Exception as e:
            err = e
        check(not open_files(d), "files are left open", error=repr(err))
        if (d / "o.safetensors").exists():
            read_st(d / "o.safetensors")


CASES = {f.__name__[5:]: f for f in (case_faults, case_race, case_dtype_config)}


def suite(S):
    r = S.rng
    S.run("dtype_config")
    S.run("race")
    for f in dict.fromkeys(FAULTS):
        for _ in range(6 if f in ("odd dtype", "odd header") else 1):
            S.run("faults", fault=f, error="runtime", threads=0, seed=r.randrange(10**9))
        S.run("faults", fault=f, error="key", threads=2, seed=r.randrange(10**9))
    while S.more():
        f = r.choice(FAULTS)
        t = r.choice([0, 0, 1, 2])
        e = r.choice(sorted(ERRORS)) if t == 0 else r.choice(["runtime", "key", "memory"])
        if f == "mapping" and e == "stop":
            e = "key"
        S.run("faults", fault=f, error=e, threads=t, seed=r.randrange(10**9), op=r.choice(["merge"] * 4 + ["convert", "open"]))
