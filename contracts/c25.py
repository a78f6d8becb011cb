"""C25 The number of threads and their schedule never change the result"""
import dis
import itertools
import sys
import threading
import time
from vc.report import Proof
from sd_mecha.streaming import InSafetensorsDict, OutSafetensorsDict, TensorMetadata
from .common import *
from .c09 import Boom, Child, typed
from . import c01, c02, c13

ID = "C25"
LEVEL = "proof"
TRUSTED = [
    "ThreadPoolExecutor runs each submitted task once; threading.Lock is a mutex; single dictionary operations are atomic; distinct running threads have distinct identifiers",
    "torch operations, the progress bar and logging may be used from several threads; torch's schemas say which memory an operation writes",
    "what a task may share with another one is reachable from the modules of sd_mecha, the recipe, the merge methods, the opened inputs and the output",
    "the rewriting of vc/instrument.py, the frame conditions of vc/frames.py and the models of vc/models.py; z3, cvc5",
]
ASSUMPTIONS = [
    "rely-guarantee: if every task only writes what it allocated itself, or what a lock protects while it holds that lock (guarantee), and computes the same result whatever other such tasks do in between (rely), "
    "then every interleaving gives the same output",
    "merge methods given by the caller, caches explicitly given by the caller and in-memory outputs follow the same discipline",
]
NOTE = ("Guarantee: frame conditions of the tasks of a merge, of every visitor, of every builtin merge method (Python objects, process-wide state and, in C13, memory of tensors), of the reader and the writer of "
        "safetensors files, which hold their lock whenever they touch shared fields. Rely: reads and writes of files under arbitrary interference (the proofs of C01 and C02 for these functions). "
        "Whole merges: tasks preempted at every use of an input, for 3 keys (bounded); on the untouched code, threads preempted at every line they execute (one preemption, bounded).")
PROOF_BUDGET = 60
SUITE_BUDGET = 20
CACHES = {"rotate"}


# ----------------------------------------------------------------- guarantee: frames
class Tasks:
    """the executor of a merge: the tasks run in any order, and a running task is preempted by others wherever it asks an input for a value"""

    def __init__(self, c, shared, preemptions):
        self.c, self.shared, self.tasks, self.left, self.depth = c, shared, [], preemptions, 0

    def run(self, t):
        from vc.frames import Frame
        from vc.core import EngineSignal
        c = self.c
        fn, args, kwargs = t.call
        t.state = "running"
        others = [x for o in self.tasks if o is not t for x in (o.call[0], *o.call[1], *o.call[2].values())]
        f = Frame(c, [*self.shared, *others], publish=model_configs.ModelConfig)
        f.exclude([self.output] if self.output is not None else [])
        outer, c.frame = c.frame, f
        self.depth += 1
        try:
            t.res = fn(*args, **kwargs)
        except EngineSignal:
            raise
        except BaseException as e:
            t.err = e
        finally:
            c.frame = outer
            self.depth -= 1
        f.finish()
        t.state = "done"

    output = None

    def preempt(self):
        waiting = [t for t in self.tasks if t.state == "pending"]
        if self.depth and self.left and waiting:
            i = self.c.choice(len(waiting) + 1, "preempted by")
            if i:
                self.left -= 1
                self.run(waiting[i - 1])

    def install(self):
        outer = self

        class Task:
            def __init__(self, *call):
                self.call, self.state, self.res, self.err = call, "pending", None, None

            def cancel(self):
                if self.state == "pending":
                    self.state = "cancelled"
                return self.state == "cancelled"

            def exception(self, timeout=None):
                return self.err

            def done(self):
                return self.state in ("done", "cancelled")

            def result(self, timeout=None):
                if self.state == "pending":
                    outer.run(self)
                if self.err is not None:
                    from vc.core import pyraise
                    pyraise(self.err)
                return self.res

        class Pool:
            def __init__(self, max_workers=None, **kwargs):
                pass

            def submit(self, fn, /, *args, **kwargs):
                t = Task(fn, args, kwargs)
                outer.tasks.append(t)
                return t

            def __enter__(self):
                return self

            def __exit__(self, *a):
                from vc import core
                if not core._aborting:
                    for t in outer.tasks:
                        if t.state == "pending":
                            outer.run(t)

            def shutdown(self, wait=True, cancel_futures=False):
                self.__exit__()

        def as_completed(tasks, timeout=None):
            while True:
                pending = [t for t in tasks if t.state == "pending"]
                if not pending:
                    break
                t = pending[self.c.choice(len(pending), "next")]
                outer.run(t)
                yield t
            for t in tasks:
                yield t
        self.c.overrides[merging.ThreadPoolExecutor] = Pool
        self.c.overrides[merging.as_completed] = as_completed
        return self


class Input(Child):
    """a recipe that satisfies the contract of accept; another thread may run before it answers"""
    tasks = None

    def accept(self, visitor, *args, **kwargs):
        if isinstance(visitor, merging.KeyMergeVisitor):
            self.tasks.preempt()
            r = super().accept(visitor, *args, **kwargs)
            self.tasks.preempt()
            return r
        return super().accept(visitor, *args, **kwargs)


class Values(dict):
    """opened state dict: another thread may run before a value is read"""
    tasks = None

    def __getitem__(self, k):
        self.tasks.preempt()
        return dict.__getitem__(self, k)

    close = lambda self: None


SHAPES = ["method", "nested", "lookup", "dictionary", "fallback", "model"]


def graph(c, which, keys, cfg, tasks, fails):
    """(recipe, what it evaluates to under a key, everything that the tasks share)"""
    def child(name, i, fails=(None,)):
        n = Input(c, name, lambda key: torch.tensor([float(10 * i + int(key[1:]))]), fails, config=cfg)
        n.tasks = tasks
        c.assume(n.depth == i)
        return n
    a, b = child("a", 1, fails), child("b", 2)
    val = lambda n, k: n.outcomes.get(k)
    pair = define_method("def vc25_pair(a: Parameter(Tensor), b: Parameter(Tensor), **kwargs) -> Return(Tensor):\n    return a * 100 + b\n", "vc25_pair", register=False)
    look = define_method("def vc25_look(a: Parameter(StateDict[Tensor]), b: Parameter(Tensor), **kwargs) -> Return(Tensor):\n"
                         "    return a[kwargs['key']] * 100 + a['k0'] * 10000 + b\n", "vc25_look", register=False)
    if which == "method":
        return pair(a, b), lambda k: (lambda x, y: x * 100 + y), [a, b, pair], (a, b)
    if which == "nested":
        return pair(a, pair(b, a)), lambda k: (lambda x, y: x * 100 + (y * 100 + x)), [a, b, pair], (a, b)
    if which == "lookup":
        return look(a, b), None, [a, b, look], (a, b)
    if which == "fallback":
        return a | b, None, [a, b], (a, b)
    d = {k: torch.tensor([float(7 + int(k[1:]))]) for k in keys}
    v = Values(d)
    v.tasks = tasks
    if which == "model":
        v.metadata = lambda: ((k, model_configs.KeyMetadata(x.shape, x.dtype)) for k, x in d.items())
        n = ModelRecipeNode(pathlib.Path("m.safetensors"), model_config=cfg)
        n.state_dict = v
    else:
        n = LiteralRecipeNode(v, model_config=cfg, merge_space="weight")
    return pair(n, a), None, [n, v, a, pair], (n, a)


def expected(which, k, a, b, d):
    """from the outcomes of the inputs under the keys; None: missing"""
    x, y = a(k), b(k)
    miss = merging.StateDictKeyError
    if which == "fallback":
        return x if x is not miss else y
    if which == "lookup":
        x0 = a("k0")
        if Boom in (x, x0, y):
            return Boom
        if miss in (x, x0, y):
            return miss
        return x * 100 + x0 * 10000 + y
    if which in ("model", "dictionary"):
        return x if isinstance(x, type) else d(k) * 100 + x
    for o in (Boom, miss):
        if o in (x, y):
            return o
    return x * 100 + (y if which == "method" else y * 100 + x)


def h_tasks(which, nkeys, preemptions, fails):
    def h(c):
        keys = [f"k{i}" for i in range(nkeys)]
        cfg = synthetic_config("vc25-m", {"m": {k: ([1], "float32", ["x" + k] if k == "k1" else [], False) for k in keys}})
        tasks = Tasks(c, [], preemptions).install()
        recipe, _, shared, inputs = graph(c, which, keys, cfg, tasks, fails)
        tasks.shared = [recipe, cfg, *shared]
        out = {}
        tasks.output = out
        err = None
        try:
            sd_mecha.merge(recipe, threads=2, output=out, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, omit_extra_keys=True, tqdm=Quiet)
        except Exception as e:
            err = e
        visitors = [x for t in tasks.tasks for x in t.call[1] if isinstance(x, recipe_nodes.RecipeVisitor)]
        c.prove("every key is one task, with a visitor of its own", len(tasks.tasks) == nkeys and len({id(v) for v in visitors}) == len(visitors))
        o = lambda n: (lambda k: n.outcome(k) if isinstance(n, Child) else None)
        # missing inputs: what was not asked by any task does not matter, its outcome is decided now
        a, b = (inputs if isinstance(inputs[0], Child) else (inputs[1], inputs[1]))
        want = {k: expected(which, k, o(a), o(b), lambda k: torch.tensor([float(7 + int(k[1:]))])) for k in keys}
        c.cover("merged")
        if any(w is Boom for w in want.values()):
            c.prove("a merge fails in every schedule if a key fails", type(err) is Boom)
            return
        c.prove("a merge in which no key fails succeeds in every schedule", err is None)
        present = {k: w for k, w in want.items() if w is not merging.StateDictKeyError}
        c.prove("every schedule gives the same output", set(out) == set(present) and all(torch.equal(out[k], w) for k, w in present.items()))
    return h


class Quiet:
    def __init__(self, *a, **k):
        pass
    update = lambda self, *a: None
    set_postfix = lambda self, *a, **k: None
    __enter__ = lambda self: self
    __exit__ = lambda self, *a: None


def h_visitor(kind):
    """any key, inputs that satisfy only the contract of accept: the visitors write nothing that other tasks can reach"""
    def h(c):
        from vc.frames import Frame
        from vc.values import SVal
        key = SVal("key", pytype=str)
        fails = (None, merging.StateDictKeyError, Boom)
        T = torch.Tensor
        a, b = Child(c, "a", typed("a", T), fails), Child(c, "b", typed("b", T), fails)
        got = []
        if kind == "merge":
            m = define_method("def vc25_any(a: Parameter(Tensor), *rest: Parameter(Tensor), k: Parameter(StateDict[Tensor]), **kwargs) -> Return(Tensor):\n"
                              "    GOT.append((a, rest, k, kwargs))\n    return a\n", "vc25_any", dict(GOT=got), register=False, fresh=True)
            node = MergeRecipeNode(m, (a, b), {"k": Child(c, "k", typed("k", T), fails)})
            node.cache = c.choose([None, {}], "cache")
            shared = [node, m, a, b, node.kwargs, node.args] + ([node.cache] if node.cache is not None else [])
        elif kind == "dictionary":
            cfg = a._config = b._config = synthetic_config("vc25-d", {"m": {"a": ([1], "float32", ["z"], False), "b": ([1], "float32", [], False), "c": ([1], "float32", ["b"], False)}})
            node = LiteralRecipeNode({"a": a, "b": b}, model_config=cfg, merge_space="weight")
            shared = [node, node.value, node.model_config]
            key = c.choose(["a", "b", "c", "z"], "key")
        else:
            v = SVal("literal", pytype=c.choose([T, int, float, str, bool], "type"))
            node = LiteralRecipeNode(v)
            shared = [node]
        before = {id(x): dict(vars(x)) for x in shared if hasattr(x, "__dict__") and not isinstance(x, (Child, model_configs.ModelConfig))}
        c.frame = f = Frame(c, shared, publish=model_configs.ModelConfig)
        visitor = merging.KeyMergeVisitor(key)
        try:
            node.accept(visitor)
        except Exception:
            c.cover("failed")
        else:
            c.cover("evaluated")
            for _, _, sd, _ in got:
                try:
                    sd[SVal("other key", pytype=str)]
                except Exception:
                    c.cover("failed lookup")
        c.frame = None
        f.finish()
        c.prove("the visitor still asks for its own key", visitor.key is key)
        c.prove("nothing that other tasks can see has changed", all(before[id(x)] == dict(vars(x)) for x in shared if id(x) in before))
        if kind == "merge" and node.cache is not None:
            c.prove("the cache is left to the merge method", node.cache == {})
    return h


def h_track(c):
    """the functions wrapped around a task"""
    from vc.frames import Frame
    from vc.values import SVal
    from vc.core import pyraise
    key, value = SVal("key", pytype=str), SVal("value", pytype=object)
    stored = []

    class Output:
        def __setitem__(self, k, v):
            stored.append((k, v))
    out, progress, fail = Output(), Quiet(), c.choose([None, merging.StateDictKeyError, Boom], "error")

    def fn(*a, **k):
        if fail is not None:
            pyraise(fail("x"))
        return value
    f = merging._track_progress(merging._track_output(fn, out, key, c.choose([True, False], "check finite")), key, c.choose([None, torch.Size([2])], "shape"), progress)
    f = merging._wrap_thread_context(f, threading.local())
    fr = Frame(c, [fn, progress])
    fr.exclude([out])
    c.frame = fr
    try:
        f(merging.KeyMergeVisitor(key))
    except Boom:
        pass
    c.frame = None
    c.prove("a task stores the value of its own key, once", len(stored) == (fail is None) and all(k is key and v is value for k, v in stored))


def h_method(m):
    inner = c13.h_method(m) if m not in merge_methods.get_all_converters() else c13.h_conversion(m)

    def h(c):
        from vc.frames import Frame
        setup = c13.setup

        def with_frame(c, method=None):
            setup(c, method)
            c.frame = Frame(c, [m, m.__wrapped__])
            c.frame.what = f"{m.get_identifier()} writes only what it allocated itself"
        c13.setup = with_frame
        try:
            inner(c)
        finally:
            c13.setup = setup
            c.frame = None
        c.prove(f"{m.get_identifier()} writes only what it allocated itself", True)
    return h


def protected(c, obj, lock, extra=()):
    """frame of a method of a shared object: its fields and its file are only touched while the lock is held"""
    from vc.frames import Frame
    held = lambda: lock.held
    fr = Frame(c, [], [(obj, held), (obj.__dict__, held), *extra])
    fr.what = "shared fields are only written under the lock"
    obj.file.fail = lambda op: c.prove("the position of the file is only used under the lock", bool(lock.held))
    c.frame = fr
    return fr


def h_read(dtype):
    def h(c):
        import z3
        w = c02.World(c, dtype)
        c.assume(w.n > 0)
        protected(c, w.reader, w.reader.lock)
        try:
            t = w.reader[w.key]
        except (ValueError, OSError, EOFError, RuntimeError):
            c.prove("an error is raised only if the file ends before the end of the tensor", 8 + w.H + w.o1 > w.S)
            return
        c.cover("read")
        w.check_tensor(t)
        w.invariant()
    return h


def h_write(c):
    w = c01.World(c)
    w.place("none", c.choose(["none", "cur", "other", "header"], "other key"))
    t = c01.make_tensor(c, w.k1)
    protected(c, w.o, w.o.lock)
    w.o[w.k1.key] = t
    c.frame = None
    w.o.file.fail = None
    c.cover("written")
    w.k1.loc = "written"
    w.check(w.k1.n)


def proofs():
    miss = merging.StateDictKeyError
    for k in ("merge", "dictionary", "literal"):
        yield Proof(f"frame of the evaluation of a {k} node", h_visitor(k), max_paths=20000)
    yield Proof("frame of a task", h_track)
    yield Proof("reading under interference, fields under the lock", h_read("F32"), min_paths=2)
    yield Proof("writing under interference, fields under the lock", h_write, min_paths=4)
    for s in SHAPES:
        yield Proof(f"schedules of a merge ({s})", h_tasks(s, 3, 2, (None,)), kind="bounded", bound="3 keys, any order of the tasks, 2 preemptions at uses of inputs", max_paths=20000)
    for s in ("method", "lookup", "fallback"):
        yield Proof(f"schedules of a failing merge ({s})", h_tasks(s, 2, 1, (None, miss, Boom)), kind="bounded", bound="2 keys, any order, 1 preemption, any outcome of one input", max_paths=20000)
    for m in c13.builtin_methods():
        yield Proof(f"frame of {m.get_identifier()}", h_method(m), bound="1 to 3 variadic inputs; shapes iterated over have rank at most 4", budget=10, max_paths=2500)


# ----------------------------------------------------------------- schedules of the untouched code
class Preempt:
    """tracing of the worker threads: the first one that reaches a line (or a store: negative numbers) for the nth time waits until the others cannot go on without it"""

    def __init__(self, where=None, nth=1, record=None):
        self.where, self.nth, self.record, self.hits, self.steps, self.done = where, nth, record, 0, 0, where is None
        self.stores, self.ops = where is None or where[2] < 0, {}
        self.lock = threading.Lock()
        self.names = {}

    def name(self, code):
        n = self.names.get(code)
        if n is None:
            f = code.co_filename
            i = f.rfind("/sd_mecha/")
            n = self.names[code] = f[i + 10:] if i >= 0 and "/contracts/" not in f else ""
        return n

    def trace(self, frame, event, arg):
        self.steps += 1
        if self.where is not None and self.where[1] != frame.f_code.co_name or not self.name(frame.f_code):
            return None
        if self.stores:
            frame.f_trace_opcodes = True
        return self.local

    def at_store(self, frame):
        """the instruction about to be executed changes an object"""
        code = frame.f_code
        if code not in self.ops:
            self.ops[code] = {i.offset for i in dis.get_instructions(code) if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_SLICE", "DELETE_SUBSCR")}
        return frame.f_lasti in self.ops[code]

    def local(self, frame, event, arg):
        if event == "opcode" and self.at_store(frame):
            k = (self.name(frame.f_code), frame.f_code.co_name, -1 - frame.f_lasti)
            if self.record is not None:
                self.record[k] = self.record.get(k, 0) + 1
            if not self.done and tuple(self.where) == k:
                self.hit()
        if event != "line":
            return self.local
        self.steps += 1
        if self.record is not None:
            k = (self.name(frame.f_code), frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
            self.record[k] = self.record.get(k, 0) + 1
        if not self.done and frame.f_lineno - frame.f_code.co_firstlineno == self.where[2] and frame.f_code.co_name == self.where[1] and self.name(frame.f_code) == self.where[0]:
            self.hit()
        return self.local

    def hit(self):
        with self.lock:
            self.hits += 1
            mine = self.hits == self.nth and not self.done
            self.done = self.done or mine
        if mine:
            self.wait()

    def wait(self):
        calm = 0
        for _ in range(300):
            before = self.steps
            time.sleep(0.001)
            calm = calm + 1 if self.steps == before else 0
            if calm >= 3:
                return

    def __enter__(self):
        threading.settrace(self.trace)

    def __exit__(self, *a):
        threading.settrace(None)


class Slow(dict):
    """an input whose keys are read in a given order"""

    def __init__(self, items, order):
        super().__init__(items)
        self.order, self.cond, self.read = list(order), threading.Condition(), set()

    def __getitem__(self, k):
        v = super().__getitem__(k)
        with self.cond:
            for o in self.order[:self.order.index(k)] if k in self.order else ():
                self.cond.wait_for(lambda: o in self.read, 0.2)
            self.read.add(k)
            self.cond.notify_all()
        return v


KEYS = {"a": (5,), "b": (3, 4), "c": (), "d": (2, 3, 2, 2), "e": (7,), "f": (64, 9)}


ERRORS = [ZeroDivisionError, OSError, MemoryError, IndexError, NotImplementedError]


def methods(seed=0):
    env, boom = {}, ERRORS[seed % len(ERRORS)].__name__
    d = lambda src, name: define_method(src, name, env, register=False)
    return dict(
        pair=d("def vc25_s_pair(a: Parameter(Tensor), b: Parameter(Tensor), alpha: Parameter(float) = 0.5) -> Return(Tensor):\n    x = a * (1 - alpha)\n    y = b * alpha\n    return x + y\n", "vc25_s_pair"),
        look=d("def vc25_s_look(a: Parameter(StateDict[Tensor]), b: Parameter(Tensor), **kwargs) -> Return(Tensor):\n    key = kwargs['key']\n    s = a['e'].sum()\n    return a[key] * 3 + b + s\n", "vc25_s_look"),
        boom=d(f"def vc25_s_boom(a: Parameter(Tensor), **kwargs) -> Return(Tensor):\n    if kwargs['key'] in ('b', 'e'):\n        raise {boom}(kwargs['key'])\n    return a\n", "vc25_s_boom"),
    )


def config():
    return synthetic_config("vc25-s", {"m": {k: (list(s), "float32", ["alias." + k] if k == "d" else [], k == "f") for k, s in KEYS.items()}}, register=True)


def tensors(seed, keys=KEYS, rename=None):
    g = torch.Generator().manual_seed(seed)
    return {(rename or {}).get(k, k): torch.randn(KEYS[k], generator=g) for k in keys}


def builtin_recipe(m, seed, cfg):
    """a recipe that applies one builtin method to dictionaries"""
    rng = random.Random(seed)
    names, types, spaces = m.get_param_names(), m.get_input_types(), m.get_input_merge_spaces()
    space = lambda s: "delta" if "delta" in str(s) and "weight" not in str(s) else "weight"

    def arg(n, t, s):
        if n in STRINGS:
            return STRINGS[n]
        if n == "seed":
            return rng.randrange(1, 100)
        if n in c13.OPTIONS:
            return rng.choice([x for x in c13.OPTIONS[n] if x is not None])
        if c13.is_dict(t) or t is torch.Tensor or not isinstance(t, type):
            return LiteralRecipeNode(tensors(rng.randrange(10**6), "ab" + ("e" if m.get_identifier() != "rotate" else "")), model_config=cfg, merge_space=space(s))
        return True if t is bool else 1.0
    args = [arg(n, t, s) for n, t, s in zip(names.args, types.args, spaces.args)]
    if names.has_varargs():
        args += [arg(names.vararg, types.vararg, spaces.vararg) for _ in range(3)]
    return m(*args, **{n: arg(n, types.kwargs[n], spaces.kwargs[n]) for n in names.kwargs})


STRINGS = {"component": "m", "device": "cpu", "dtype": "float32"}
UNSEEDED = {"copy_distribution", "truncate_rank", "rotate"}      # they draw from the global random state of torch


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def same(a, b):
    if not isinstance(a, torch.Tensor) or not isinstance(b, torch.Tensor):
        return type(a) is type(b) and a == b
    return a.dtype == b.dtype and a.shape == b.shape and same_bits(a, b)


show = lambda x: x.flatten()[:6].tolist() if isinstance(x, torch.Tensor) else x


def compare(got, want, what):
    (r, e), (r0, e0) = got, want
    check((e is None) == (e0 is None), f"{what}: fails in one schedule only", error=repr(e), expected=repr(e0))
    if e0 is not None:
        check(type(e) is type(e0), f"{what}: another error", error=repr(e), expected=repr(e0))
        return
    check(set(r) == set(r0), f"{what}: other keys", got=sorted(r)[:20], expected=sorted(r0)[:20])
    for k in r0:
        check(same(r[k], r0[k]), f"{what}: another value for a key", key=k, got=show(r[k]), expected=show(r0[k]))


class Work:
    """a merge that can be repeated with any number of threads; every repetition starts from fresh nodes"""

    def __init__(self, kind, d, seed):
        self.kind, self.d, self.seed = kind, pathlib.Path(d), seed
        self.cfg, self.m = config(), methods(seed)
        if not (self.d / "a.safetensors").exists():
            write_st(self.d / "a.safetensors", tensors(seed))
            write_st(self.d / "b.safetensors", {**tensors(seed + 1, rename={"d": "alias.d"}), "extra": torch.ones(4)}, order=["extra", "f", "alias.d", "c", "b", "e", "a"])

    def recipe(self, order=None):
        lit = lambda x: LiteralRecipeNode(x, model_config=self.cfg, merge_space="weight")
        model = lambda n: ModelRecipeNode(self.d / f"{n}.safetensors", model_config=self.cfg, merge_space="weight")
        m, kind = self.m, self.kind
        if kind.startswith("method:"):
            return builtin_recipe(merge_methods.resolve(kind[7:]), self.seed, self.cfg)
        D = tensors(self.seed + 2, "abcde")
        if order is not None:
            D = Slow(D, order)
        if kind == "files":
            return m["pair"](model("a"), m["look"](model("b"), lit(D)))
        if kind == "fallback":
            return m["pair"](lit({k: D[k] for k in "ab"}), model("b")) | m["look"](model("a"), model("b"))
        if kind == "nested":
            x = m["pair"](lit(D), model("a"), alpha=0.25)
            y = lit({"a": m["look"](model("b"), x), "b": x, "c": model("a"), "d": model("b")})
            return m["pair"](y | model("a"), x)
        if kind == "failing":
            return m["pair"](m["boom"](model("a")), lit(D))
        if kind == "many":
            cfg = synthetic_config("vc25-many", {"m": {f"k{i}": ([1 + i * 7 % 50], "float32", [], False) for i in range(90)}}, register=True)
            if not (self.d / "many.safetensors").exists():
                g = torch.Generator().manual_seed(self.seed)
                write_st(self.d / "many.safetensors", {k: torch.randn(v.shape, generator=g) for k, v in cfg.keys().items()})
            big = ModelRecipeNode(self.d / "many.safetensors", model_config=cfg, merge_space="weight")
            return m["pair"](big, LiteralRecipeNode({k: torch.full(v.shape, float(i)) for i, (k, v) in enumerate(cfg.keys().items()) if i % 9}, model_config=cfg, merge_space="weight"))
        if kind == "literal":
            return m["pair"](lit(D), lit(tensors(self.seed + 3, "abcde")))
        raise KeyError(kind)

    def options(self):
        rng = random.Random(self.seed)
        o = dict(merge_device=None, merge_dtype=rng.choice([None, torch.float64]), output_device=None, output_dtype=rng.choice([None, torch.float16, torch.float32]), tqdm=Quiet,
                 omit_extra_keys=rng.random() < 0.5, total_buffer_size=rng.choice([0, 1, 64, 200, 4000, 2**20]), strict_weight_space=False, check_finite=rng.random() < 0.5)
        return o

    def run(self, threads, output=None, order=None, schedule=None):
        """(key -> tensor, error)"""
        path = self.d / f"out{os.getpid()}.safetensors" if output == "file" else None

        def go():
            r = self.recipe(order)
            res = sd_mecha.merge(r, threads=threads, output=path, **self.options())
            return read_st(path)[1] if path is not None else dict(res)
        if schedule is None:
            return outcome(go)
        with schedule:
            return outcome(go)


def work(kind, seed):
    d = scratch_dir()
    return Work(kind, d, seed), d


def case_threads(kind, seed, output):
    """any number of threads, no particular schedule"""
    w, d = work(kind, seed)
    try:
        want = w.run(0, output)
        for threads in (1, 2, 3, 8, None):
            compare(w.run(threads, output), want, f"threads={threads}")
        if output == "file":
            compare(w.run(2), w.run(0), "in memory")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_preempted(kind, seed, output, threads, lines):
    """one preemption, at each of the given lines or stores"""
    w, d = work(kind, seed)
    try:
        want = w.run(0, output)
        for f, fn, line, nth in lines:
            compare(w.run(threads, output, schedule=Preempt((f, fn, line), nth)), want, f"a thread is preempted at {'line' if line >= 0 else 'store'} {abs(line)} of {fn} in {f} (time {nth})")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_order(kind, seed, order, threads):
    """the values of an input arrive in a given order"""
    w, d = work(kind, seed)
    try:
        want = w.run(0, None)
        compare(w.run(threads, None, order), want, f"keys evaluated in the order {order}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_stress(kind, seed, output, threads, rounds):
    """switches between threads at arbitrary instructions"""
    w, d = work(kind, seed)
    old = sys.getswitchinterval()
    try:
        want = w.run(0, output)
        sys.setswitchinterval(1e-6)
        for i in range(rounds):
            compare(w.run(threads, output), want, f"round {i}")
    finally:
        sys.setswitchinterval(old)
        shutil.rmtree(d, ignore_errors=True)


def case_method(method, seed):
    """a builtin merge method: deterministic (given its seed), and the same when every line of it is preempted"""
    w, d = work(f"method:{method}", seed)
    try:
        torch.manual_seed(1)
        want = w.run(0)
        torch.manual_seed(2)
        if method not in UNSEEDED:
            compare(w.run(0), want, "run again")
        else:
            return
        lines = {}
        torch.manual_seed(3)
        compare(w.run(2, schedule=Preempt(record=lines)), want, "two threads")
        mine = [k for k in lines if k[0].startswith("extensions/builtin")]
        for k in mine:
            compare(w.run(3, schedule=Preempt(k)), want, f"a thread is preempted at line {k[2]} of {k[1]} in {k[0]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Shared:
    """threads that write to, or read from, one file"""

    def __init__(self, kind, seed, d):
        r = random.Random(seed)
        g = torch.Generator().manual_seed(seed)
        self.kind, self.d, self.threads = kind, pathlib.Path(d), r.choice([2, 3])
        self.size = r.choice([0, 40, 64, 100])
        self.parts = [{f"t{n}.{i}": torch.randn([r.choice([3, 5, 9, 17])], generator=g) for i in range(6)} for n in range(self.threads)]
        self.all = {k: v for p in self.parts for k, v in p.items()}
        write_st(self.d / "in.safetensors", self.all)

    def run(self, schedule=None):
        got, errors = {}, []
        path = self.d / "shared.safetensors"
        if self.kind == "writer":
            f = OutSafetensorsDict(path, {k: TensorMetadata(v.shape, v.dtype) for k, v in self.all.items()}, None, self.size)
        else:
            f = InSafetensorsDict(self.d / "in.safetensors", self.size)

        def body(part):
            try:
                for k, v in part.items():
                    if self.kind == "writer":
                        f[k] = v
                    else:
                        got[k] = f[k]
            except BaseException as e:
                errors.append(repr(e))
        if schedule is not None:
            schedule.__enter__()
        try:
            th = [threading.Thread(target=body, args=(p,)) for p in self.parts]
            [t.start() for t in th]
            [t.join() for t in th]
        finally:
            if schedule is not None:
                schedule.__exit__()
            f.close()
        check(not errors, "a thread failed", errors=errors[:3])
        if self.kind == "writer":
            got = read_st(path)[1]
        check(set(got) == set(self.all), "other keys", got=sorted(got)[:20], expected=sorted(self.all)[:20])
        for k, v in self.all.items():
            check(same(got[k], v), "another value for a key", key=k, got=show(got[k]), expected=show(v))


def case_shared(kind, seed, lines):
    """one preemption, at each of the given lines or stores, of threads that use one file"""
    d = scratch_dir()
    try:
        w = Shared(kind, seed, d)
        w.run()
        for f, fn, line, nth in lines:
            w.run(Preempt((f, fn, line), nth))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shared_lines(kind, seed):
    d = scratch_dir()
    try:
        lines = {}
        outcome(lambda: Shared(kind, seed, d).run(Preempt(record=lines)))
        return lines
    finally:
        shutil.rmtree(d, ignore_errors=True)


def lines_of(kind, seed, output):
    """the lines that the tasks of a merge execute, with the number of times"""
    w, d = work(kind, seed)
    try:
        lines = {}
        w.run(2, output, schedule=Preempt(record=lines))
        return lines
    finally:
        shutil.rmtree(d, ignore_errors=True)


CASES = {"threads": case_threads, "preempted": case_preempted, "order": case_order, "stress": case_stress, "method": case_method, "shared": case_shared}
KINDS = ["files", "fallback", "nested", "failing", "literal"]


def suite(S):
    plain = [m.get_identifier() for m in c13.builtin_methods() if m not in merge_methods.get_all_converters()]
    for k in (*KINDS, "many"):
        for o in ("file", None):
            S.run("threads", kind=k, seed=S.rng.randrange(1000), output=o)
    for i in range(len(ERRORS)):
        S.run("threads", kind="failing", seed=i, output=None)
    cases = []
    for k in ("writer", "reader"):
        for _ in range(3 if not S.thorough else 30):
            seed = S.rng.randrange(10**6)
            lines = sorted(shared_lines(k, seed).items())
            todo = [[*w, i] for w, n in lines for i in ([*range(1, min(n, 4) + 1)] if not S.thorough else [*range(1, n + 1)])]
            n = max(3, len(todo) // 50)
            cases += [dict(kind=k, seed=seed, lines=todo[i::n]) for i in range(n)]
    S.rng.shuffle(cases)
    S.parallel("shared", cases)
    S.parallel("method", [dict(method=m, seed=S.rng.randrange(1000)) for m in plain for _ in range(1 if not S.thorough else 10)])
    orders = list(itertools.permutations("abcd"))
    S.parallel("order", [dict(kind=k, seed=i, order="".join(o), threads=5) for i, o in enumerate(S.rng.sample(orders, 8 if not S.thorough else 24)) for k in ("literal", "nested")])
    cases = []
    plan = [("files", "file", 2), ("nested", None, 1), ("fallback", "file", 1), ("failing", "file", 1), ("literal", None, 1)]
    if S.thorough:
        plan = [(k, o, 2) for k in KINDS for o in ("file", None)] * 10
    for k, o, times in plan:
        seed = S.rng.randrange(1000)
        lines = sorted(lines_of(k, seed, o).items())
        todo = [[*w, 1] for w, n in lines] + [[*w, i] for w, n in lines for i in ({2, 3, S.rng.randint(2, n)} if w[0] == "streaming.py" and n > 3 else {S.rng.randint(2, n)} if n > 1 and times > 1 else ())]
        n = max(6, len(todo) // 25)
        cases += [dict(kind=k, seed=seed, output=o, threads=S.rng.choice([2, 3]), lines=todo[i::n]) for i in range(n)]
    S.rng.shuffle(cases)
    S.parallel("preempted", cases)
    i = 0
    while S.more() and i < (6 if not S.thorough else 300):
        S.parallel("stress", [dict(kind=k, seed=S.rng.randrange(1000), output=o, threads=8, rounds=3) for k in (*KINDS, "many") for o in ("file", None)])
        i += 1
