"""
Frame conditions of a task that runs concurrently with others: every object that the code under contract writes (attribute, item,
in-place operation, mutating method of a builtin container, global variable, process-wide state of a library) is either allocated by
the task itself or guarded by a condition stated in the contract (for instance: its lock is held).
"""
import collections
import gc
import sys
import types
import random
import torch
import numpy
from . import core
from .core import Unsupported

MUTATORS = {
    list: {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__", "__imul__"},
    dict: {"update", "setdefault", "pop", "popitem", "clear", "move_to_end", "__setitem__", "__delitem__", "__ior__"},
    set: {"add", "update", "discard", "remove", "pop", "clear", "difference_update", "intersection_update", "symmetric_difference_update", "__ior__", "__iand__", "__isub__", "__ixor__"},
    collections.deque: {"append", "appendleft", "extend", "extendleft", "pop", "popleft", "clear", "insert", "remove", "rotate"},
    bytearray: {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "__setitem__", "__delitem__", "__iadd__"},
}
IN_PLACE = (list, dict, set, collections.deque, bytearray, torch.Tensor, numpy.ndarray)
# process-wide state: a task that sets it races with the others
GLOBAL_STATE = {f for f in (
    torch.manual_seed, torch.seed, torch.set_rng_state, torch.set_default_dtype, torch.set_default_device, torch.set_num_threads, torch.use_deterministic_algorithms,
    torch.set_float32_matmul_precision, torch.cuda.manual_seed, torch.cuda.manual_seed_all, torch.random.fork_rng, torch.initial_seed,
    random.seed, random.setstate, random.random, random.gauss, random.randrange, random.choice, random.shuffle, random.sample, random.uniform, random.randint,
    numpy.random.seed, numpy.random.set_state, numpy.random.rand, numpy.random.randn, numpy.random.random, numpy.random.binomial, numpy.random.choice, numpy.random.permutation, numpy.random.shuffle,
    sys.setrecursionlimit, sys.setswitchinterval, gc.disable, gc.enable,
) if callable(f)}


def _foreign(name):
    return not (isinstance(name, str) and (name == "sd_mecha" or name.startswith("sd_mecha.")))


def _leaf(o):
    """objects that the closure does not enter"""
    if o is None or isinstance(o, (int, float, complex, str, bytes, torch.Tensor, torch.dtype, torch.device, numpy.ndarray, types.CodeType, types.BuiltinFunctionType)):
        return True
    if type(o).__module__.partition(".")[0] in ("vc", "contracts", "z3"):      # the verifier's own objects
        return True
    if isinstance(o, types.ModuleType):
        return _foreign(o.__name__)
    if isinstance(o, type):
        return _foreign(o.__module__)
    if isinstance(o, types.FunctionType):
        return _foreign(o.__module__)
    if type(o) is dict and "__name__" in o and "__builtins__" in o:      # globals of a module
        return _foreign(o["__name__"])
    return False


def closure(roots, known=()):
    """everything reachable from the roots (kept alive by the result), except for what is known already"""
    seen, work = {}, list(roots)
    while work:
        o = work.pop()
        if id(o) in seen or id(o) in known or isinstance(o, (int, float, complex, str, bytes, type(None))):
            continue
        seen[id(o)] = o
        if not _leaf(o):
            work.extend(gc.get_referents(o))
            if isinstance(o, (types.SimpleNamespace,)) or hasattr(o, "__dict__") and not isinstance(o, type):
                work.append(o.__dict__)
    return seen


_shared = None


def shared_state():
    """the modules of the package and everything they refer to"""
    global _shared
    if _shared is None:
        _shared = closure(m for n, m in list(sys.modules.items()) if not _foreign(n))
    return _shared


def _content(v):
    if isinstance(v, dict):
        return [(k, id(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [id(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {id(x) for x in v}
    return None


class Frame:
    """`publish`: classes whose fields may also be filled in by any task, once, with a complete value that is not changed afterwards"""

    def __init__(self, c, roots, guards=None, what="a task writes only what it allocated itself", publish=()):
        self.c, self.what, self.publish = c, what, publish
        self.published = []
        self.before = {}
        self.pre = [shared_state(), closure(roots, shared_state())]
        self.guards = {id(o): g for o, g in (guards or [])}
        self.keep = [guards]
        self.writes = 0
        self.allowed = {}

    def exclude(self, roots):
        """objects of this task alone"""
        for o in roots:
            self.allowed[id(o)] = o
            d = getattr(o, "__dict__", None)
            if d is not None:
                self.allowed[id(d)] = d

    def stored(self, o, attr):
        """after the store that `write` announced with how="field" """
        if core._aborting or id(o) not in self.before:
            return
        old, new = self.before.pop(id(o)).get(attr), vars(o).get(attr)
        self.c.prove(f"{self.what}: a shared field is only filled in once, with a complete value", old is None and new is not None)
        self.published.append((o, attr, new, _content(new)))

    def finish(self):
        """what was published has not been changed since"""
        for o, attr, v, content in self.published:
            self.c.prove(f"{self.what}: a published value is not changed any more", vars(o).get(attr) is v and _content(v) == content)

    def write(self, o, how=""):
        if core._aborting:
            return
        self.writes += 1
        g = self.guards.get(id(o))
        if g is not None:
            self.c.prove(f"{self.what}: {type(o).__name__} is protected when it is written", bool(g()))
            return
        if id(o) in self.allowed:
            return
        if any(id(o) in p for p in self.pre):
            if how == "field" and isinstance(o, self.publish):
                self.before[id(o)] = dict(vars(o))
                return
            self.c.prove(self.what, False, detail=f"{how} of a shared {type(o).__name__}")

    def effect(self, f):
        if not core._aborting:
            self.c.prove(f"{self.what}: no process-wide state is changed", False, detail=getattr(f, "__qualname__", repr(f)))

    def call(self, f, args):
        t = type(f)
        if t is types.BuiltinFunctionType or t is types.MethodWrapperType:
            s = f.__self__
            if s is not None:
                for k, names in MUTATORS.items():
                    if isinstance(s, k):
                        if f.__name__ in names:
                            self.write(s, f.__name__)
                        return
        elif t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
            if args and f.__name__ in ("__setattr__", "__delattr__") or args and any(isinstance(args[0], k) and f.__name__ in names for k, names in MUTATORS.items()):
                self.write(args[0], f.__name__)
                return
        if f is setattr or f is delattr or f is next:
            if f is not next or not _foreign(type(args[0]).__module__) or isinstance(args[0], types.GeneratorType):
                self.write(args[0], f.__name__)
            return
        try:
            if f in GLOBAL_STATE:
                self.effect(f)
        except TypeError:
            pass
