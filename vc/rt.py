"""Run-time side of the rewriting: calls, loops, comprehensions, f-strings, handlers."""
import builtins
import collections
import math
import functools
import itertools
import json
import operator
import os
import struct
import sys
import types
import typing
from . import *
import z3
from . import core
from .core import Unsupported, PathEnd, EngineSignal, pyraise
from .values import *

HERE = os.path.dirname(os.path.abspath(__file__))
PKG = None
HANDLERS = {}        # callable -> model(args, kwargs); NotImplemented means: call it natively
METHODS = {}         # (type, method name) -> model(self, args, kwargs)
SAFE = set()         # natives that only use operators of their arguments


def handler(*fs):
    def deco(g):
        for f in fs:
            HANDLERS[f] = g
        return g
    return deco


def method(t, *names):
    def deco(g):
        for n in names:
            METHODS[t, n] = g
        return g
    return deco


def has_sym(args, kwargs=()):
    for a in args:
        if is_sym(a):
            return True
    for a in kwargs and kwargs.values():
        if is_sym(a):
            return True
    return False


def deep_sym(v, depth=3):
    if is_sym(v):
        return True
    if depth == 0:
        return False
    t = type(v)
    if t in (list, tuple, set, frozenset):
        return any(deep_sym(x, depth - 1) for x in v)
    if t in (dict, collections.OrderedDict):
        return any(deep_sym(x, depth - 1) for kv in v.items() for x in kv)
    return False


SAFE.update([
    isinstance, issubclass, getattr, setattr, hasattr, callable, id, iter, next, min, max, sum, any, all, sorted, reversed,
    map, filter, zip, enumerate, list, tuple, dict, set, frozenset, print, abs, divmod, round, object, slice, property,
    functools.reduce, collections.OrderedDict, itertools.chain, itertools.chain.from_iterable, sys.exc_info,
])
SAFE.update(getattr(operator, n) for n in ("or_", "and_", "add", "sub", "mul", "eq", "lt", "le", "gt", "ge", "getitem", "contains", "not_", "truth"))
CONTAINER_METHODS = (list, dict, set, frozenset, tuple, collections.OrderedDict, collections.deque)


def vc_call(f, /, *args, **kwargs):
    c = core._ctx
    if c is None:
        return f(*args, **kwargs)
    if core._aborting:
        raise PathEnd()
    if c.frame is not None:
        c.frame.call(f, args)
    c.steps += 1
    if c.steps > c.engine.max_steps:
        raise Unsupported(f"more than {c.engine.max_steps} calls on one path")
    t = type(f)
    if c.overrides:
        o = c.overrides.get(f) if t is not types.MethodType else c.overrides.get(f.__func__)
        if o is not None:
            c.engine.contracts_used[getattr(f, "__qualname__", repr(f))] = c.engine.contracts_used.get(getattr(f, "__qualname__", repr(f)), 0) + 1
            r = o(f.__self__, *args, **kwargs) if t is types.MethodType else o(*args, **kwargs)
            if r is not NotImplemented:
                return r
    if t is types.FunctionType:
        h = HANDLERS.get(f)
        if h is not None:
            r = h(args, kwargs)
            if r is not NotImplemented:
                return r
        return f(*args, **kwargs)
    if t is types.MethodType:
        h = HANDLERS.get(f.__func__)
        if h is not None:
            r = h((f.__self__, *args), kwargs)
            if r is not NotImplemented:
                return r
        return f(*args, **kwargs)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        r = h(args, kwargs)
        if r is not NotImplemented:
            return r
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType:
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            m = METHODS.get((type(s), f.__name__))
            if m is not None:
                r = m(s, args, kwargs)
                if r is not NotImplemented:
                    return r
            if isinstance(s, CONTAINER_METHODS) or is_sym(s):
                return f(*args, **kwargs)
    if is_sym(f):
        return f(*args, **kwargs)
    if has_sym(args, kwargs):
        try:
            if f in SAFE:
                return f(*args, **kwargs)
        except TypeError:
            pass
        if isinstance(f, type):
            if f.__module__ and not _is_c_class(f):
                return f(*args, **kwargs)
            raise Unsupported(f"native class {f.__name__} called with symbolic arguments")
        if hasattr(type(f), "__call__") and isinstance(getattr(type(f), "__call__"), types.FunctionType):
            return f(*args, **kwargs)
        if isinstance(f, (functools.partial, types.GenericAlias)):
            return f(*args, **kwargs)
        if any(getattr(type(a), "__torch_function__", None) is not None and is_sym(a) for a in (*args, *kwargs.values())):
            return f(*args, **kwargs)   # torch dispatches to the model
        raise Unsupported(f"native {getattr(f, '__qualname__', f)!r} called with symbolic arguments")
    return f(*args, **kwargs)


def vc_callkw(f, args, *kws):
    """f(*args, **kw1, **kw2): keyword names may be symbolic"""
    if core._ctx is not None and any(type(k) in DICTS and has_sym_key(k) for k in kws):
        merged = {}
        for d in kws:
            for k, v in d.items():
                if find_key(merged, k) is not None:
                    pyraise(TypeError(f"{f} got multiple values for a keyword argument"))
                merged[k] = v
        if f is dict:
            res = dict(*args)
            for k, v in merged.items():
                vc_setitem(v, res, k)
            return res
        raise Unsupported("symbolic keyword names")
    if len(kws) == 1:
        return vc_call(f, *args, **kws[0])
    n = 0
    merged = {}
    for d in kws:
        n += len(d)
        merged.update(d)
    if n != len(merged):
        pyraise(TypeError(f"{f} got multiple values for a keyword argument"))
    return vc_call(f, *args, **merged)


def _is_c_class(f):
    init = f.__init__
    new = f.__new__
    return not isinstance(init, types.FunctionType) and not isinstance(new, types.FunctionType) and not issubclass(f, BaseException)


# ----------------------------------------------------------------- builtins with symbolic arguments
@handler(len)
def _len(args, kwargs):
    x = args[0]
    f = getattr(type(x), "vc_len", None)
    if f is not None:
        return f(x)
    return NotImplemented


@handler(type)
def _type(args, kwargs):
    if len(args) == 1 and is_sym(args[0]):
        return args[0].__class__
    return NotImplemented


@handler(int)
def _int(args, kwargs):
    if not args or not is_sym(args[0]):
        return NotImplemented
    x = args[0]
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return mkint(zint(x))
    if type(x) is SReal:
        return x.__trunc__()
    f = getattr(type(x), "vc_int", None)
    if f is not None:
        return f(x)
    raise Unsupported(f"int of {type(x).__name__}")


@handler(float)
def _float(args, kwargs):
    if not args or not is_sym(args[0]):
        return NotImplemented
    x = args[0]
    if type(x) in (SInt, SBool, SReal):
        return mkreal(zreal(x))
    f = getattr(type(x), "vc_float", None)
    if f is not None:
        return f(x)
    raise Unsupported(f"float of {type(x).__name__}")


@handler(math.fmod)
def _fmod(args, kwargs):
    if not has_sym(args):
        return NotImplemented
    x, y = zreal(args[0]), zreal(args[1])
    if core.ctx().branch(y == 0, "fmod by zero"):
        core.pyraise(ValueError("math domain error"))
    return mkreal(x - y * z3.ToReal(trunc(x / y)))


@handler(math.modf)
def _modf(args, kwargs):
    if not has_sym(args):
        return NotImplemented
    x = zreal(args[0])
    w = z3.ToReal(trunc(x))
    return mkreal(x - w), mkreal(w)


@handler(math.trunc, math.floor, math.ceil)
def _to_integer(args, kwargs):
    return NotImplemented     # through the methods of the value


@handler(bool)
def _bool(args, kwargs):
    if not args or not is_sym(args[0]):
        return NotImplemented
    x = args[0]
    if type(x) is SBool:
        return x
    if type(x) in (SInt, SReal):
        return mkbool(x.e != 0)
    return True if x else False


def _classes(info):
    """the classes of an isinstance/issubclass argument: Python's typing unions do not look at __class__"""
    if isinstance(info, tuple):
        return tuple(c for i in info for c in _classes(i))
    if typing.get_origin(info) in (typing.Union, types.UnionType):
        return tuple(c for i in typing.get_args(info) for c in _classes(i))
    return (typing.get_origin(info) or info,)


@handler(isinstance)
def _isinstance(args, kwargs):
    if len(args) == 2 and is_sym(args[0]):
        return isinstance(args[0], _classes(args[1])) or issubclass(args[0].__class__, _classes(args[1]))
    return NotImplemented


def _mkbytes(cls, args):
    x = args[0] if args else b""
    mutable = cls is bytearray
    mk = SByteArray if mutable else SBytes
    if type(x) is SInt or type(x) is int and mutable:
        c = core.ctx()
        if c.branch(zint(x) < 0, "negative size"):
            pyraise(ValueError("negative count"))
        return mk(zint(x), lambda i: z3.IntVal(0))
    if type(x) in (SBytes, SByteArray, bytes, bytearray, memoryview):
        b = as_bytes(x)
        return mk(b.length, b.at, b.tag)
    return NotImplemented


HANDLERS[bytes] = lambda a, k: _mkbytes(bytes, a) if a and is_sym(a[0]) else NotImplemented
HANDLERS[bytearray] = lambda a, k: _mkbytes(bytearray, a) if a and is_sym(a[0]) or core.ctx().model_bytearray else NotImplemented


@handler(memoryview)
def _memoryview(args, kwargs):
    if type(args[0]) in (SBytes, SByteArray):
        return args[0]
    return NotImplemented


class SRange(Model):
    """range with symbolic bounds"""
    pytype = range

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        return iter_symbolic(self)

    def vc_loop(self, loop):
        contract = core.ctx().__dict__.get("range_loop")
        if contract is None:
            raise Unsupported(f"loop over a symbolic range at {loop.func}:{loop.line}")
        return contract(loop, self)


@handler(range)
def _range(args, kwargs):
    if not has_sym(args):
        return NotImplemented
    a = list(args)
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = [a[0], a[1], 1]
    c = core.ctx()
    if c.branch(zint(a[2]) == 0, "range step 0"):
        pyraise(ValueError("range() arg 3 must not be zero"))
    return SRange(*a)


@handler(repr, str, format, ascii)
def _str(args, kwargs):
    return NotImplemented


def to_text(v):
    from . import strings
    return strings.to_text(v)


HANDLERS[str] = lambda a, k: to_text(a[0]) if a and is_sym(a[0]) else NotImplemented
HANDLERS[repr] = lambda a, k: to_text(a[0]) if a and is_sym(a[0]) else NotImplemented


@handler(hash)
def _hash(args, kwargs):
    if is_sym(args[0]):
        return 104729
    return NotImplemented


@method(str, "join")
def _join(s, args, kwargs):
    from . import strings
    items = list(args[0])
    if any(is_sym(i) for i in items):
        return strings.join(s, items)
    return s.join(items)


for _n in ("replace", "startswith", "endswith", "__add__", "__contains__", "find", "index", "split", "count", "format", "strip", "lstrip", "rstrip"):
    @method(str, _n)
    def _strm(s, args, kwargs, _n=_n):
        if has_sym(args, kwargs):
            from . import strings
            return getattr(strings.SStr.of(s), _n)(*args, **kwargs)
        return NotImplemented


def vc_fstr(*parts):
    from . import strings
    if core._ctx is None or not any(type(p) is tuple and deep_sym(p[0]) for p in parts):
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == ord("r"):
                    v = repr(v)
                elif conv == ord("s"):
                    v = str(v)
                elif conv == ord("a"):
                    v = ascii(v)
                out.append(format(v, spec))
            else:
                out.append(p)
        return "".join(out)
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if is_sym(v):
                if spec:
                    raise Unsupported("format spec of a symbolic value")
                out.append(strings.to_text(v))
            elif deep_sym(v):
                out.append(strings.opaque_text(v))
            else:
                out.append(vc_fstr(p))
        else:
            out.append(p)
    return strings.join("", out)


# ----------------------------------------------------------------- keyed access
def is_symkey(k):
    """equality of k is symbolic (hashing cannot be used)"""
    return is_sym(k) or type(k) is tuple and deep_sym(k) or getattr(k, "vc_symkey", False) is True


def has_sym_key(m):
    return any(map(is_symkey, m))


def find_key(m, k):
    """the key of a native dict or set that equals k (forks on symbolic equality), or None"""
    if not is_symkey(k) and not has_sym_key(m):
        return (k,) if k in m else None
    for x in list(m):
        if x is k:
            return (x,)
    for x in list(m):
        if x == k:
            return (x,)
    return None


DICTS = (dict, collections.OrderedDict, collections.defaultdict)


def vc_is(x, y):
    f = getattr(type(x), "vc_is", None)
    if f is not None:
        return f(x, y)
    f = getattr(type(y), "vc_is", None)
    return f(y, x) if f is not None else x is y


def vc_in(x, m):
    if core._ctx is not None and type(m) in (*DICTS, set, frozenset, types.MappingProxyType):
        return find_key(m, x) is not None
    if core._ctx is not None and type(m) in (type({}.keys()), type(collections.OrderedDict().keys())):
        return find_key(m.mapping, x) is not None
    if core._ctx is not None and type(m) is str and is_sym(x):
        from . import strings
        if type(x) is strings.SStr and x.text() is not None:
            return x.text() in m
        if type(x) is strings.SChar:
            return any(x == ch for ch in m)
        raise Unsupported("symbolic substring")
    return x in m


def vc_getitem(m, k):
    if core._ctx is not None and type(m) in DICTS:
        f = find_key(m, k)
        if f is not None:
            return m[f[0]]
        if type(m) is collections.defaultdict:
            m[k] = m.default_factory()
            return m[k]
        if is_sym(k):
            pyraise(KeyError(k))
    return m[k]


def vc_setitem(v, m, k):
    if core._ctx is not None and core._ctx.frame is not None:
        core._ctx.frame.write(m, "item")
    if core._ctx is not None and type(m) in DICTS:
        f = find_key(m, k)
        if f is not None:
            m[f[0]] = v
            return
    m[k] = v


def _dict_get(s, args, kwargs):
    if not is_sym(args[0]) and not has_sym_key(s):
        return NotImplemented
    f = find_key(s, args[0])
    if f is not None:
        return s[f[0]]
    return args[1] if len(args) > 1 else kwargs.get("default")


def _dict_setdefault(s, args, kwargs):
    if not is_sym(args[0]) and not has_sym_key(s):
        return NotImplemented
    f = find_key(s, args[0])
    if f is None:
        s[args[0]] = args[1] if len(args) > 1 else None
        return s[args[0]]
    return s[f[0]]


def _dict_pop(s, args, kwargs):
    if not is_sym(args[0]) and not has_sym_key(s):
        return NotImplemented
    f = find_key(s, args[0])
    if f is None:
        if len(args) > 1:
            return args[1]
        pyraise(KeyError(args[0]))
    v = s[f[0]]
    del s[f[0]]
    return v


def _dict_update(s, args, kwargs):
    for a in args:
        g = getattr(type(a), "vc_update_into", None)
        if g is not None:
            raise Unsupported("update of a native dict from a symbolic map")
    if not has_sym_key(s) and not any(type(a) in DICTS and has_sym_key(a) for a in args):
        return NotImplemented
    for a in args:
        for k, v in (a.items() if hasattr(a, "items") else a):
            vc_setitem(v, s, k)
    for k, v in kwargs.items():
        vc_setitem(v, s, k)


def _set_add(s, args, kwargs):
    if find_key(s, args[0]) is None:
        s.add(args[0])


for _t in DICTS:
    METHODS[_t, "get"] = _dict_get
    METHODS[_t, "setdefault"] = _dict_setdefault
    METHODS[_t, "pop"] = _dict_pop
    METHODS[_t, "update"] = _dict_update
METHODS[set, "add"] = _set_add


# ----------------------------------------------------------------- loops
class _Native:
    vars = {}
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


_Native.vars = {}


class Loop:
    """a `for` statement over a symbolic container: its vc_loop(loop) is a generator that states the loop contract;
    it reads the locals with loop.locals() and sets them with loop.vars"""
    def __init__(self, source, info, frame):
        self.source, self.info = source, info
        self.file, self.func, self.line, self.assigned, self.used = info
        self.vars = {}
        self.frame = frame

    def locals(self):
        return dict(self.frame.f_locals)

    def __iter__(self):
        g = self.source.vc_loop(self)

        def run():
            for x in g:
                yield x
                self.vars = {}
        # `vars` is set by the contract before it yields or ends; the rewritten body copies it into the locals
        return g


def vc_loop(it, info):
    if core._ctx is None:
        return _Native(it)
    if getattr(type(it), "vc_loop", None) is not None:
        return Loop(it, info, sys._getframe(1))
    return _Native(it)


class _NativeWhile:
    vars = {}

    @staticmethod
    def step():
        return True


class While(Loop):
    """a `while` statement under a contract: a generator that establishes the invariant, assumes it of an arbitrary state
    (its `vars` are copied into the locals), yields, and after one iteration proves it again"""
    def __init__(self, contract, info, frame):
        super().__init__(None, info, frame)
        self.iterations = 0
        self.g = contract(self)
        next(self.g)

    def step(self):
        self.iterations += 1
        if self.iterations == 1:
            return True
        for _ in self.g:
            raise Unsupported("a while contract that yields twice")
        raise PathEnd()


def vc_while(info):
    if core._ctx is None:
        return _NativeWhile
    contract = core._ctx.__dict__.get("while_loop")
    loop = contract(info) if contract is not None else None
    return While(loop, info, sys._getframe(1)) if loop is not None else _NativeWhile


def iter_symbolic(src):
    raise Unsupported(f"native iteration over {type(src).__name__}")


def vc_comp(kind, fn, src):
    if core._ctx is not None:
        f = getattr(type(src), "vc_comp", None)
        if f is not None:
            return f(src, kind, fn)
    if kind == "list":
        return list(fn(iter(src)))
    if kind == "set":
        return set(fn(iter(src)))
    if kind == "dict":
        return dict(fn(iter(src)))
    return fn(iter(src))


# ----------------------------------------------------------------- exceptions
def innermost(e):
    tb = e.__traceback__
    if tb is None:
        return None
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename


def from_program(e):
    """was the exception raised by the verified program (or a model on its behalf) rather than by the engine?"""
    if getattr(e, "_from_repo", False):
        return True
    fn = innermost(e)
    if fn is None:
        return True
    if fn.startswith(os.path.dirname(HERE) + "/") or "/z3/" in fn or "/cvc5/" in fn:
        # operators and natives called from the dispatcher on behalf of the program are the program's
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        return tb.tb_frame.f_code in (vc_call.__code__, vc_callkw.__code__, vc_comp.__code__, vc_fstr.__code__, vc_in.__code__, vc_getitem.__code__, vc_setitem.__code__, find_key.__code__)
    return True


def vc_handler():
    if core._ctx is None:
        return
    e = sys.exc_info()[1]
    if isinstance(e, EngineSignal):
        raise e
    if not from_program(e):
        raise Unsupported(f"engine error: {type(e).__name__}: {e}") from e


def vc_aborting():
    return core._aborting


_names = {}


def vc_enter(file, qual, line):
    c = core._ctx
    if c is None:
        return
    if core._aborting:
        raise PathEnd()
    c.engine.tick()
    k = _names.get((file, qual))
    if k is None:
        k = _names[file, qual] = f"{os.path.relpath(file, '/repo')}:{qual}"
    c.engine.functions[k] = c.engine.functions.get(k, 0) + 1


def vc_w(o, how="store"):
    """the object whose attribute or item is stored or deleted"""
    c = core._ctx
    if c is not None and c.frame is not None:
        c.frame.write(o, how)
    return o


def vc_stored(o, attr):
    c = core._ctx
    if c is not None and c.frame is not None:
        c.frame.stored(o, attr)


def vc_aug(o):
    c = core._ctx
    if c is not None and c.frame is not None:
        from .frames import IN_PLACE
        if isinstance(o, IN_PLACE):
            c.frame.write(o, "in-place operation")


def vc_global(name):
    c = core._ctx
    if c is not None and c.frame is not None:
        c.frame.effect(f"global {name}")


def install_builtins():
    builtins.__vc_w__ = vc_w
    builtins.__vc_stored__ = vc_stored
    builtins.__vc_aug__ = vc_aug
    builtins.__vc_global__ = vc_global
    builtins.__vc_call__ = vc_call
    builtins.__vc_callkw__ = vc_callkw
    builtins.__vc_in__ = vc_in
    builtins.__vc_is__ = vc_is
    builtins.__vc_getitem__ = vc_getitem
    builtins.__vc_setitem__ = vc_setitem
    builtins.__vc_fstr__ = vc_fstr
    builtins.__vc_loop__ = vc_loop
    builtins.__vc_while__ = vc_while
    builtins.__vc_comp__ = vc_comp
    builtins.__vc_handler__ = vc_handler
    builtins.__vc_aborting__ = vc_aborting
    builtins.__vc_enter__ = vc_enter
