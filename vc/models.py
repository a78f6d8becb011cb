"""Models (assumed contracts) of dependencies that the verified code calls.  Every model is listed in the trusted base."""
import collections
import json
import io
import math
import threading
import pathlib
import struct
import sys
import torch
from . import *
import z3
from . import core, rt
from .core import Unsupported, PathEnd, pyraise
from .values import *
from . import strings
from .strings import SStr, Atom


# ----------------------------------------------------------------- pathlib
class SPath(Model):
    """a path of which only the text is known; Path(str(p)) == p"""
    pytype = pathlib.PosixPath

    def __init__(self, text):
        self.text = text

    def vc_str(self):
        return self.text

    def __eq__(self, o):
        if type(o) is SPath:
            return self.text == o.text
        if isinstance(o, pathlib.PurePath):
            return self.text == str(o)
        return False

    def __hash__(self):
        return 104729

    def __repr__(self):
        return f"SPath({self.text!r})"


@rt.handler(pathlib.Path, pathlib.PosixPath, pathlib.PurePath)
def _path(args, kwargs):
    if len(args) == 1 and is_sym(args[0]):
        if type(args[0]) is SPath:
            return args[0]
        if type(args[0]) is SStr:
            return SPath(args[0])
        pyraise(TypeError("expected str or os.PathLike"))
    return NotImplemented


# ----------------------------------------------------------------- maps with arbitrary content
class GMap(Model):
    """
    A dictionary of arbitrary size and content.  Entries are decided when they are looked at: `elem(key)` makes an arbitrary value
    that satisfies the invariant of the elements.  `measure(value)` with `total` sums a quantity over all entries.
    """
    pytype = dict

    def __init__(self, elem=None, measure=None, total=None, length=None, closed=False, name="map", lazy=None, pytype=None):
        self.known = []          # [key, present, value]
        self.elem, self.measure, self.total, self.length, self.closed, self.name, self.lazy = elem, measure, total, length, closed, name, lazy
        self.pytype_ = pytype or dict
        self.loop_contract = None

    @property
    def __class__(self):
        return self.pytype_

    def __repr__(self):
        return f"GMap({self.name})"

    def __hash__(self):
        return id(self)

    def track(self, key, present, value=None):
        self.known.append([key, present, value])
        if present and self.total is not None:
            self._bound()
        return self

    def _bound(self):
        c = core.ctx()
        c.assume(z3.Sum([z3.IntVal(0)] + [self.measure(v) for _, p, v in self.known if p]) <= self.total)

    def entry(self, key):
        for e in self.known:
            if e[0] is key:
                return e
        for e in self.known:
            if e[0] == key:
                return e
        if self.closed:
            e = [key, False, None]
        elif self.lazy is not None:
            r = self.lazy(key)
            e = [key, r is not None, r[0] if r is not None else None]
        else:
            c = core.ctx()
            if c.choice(2, f"key in {self.name}") == 0:
                e = [key, False, None]
            else:
                e = [key, True, self.elem(key)]
        self.known.append(e)
        if e[1] and self.total is not None:
            self._bound()
        return e

    def copy(self):
        m = GMap(self.elem, self.measure, self.total, self.length, self.closed, self.name, self.lazy)
        m.known = [list(e) for e in self.known]
        m.lazy = (lambda k: self._peek(k)) if not self.closed else None
        return m

    def _peek(self, k):
        e = self.entry(k)
        return (e[2],) if e[1] else None

    # mapping protocol
    def __contains__(self, key):
        return self.entry(key)[1]

    def __getitem__(self, key):
        e = self.entry(key)
        if not e[1]:
            pyraise(KeyError(key))
        return e[2]

    def get(self, key, default=None):
        e = self.entry(key)
        return e[2] if e[1] else default

    def setdefault(self, key, default=None):
        e = self.entry(key)
        if not e[1]:
            self[key] = default
        return self.entry(key)[2]

    def __setitem__(self, key, value):
        e = self.entry(key)
        if self.total is not None:
            new = self.measure(value)
            self.total = z3.simplify(self.total + new - (self.measure(e[2]) if e[1] else 0)) if new is not None else None
        if self.length is not None and not e[1]:
            self.length = self.length + 1
        e[1], e[2] = True, value

    def __delitem__(self, key):
        e = self.entry(key)
        if not e[1]:
            pyraise(KeyError(key))
        if self.total is not None:
            self.total = z3.simplify(self.total - self.measure(e[2]))
        if self.length is not None:
            self.length = self.length - 1
        e[1], e[2] = False, None

    def pop(self, key, *default):
        e = self.entry(key)
        if not e[1]:
            if default:
                return default[0]
            pyraise(KeyError(key))
        v = e[2]
        del self[key]
        return v

    def update(self, other=(), **kw):
        if type(other) is GView:
            other = other.m
        if type(other) is GMap:
            keys = [e[0] for e in self.known] + [e[0] for e in other.known]
            for k in keys:
                other.entry(k)
                self.entry(k)
            sets = [(e[0], e[2]) for e in other.known if e[1]]
            rest = None
            if self.total is not None:
                rest = None if other.total is None else other.total - z3.Sum([z3.IntVal(0)] + [self.measure(v) for _, v in sets])
            for k, v in sets:
                self[k] = v
            if self.total is not None:
                # keys other than the tracked ones are new (keys are distinct) and add their measure
                self.total = z3.simplify(self.total + rest) if rest is not None else None
            old_lazy, old_elem, closed = self.lazy, self.elem, self.closed
            if not other.closed:
                snapshot = other.copy()

                def lazy(k):
                    e = snapshot.entry(k)
                    if e[1]:
                        return (e[2],)
                    if closed:
                        return None
                    if old_lazy is not None:
                        return old_lazy(k)
                    return (old_elem(k),) if core.ctx().choice(2, "key") else None
                self.lazy, self.closed = lazy, False
            self.length = None if self.length is None or other.length is None else self.length + other.length
            return
        for k, v in (other.items() if hasattr(other, "items") else other):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        for e in self.known:
            e[1], e[2] = False, None
        self.closed, self.lazy = True, None
        if self.total is not None:
            self.total = z3.IntVal(0)
        if self.length is not None:
            self.length = 0

    def keys(self):
        return GView(self, "keys")

    def values(self):
        return GView(self, "values")

    def items(self):
        return GView(self, "items")

    def vc_len(self):
        if self.length is None:
            raise Unsupported(f"size of {self.name}")
        return mkint(zint(self.length))

    def __bool__(self):
        if self.length is None:
            for e in self.known:
                if e[1]:
                    return True
            if self.closed:
                return False
            return core.ctx().choice(2, f"{self.name} is not empty") == 1
        return bool(mkbool(zint(self.length) > 0))

    def __iter__(self):
        return iter(GView(self, "keys"))

    def __or__(self, o):
        m = self.copy()
        m.update(o)
        return m

    def vc_loop(self, loop):
        return GView(self, "keys").vc_loop(loop)

    def vc_comp(self, kind, fn):
        return GView(self, "keys").vc_comp(kind, fn)


class GView(Model):
    """keys(), values() or items() of a GMap (any order)"""

    def __init__(self, m, what):
        self.m, self.what = m, what

    @property
    def __class__(self):
        return {"keys": type({}.keys()), "values": type({}.values()), "items": type({}.items())}[self.what]

    def of(self, k, v):
        return {"keys": k, "values": v, "items": (k, v)}[self.what]

    def vc_len(self):
        return self.m.vc_len()

    def __contains__(self, k):
        if self.what != "keys":
            raise Unsupported("membership in values of an arbitrary map")
        return k in self.m

    def __iter__(self):
        raise Unsupported(f"native iteration over the arbitrary map {self.m.name}")

    def vc_comp(self, kind, fn):
        m, self_ = self.m, self

        def at(k):
            e = m.entry(k)
            if not e[1]:
                return []
            return list(fn(iter([self_.of(k, e[2])])))
        if kind != "dict":
            return GComp(kind, at, m)
        if self.what == "values":
            raise Unsupported("dictionary over the values of an arbitrary map")

        def lazy(k):
            out = at(k)
            if not out:
                return None
            if len(out) != 1 or not (out[0][0] is k or out[0][0] == k):
                raise Unsupported("a comprehension that renames the keys of an arbitrary map")
            return (out[0][1],)
        res = GMap(measure=m.measure, lazy=lazy, name=f"comprehension over {m.name}")
        for k, p, _ in list(m.known):
            if p:
                r = lazy(k)
                res.known.append([k, r is not None, r[0] if r else None])
            else:
                res.known.append([k, False, None])
        if m.closed:
            res.closed, res.lazy = True, None
            if m.total is not None:
                res.total = z3.Sum([z3.IntVal(0)] + [m.measure(v) for _, p, v in res.known if p])
            if m.length is not None:
                res.length = sum(1 for _, p, _ in res.known if p)
            return res
        if m.total is not None and m.elem is not None:
            # an arbitrary other element keeps its measure
            g = SVal("anykey", str)
            for k, _, _ in m.known:
                if type(k) is SVal:
                    core.ctx().assume(k.e != g.e)
            v = m.elem(g)
            out = list(fn(iter([self.of(g, v)])))
            if len(out) == 1 and out[0][0] is g and core.ctx().must(m.measure(out[0][1]) == m.measure(v)):
                known_old = z3.Sum([z3.IntVal(0)] + [m.measure(x) for _, p, x in m.known if p])
                known_new = z3.Sum([z3.IntVal(0)] + [m.measure(x) for _, p, x in res.known if p])
                res.total = z3.simplify(m.total - known_old + known_new)
            res.length = m.length if len(out) == 1 else None
        return res

    def vc_loop(self, loop):
        contract = self.m.loop_contract or core.ctx().__dict__.get("map_loop")
        if contract is None:
            raise Unsupported(f"loop over the arbitrary map {self.m.name} at {loop.func}:{loop.line}")
        return contract(loop, self)


class GComp(Model):
    """a generator, list or set built from every entry of an arbitrary map: known for each key separately"""

    def __init__(self, kind, at, m):
        self.kind, self.at, self.m = kind, at, m

    @property
    def __class__(self):
        return {"list": list, "set": set}.get(self.kind, type(x for x in ()))

    def __iter__(self):
        raise Unsupported("native iteration over a comprehension of an arbitrary map")

    def vc_comp(self, kind, fn):
        at = self.at

        def at2(k):
            return [y for x in at(k) for y in fn(iter([x]))]
        return GComp(kind, at2, self.m)

    def vc_loop(self, loop):
        contract = self.m.loop_contract or core.ctx().__dict__.get("map_loop")
        if contract is None:
            raise Unsupported(f"loop over a comprehension of an arbitrary map at {loop.func}:{loop.line}")
        return contract(loop, self)


def _sorted(args, kwargs):
    if type(args[0]) in (GView, GComp, GMap):
        key = kwargs.get("key")
        src = args[0]
        m = src if type(src) is GMap else src.m
        if key is not None:
            # the sort key of every entry can be computed
            g = SVal("anykey", str)
            if m.elem is not None and not m.closed and type(src) is GView:
                for k, _, _ in m.known:
                    if type(k) is SVal:
                        core.ctx().assume(k.e != g.e)
                rt.vc_call(key, src.of(g, m.elem(g)))
            for k, p, v in m.known:
                if p and type(src) is GView:
                    rt.vc_call(key, src.of(k, v))
        return src
    return NotImplemented


rt.HANDLERS[sorted] = _sorted


def _odict(cls):
    def h(args, kwargs):
        if args and type(args[0]) in (GView, GMap) and not kwargs:
            src = args[0]
            if type(src) is GView:
                if src.what != "items":
                    pyraise(ValueError("dictionary update sequence element has the wrong length"))
                src = src.m
            m = src.copy()
            m.pytype_ = cls
            return m
        return NotImplemented
    return h


rt.HANDLERS[collections.OrderedDict] = _odict(collections.OrderedDict)
rt.HANDLERS[dict] = _odict(dict)


# ----------------------------------------------------------------- files
class Inode:
    def __init__(self, at, size):
        self.at, self.size = at, size
        self.marks = []      # (offset, length, tag): structured content

    def mark(self, off, length, tag):
        self.marks.append((off, length, tag))


class GFile(Model):
    """a regular file opened in binary mode"""
    pytype = io.BufferedRandom

    def __init__(self, inode, pos=0, readable=True, writable=True):
        self.inode, self.pos, self.closed = inode, zint(pos), False
        self._r, self._w = readable, writable
        self.fail = None         # hook that may raise an I/O error before an operation

    def _check(self, op):
        if self.closed:
            pyraise(ValueError("I/O operation on closed file"))
        if self.fail is not None:
            self.fail(op)

    def __enter__(self):
        self._check("enter")
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def readable(self):
        return self._r

    def tell(self):
        self._check("tell")
        return mkint(self.pos)

    def flush(self):
        self._check("flush")

    def seek(self, off, whence=0):
        self._check("seek")
        base = {0: z3.IntVal(0), 1: self.pos, 2: self.inode.size}[whence]
        p = z3.simplify(base + zint(off))
        if core.ctx().branch(p < 0, "negative seek"):
            pyraise(OSError(22, "Invalid argument"))
        self.pos = p
        return mkint(p)

    def _available(self, n):
        rest = zmax(self.inode.size - self.pos, z3.IntVal(0))
        return rest if n is None else z3.simplify(zmin(zint(n), rest))

    def read(self, n=-1):
        self._check("read")
        if not self._r:
            pyraise(io.UnsupportedOperation("not readable"))
        if type(n) is not SInt and (n is None or n < 0):
            k = self._available(None)
        else:
            c = core.ctx()
            if c.branch(zint(n) < 0, "read size"):
                k = self._available(None)
            else:
                k = self._available(n)
        start, at = self.pos, self.inode.at
        self.pos = z3.simplify(start + k)
        tag = None
        for off, length, t in self.inode.marks:
            if core.ctx().must(start == off):
                if core.ctx().branch(k == length, "whole field"):
                    tag = t
                elif core.ctx().must(k < length):
                    tag = ("prefix", t)
        return SBytes(k, lambda i: at(start + i), tag)

    def readinto(self, buf):
        self._check("readinto")
        if type(buf) is not SByteArray:
            raise Unsupported("readinto of a native buffer")
        k = self._available(mkint(buf.length))
        k = zmax(k, z3.IntVal(0))
        start, at = self.pos, self.inode.at
        if core.ctx().must(k == buf.length):
            buf._mutate()
            buf.at = lambda i: at(start + i)
        else:
            buf._mutate()
            old = buf.at
            buf.at = lambda i: z3.If(i < k, at(start + i), old(i))
        self.pos = z3.simplify(start + k)
        return mkint(k)

    def write(self, data):
        self._check("write")
        if not self._w:
            pyraise(io.UnsupportedOperation("not writable"))
        b = as_bytes(data)
        ino, pos, old = self.inode, self.pos, self.inode.at
        n, size = b.length, ino.size
        c = core.ctx()
        if c.must(pos <= size):
            ino.at = lambda i: z3.If(z3.And(pos <= i, i < pos + n), b.at(i - pos), old(i))
        else:
            ino.at = lambda i: z3.If(z3.And(pos <= i, i < pos + n), b.at(i - pos), z3.If(z3.And(size <= i, i < pos), z3.IntVal(0), old(i)))
        ino.size = z3.simplify(z3.If(n > 0, zmax(size, pos + n), size))
        ino.marks = [m for m in ino.marks if c.must(z3.Or(pos + n <= m[0], m[0] + m[1] <= pos, n == 0))]
        if b.tag is not None:
            ino.marks.append((pos, n, b.tag))
        self.pos = z3.simplify(pos + n)
        return mkint(n)

    def truncate(self, size=None):
        self._check("truncate")
        n = self.pos if size is None else zint(size)
        ino, old, was = self.inode, self.inode.at, self.inode.size
        c = core.ctx()
        if not c.must(n <= was):
            ino.at = lambda i: z3.If(i < was, old(i), z3.IntVal(0))
        ino.size = z3.simplify(n)
        ino.marks = [m for m in ino.marks if c.must(m[0] + m[1] <= n)]
        return mkint(n)


def _fs():
    return core.ctx().__dict__.setdefault("fs", {})


def open_model(path, mode="r", **kw):
    """contract of open() for the files known to the harness"""
    c = core.ctx()
    for p, ino in _fs().items():
        if p is path or p == path:
            break
    else:
        raise Unsupported(f"open({path!r})")
    hook = c.__dict__.get("open_hook")
    if hook is not None:
        hook(path, mode)
    m = mode.replace("b", "")
    if m == "w":
        ino.at, ino.size, ino.marks = (lambda i: z3.IntVal(0)), z3.IntVal(0), []
        f = GFile(ino, 0, False, True)
    elif m == "w+":
        ino.at, ino.size, ino.marks = (lambda i: z3.IntVal(0)), z3.IntVal(0), []
        f = GFile(ino, 0, True, True)
    elif m == "r":
        f = GFile(ino, 0, True, False)
    elif m == "r+":
        f = GFile(ino, 0, True, True)
    elif m == "a":
        f = GFile(ino, ino.size, False, True)
    else:
        raise Unsupported(f"open mode {mode}")
    f.fail = c.__dict__.get("io_hook")
    c.__dict__.setdefault("opened", []).append(f)
    return f


def _open(args, kwargs):
    fs = _fs()
    if any(args[0] is p for p in fs) or is_sym(args[0]):
        return open_model(*args, **{k: v for k, v in kwargs.items() if k != "encoding"})
    return NotImplemented


rt.HANDLERS[open] = _open


class GPath(Model):
    """the path of a file known to the harness"""
    pytype = pathlib.PosixPath

    def __init__(self, name, suffix=".safetensors"):
        self.name, self.suffix = name, suffix

    def open(self, mode="r", **kw):
        return open_model(self, mode)

    def exists(self):
        return True

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def vc_str(self):
        return self.name

    def __repr__(self):
        return f"GPath({self.name})"


# ----------------------------------------------------------------- locks and threads
class GLock(Model):
    """a mutex; at every acquisition other threads may have run (`acquired` replaces the guarded state by an arbitrary one that
    satisfies the invariant), at every release the invariant must hold again"""
    pytype = type(threading.Lock())

    def __init__(self, acquired=None, released=None):
        self.held, self.acquired, self.released = False, acquired, released

    def acquire(self, *a, **k):
        if self.held:
            core.ctx().prove("no deadlock: the lock is not taken twice", False)
        self.held = True
        if self.acquired:
            self.acquired()
        return True

    def release(self):
        if not self.held:
            pyraise(RuntimeError("release unlocked lock"))
        if self.released:
            self.released()
        self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, t, v, tb):
        if core._aborting or isinstance(v, core.EngineSignal):
            return
        self.release()


# ----------------------------------------------------------------- struct, json, tqdm
@rt.handler(struct.pack)
def _pack(args, kwargs):
    if not has_sym_args(args):
        if args[0] in ("<Q",) and core.ctx().__dict__.get("tag_bytes"):
            return SBytes(8, SBytes.of(struct.pack(*args)).at, ("u64", z3.IntVal(args[1])))
        return NotImplemented
    if args[0] != "<Q" or len(args) != 2:
        raise Unsupported(f"struct.pack({args[0]!r})")
    v = zint(args[1])
    c = core.ctx()
    if c.branch(z3.Or(v < 0, v >= 2**64), "u64 range"):
        pyraise(struct.error("int too large to convert"))
    f = c.fun("u64bytes", z3.IntSort(), z3.IntSort())
    return SBytes(8, lambda i: f(i), ("u64", v))


def has_sym_args(args):
    return any(is_sym(a) for a in args)


@rt.handler(struct.unpack)
def _unpack(args, kwargs):
    if len(args) == 2 and type(args[1]) is SBytes:
        if args[0] != "<Q":
            raise Unsupported(f"struct.unpack({args[0]!r})")
        b = args[1]
        if core.ctx().branch(b.length != 8, "length of the header size"):
            pyraise(struct.error("unpack requires a buffer of 8 bytes"))
        if b.tag is None or b.tag[0] != "u64":
            raise Unsupported("unpack of arbitrary bytes")
        return (mkint(b.tag[1]),)
    return NotImplemented


class JsonText(Model):
    """text of a JSON document with the given value"""
    pytype = str

    def __init__(self, value, length, ascii=True):
        self.value, self.length, self.ascii, self.prefix = value, length, ascii, False

    def vc_len(self):
        return mkint(self.length)

    def encode(self, *a):
        f = core.ctx().fun("json", z3.IntSort(), z3.IntSort())
        n = self.length
        if not self.ascii:
            n = core.ctx().int("jsonbytes")
            core.ctx().assume(n >= self.length)
        return SBytes(n, lambda i: f(i), ("text", self))

    def strip(self, *a):
        return self

    lstrip = rstrip = strip


@rt.handler(json.dumps)
def _dumps(args, kwargs):
    c = core.ctx()
    if c.__dict__.get("json_opaque") or type(args[0]) is GMap or rt.deep_sym(args[0]):
        v = args[0]
        return JsonText(v.copy() if type(v) is GMap else v, c.int("jsonlen", 2), kwargs.get("ensure_ascii", True))
    return NotImplemented


@rt.handler(json.loads)
def _loads(args, kwargs):
    if type(args[0]) is JsonText:
        if args[0].prefix and core.ctx().choice(2, "a truncated text is valid JSON") == 0:
            pyraise(json.JSONDecodeError("truncated", "", 0))
        return args[0].value
    return NotImplemented


import tqdm as _tqdm  # noqa: E402


def _tqdm_h(args, kwargs):
    if args and is_sym(args[0]):
        return args[0]
    return NotImplemented


rt.HANDLERS[_tqdm.tqdm] = _tqdm_h


class GThread(Model):
    def __init__(self, ident):
        self.ident = ident


def _current_thread(args, kwargs):
    t = core.ctx().__dict__.get("thread")
    return t if t is not None else NotImplemented


rt.HANDLERS[threading.current_thread] = _current_thread
rt.HANDLERS[threading.get_ident] = lambda a, k: core.ctx().__dict__["thread"].ident if core.ctx().__dict__.get("thread") is not None else NotImplemented


# ----------------------------------------------------------------- tensors built from bytes
class ByteTensor(Model):
    """a tensor that views `count` elements of the given dtype in a byte buffer"""
    pytype = torch.Tensor

    def __init__(self, buf, offset, nbytes, dtype, shape):
        self.buf, self.offset, self.nbytes, self.dtype, self.shape = buf, offset, nbytes, dtype, shape

    def at(self, i):
        return self.buf.at(self.offset + i)

    def reshape(self, *shape):
        if len(shape) == 1:
            shape = shape[0]
        n = shape_numel(shape)
        item = self.dtype.itemsize
        if core.ctx().branch(n * item != self.nbytes, "reshape"):
            pyraise(RuntimeError("shape is invalid for input"))
        return ByteTensor(self.buf, self.offset, self.nbytes, self.dtype, shape)

    view = reshape

    def clone(self, **kw):
        at, off = self.buf.at, self.offset
        return ByteTensor(SByteArray(self.nbytes, lambda i: at(off + i)), z3.IntVal(0), self.nbytes, self.dtype, self.shape)


class GShape(Model):
    """an arbitrary shape of which the number of elements is known"""

    def __init__(self, numel, pytype_=torch.Size):
        self.n, self.pytype_ = numel, pytype_

    @property
    def __class__(self):
        return self.pytype_

    def numel(self):
        return mkint(self.n)

    def vc_list(self, cls):
        g = GShape(self.n, cls)
        g.origin = getattr(self, "origin", self)
        return g

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary shape")


def shape_numel(shape):
    if type(shape) is GShape:
        return zint(shape.n)
    r = z3.IntVal(1)
    for s in shape:
        r = r * zint(s)
    return z3.simplify(r)


def _list_h(cls):
    def h(args, kwargs):
        if args and hasattr(type(args[0]), "vc_list"):
            return args[0].vc_list(cls)
        return NotImplemented
    return h


for _t in (list, tuple, torch.Size):
    rt.HANDLERS[_t] = _list_h(_t)


@rt.handler(torch.frombuffer)
def _frombuffer(args, kwargs):
    if args and type(args[0]) is SByteArray or type(kwargs.get("buffer")) is SByteArray:
        buf = args[0] if args else kwargs["buffer"]
        c = core.ctx()
        dtype, count, offset = kwargs["dtype"], kwargs.get("count", -1), kwargs.get("offset", 0)
        item = dtype.itemsize
        off = zint(offset)
        if type(count) is int and count < 0:
            n = z3.simplify((buf.length - off) / item)
        else:
            n = zint(count)
        if c.branch(z3.Or(buf.length <= 0, n == 0, n < 0, off < 0, off >= buf.length, off + n * item > buf.length), "frombuffer bounds"):
            pyraise(ValueError("offset and count exceed the buffer"))
        buf.exports += 1
        return ByteTensor(buf, off, z3.simplify(n * item), dtype, GShape(n))
    return NotImplemented


@rt.method(torch.Tensor, "reshape", "view")
def _reshape(t, args, kwargs):
    if len(args) == 1 and type(args[0]) is GShape:
        if core.ctx().branch(zint(args[0].n) != t.numel(), "reshape"):
            pyraise(RuntimeError("shape is invalid for input"))
        if t.numel() == 0:
            return ByteTensor(SByteArray(0), z3.IntVal(0), z3.IntVal(0), t.dtype, args[0])
    return NotImplemented


def _iter_h(args, kwargs):
    if args and type(args[0]) in (GComp, GView):
        return args[0]
    if args and type(args[0]) is GMap:
        return args[0].keys()
    return NotImplemented


rt.HANDLERS[iter] = _iter_h
