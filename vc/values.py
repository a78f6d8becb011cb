"""
Symbolic values.  The real code of /repo runs natively on them (see instrument.py): operators build z3 terms and a
truth test forks the path.  Integers and reals are mathematical (unbounded, exact).
"""
from fractions import Fraction
from . import *
import z3
from . import core
from .core import Unsupported, PathEnd


class Sym:
    """base of symbolic values"""
    __slots__ = ()
    pytype = object

    @property
    def __class__(self):
        return self.pytype

    def __hash__(self):
        # constant: native dicts and sets then compare symbolic keys with ==, which forks
        return 104729


def is_sym(v):
    return isinstance(type(v), type) and issubclass(type(v), (Sym, Model))


class Model:
    """base of stand-ins for dependency objects; their methods run natively with symbolic arguments"""
    pytype = None

    @property
    def __class__(self):
        return self.pytype or type(self)


class SBool(Sym):
    __slots__ = ("e",)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"

    def __bool__(self):
        return core.ctx().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.e == zbool(o))
        return NotImplemented

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mkbool(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


def _arith(op, a, b):
    if is_realish(a) or is_realish(b):
        if is_inf(a) or is_inf(b):
            return _arith_inf(op, a, b)
        x, y = zreal(a), zreal(b)
        if op == "+":
            return mkreal(x + y)
        if op == "-":
            return mkreal(x - y)
        if op == "*":
            product = core.ctx().product
            return mkreal(x * y if product is None else product(x, y))
        if op == "/":
            check_zero(y == 0)
            return mkreal(x / y)
        if op == "//":
            check_zero(y == 0)
            return mkreal(z3.ToReal(z3.ToInt(x / y)))
        if op == "%":
            check_zero(y == 0)
            return mkreal(x - y * z3.ToReal(z3.ToInt(x / y)))
        raise Unsupported(f"real operator {op}")
    x, y = zint(a), zint(b)
    if op == "+":
        return mkint(x + y)
    if op == "-":
        return mkint(x - y)
    if op == "*":
        return mkint(x * y)
    if op == "/":
        check_zero(y == 0)
        return mkreal(z3.ToReal(x) / z3.ToReal(y))
    if op == "//":
        check_zero(y == 0)
        return mkint(floor_div(x, y))
    if op == "%":
        check_zero(y == 0)
        return mkint(x - y * floor_div(x, y))
    raise Unsupported(f"integer operator {op}")


def _arith_inf(op, a, b):
    raise Unsupported(f"infinite operand of {op}")


def check_zero(cond):
    if core.ctx().branch(cond, "division by zero"):
        core.pyraise(ZeroDivisionError("division by zero"))


def is_inf(v):
    return isinstance(v, float) and type(v) is float and (v != v or v in (float("inf"), float("-inf")))


def _cmp(op, a, b):
    for x, y, flip in ((a, b, False), (b, a, True)):
        if is_inf(y) and not is_inf(x):
            if y != y:
                return op == "!="
            big = y > 0  # compare x ? y
            r = {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}
            if flip:  # comparing y ? x
                r = {"<": not big, "<=": not big, ">": big, ">=": big, "==": False, "!=": True}
            return r[op]
    if is_realish(a) or is_realish(b):
        x, y = zreal(a), zreal(b)
    else:
        x, y = zint(a), zint(b)
    return mkbool({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op])


def _num_methods(ns):
    def binary(op):
        def f(self, o):
            if not is_num(o):
                return NotImplemented
            return _arith(op, self, o)

        def r(self, o):
            if not is_num(o):
                if op == "*" and type(o) in (bytes, bytearray) and type(self) is SInt and len(o) == 1:
                    v = o[0]
                    return (SBytes if type(o) is bytes else SByteArray)(z3.simplify(z3.If(self.e > 0, self.e, 0)), lambda i: z3.IntVal(v), ("fill", v))
                return NotImplemented
            return _arith(op, o, self)
        return f, r

    for name, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%")):
        ns[f"__{name}__"], ns[f"__r{name}__"] = binary(op)

    def compare(op):
        def f(self, o):
            if not is_num(o):
                return NotImplemented
            return _cmp(op, self, o)
        return f
    for name, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
        ns[f"__{name}__"] = compare(op)

    def power(self, o):
        whole = type(o) is float and o.is_integer()
        if (type(o) is int or whole) and 0 <= o <= 8:
            r, o = (1.0 if whole else 1), int(o)
            for _ in range(o):
                r = _arith("*", r, self)
            return r
        raise Unsupported("power")
    ns["__pow__"] = power

    def rpow(self, o):
        raise Unsupported("power")
    ns["__rpow__"] = rpow
    ns["__neg__"] = lambda self: _arith("-", 0, self)
    ns["__pos__"] = lambda self: self
    ns["__abs__"] = lambda self: type(self)(z3.simplify(zabs(self.e)))
    ns["__hash__"] = Sym.__hash__


class SInt(Sym):
    __slots__ = ("e",)
    pytype = int
    _num_methods(locals())

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SInt({self.e})"

    def __bool__(self):
        return core.ctx().branch(self.e != 0)

    def __index__(self):
        """a native index: enumerate the possible values (forks)"""
        c = core.ctx()
        for _ in range(64):
            m = c.model()
            if m is None:
                raise PathEnd()
            v = m.eval(self.e, model_completion=True).as_long()
            if c.branch(self.e == v, "index"):
                return v
        raise Unsupported("native use of an unbounded symbolic integer")

    def to_bytes(self, *a, **k):
        raise Unsupported("to_bytes")


class SReal(Sym):
    __slots__ = ("e",)
    pytype = float
    _num_methods(locals())

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SReal({self.e})"

    def __bool__(self):
        return core.ctx().branch(self.e != 0)

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __trunc__(self):
        return mkint(trunc(self.e))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        return mkint(round_half_even(self.e))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


_val_sort = z3.DeclareSort("Val")


class SVal(Sym):
    """an arbitrary value (for instance an arbitrary key) of which only equality is known"""
    __slots__ = ("e", "pytype_", "tag")

    def __init__(self, name=None, pytype=object, e=None, tag=None):
        self.e = e if e is not None else z3.Const(core.ctx().name(name or "v"), _val_sort)
        self.pytype_ = pytype
        self.tag = tag

    @property
    def pytype(self):
        return self.pytype_

    def __repr__(self):
        return f"SVal({self.e})"

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is SVal:
            return mkbool(self.e == o.e)
        if isinstance(o, (str, int, float, bytes, tuple, type(None), frozenset)) and not is_sym(o):
            if self.pytype_ is not object and not isinstance(o, self.pytype_):
                return False
            return mkbool(self.e == lit(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and type(r) is bool else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__


def lit(value):
    """the constant of sort Val for a concrete value, different from all other literals"""
    c = core.ctx()
    table = c.__dict__.setdefault("_lits", {})
    k = (type(value).__name__, value)
    if k not in table:
        new = z3.Const(f"lit_{len(table)}", _val_sort)
        for o in table.values():
            c.assume(o != new)
        table[k] = new
    return table[k]


def val_sort():
    return _val_sort


def mkint(e):
    if type(e) is int:
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    if type(e) is bool:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def mkreal(e):
    return SReal(z3.simplify(e) if z3.is_expr(e) else z3.RealVal(e))


def zint(v):
    """z3 integer term of a Python or symbolic int"""
    t = type(v)
    if t is SInt:
        return v.e
    if t is SBool:
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if t in (bool, int):
        return z3.IntVal(int(v))
    if z3.is_expr(v):
        return v
    if t is float and v == int(v):
        return z3.IntVal(int(v))
    raise Unsupported(f"not an integer: {t.__name__}")


def zbool(v):
    t = type(v)
    if t is SBool:
        return v.e
    if t is bool:
        return z3.BoolVal(v)
    if z3.is_expr(v):
        return v
    raise Unsupported(f"not a boolean: {t.__name__}")


def zreal(v):
    t = type(v)
    if t is SReal:
        return v.e
    if t is SInt:
        return z3.ToReal(v.e)
    if t is SBool:
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    if t in (bool, int):
        return z3.RealVal(int(v))
    if t is float:
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite float {v} in real arithmetic")
        f = Fraction(repr(v)) if core.ctx().decimals else Fraction(v)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if t is Fraction:
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    if z3.is_expr(v):
        return z3.ToReal(v) if z3.is_int(v) else v
    raise Unsupported(f"not a real: {t.__name__}")


def is_num(v):
    return type(v) in (SInt, SReal, SBool, int, float, bool)


def is_realish(v):
    return type(v) in (SReal, float)


def floor_div(a, b):
    return z3.If(b > 0, a / b, (-a) / (-b))


def trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def round_half_even(x):
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def zmax(a, b):
    return z3.If(a >= b, a, b)


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zabs(a):
    return z3.If(a >= 0, a, -a)


# ----------------------------------------------------------------- bytes
class _BytesLike(Model):
    def vc_len(self):
        return mkint(self.length)

    def __bool__(self):
        return core.ctx().branch(self.length > 0)

    def _get(self, idx, make):
        if type(idx) is slice:
            if idx.step is not None:
                raise Unsupported("byte slice with a step")
            lo, hi = clamp_slice(idx.start, idx.stop, self.length)
            at = self.at
            n = z3.simplify(hi - lo)
            if z3.is_int_value(lo) and lo.as_long() == 0:
                return make(n, at, self.tag if z3.eq(n, z3.simplify(self.length)) else None)
            return make(n, lambda i: at(lo + i), None)
        i = zint(idx)
        c = core.ctx()
        if c.branch(z3.Or(i >= self.length, i < -self.length)):
            core.pyraise(IndexError("index out of range"))
        return mkint(self.at(z3.If(i < 0, i + self.length, i)))

    def _concat(self, a, b):
        a, b = as_bytes(a), as_bytes(b)
        return SBytes(z3.simplify(a.length + b.length), lambda i: z3.If(i < a.length, a.at(i), b.at(i - a.length)))


class SBytes(_BytesLike):
    """immutable byte string: length and content function (z3 int -> z3 int)"""
    pytype = bytes

    def __init__(self, length, at, tag=None):
        self.length = length if z3.is_expr(length) else z3.IntVal(length)
        self.at = at
        self.tag = tag

    @staticmethod
    def of(b):
        b = bytes(b)
        if len(set(b)) <= 1:
            return SBytes(len(b), lambda i: z3.IntVal(b[0] if b else 0))

        def at(i):
            i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
            if z3.is_int_value(i):
                k = i.as_long()
                return z3.IntVal(b[k] if 0 <= k < len(b) else 0)
            r = z3.IntVal(0)
            for k in range(len(b) - 1, -1, -1):
                r = z3.If(i == k, z3.IntVal(b[k]), r)
            return r
        return SBytes(len(b), at)

    def __getitem__(self, idx):
        return self._get(idx, SBytes)

    def __add__(self, o):
        return self._concat(self, o)

    def __radd__(self, o):
        return self._concat(o, self)

    def __mul__(self, n):
        raise Unsupported("repeat of symbolic bytes")

    def decode(self, *args):
        if self.tag is not None and self.tag[0] == "text":
            return self.tag[1]
        if self.tag is not None and self.tag[0] == "prefix" and self.tag[1][0] == "text":
            import copy
            if core.ctx().choice(2, "truncated text decodes") == 0:
                core.pyraise(UnicodeDecodeError("utf-8", b"", 0, 1, "truncated"))
            t = copy.copy(self.tag[1][1])
            t.prefix = True
            return t
        raise Unsupported("decode of arbitrary bytes")

    def strip(self, *args):
        if self.tag is not None and self.tag[0] == "text":
            return self
        raise Unsupported("strip of arbitrary bytes")


def as_bytes(v):
    if type(v) is SBytes:
        return v
    if type(v) is SByteArray:
        return SBytes(v.length, v.at)
    if type(v) is memoryview:
        v = bytes(v)
    if type(v) in (bytes, bytearray):
        return SBytes.of(v)
    raise Unsupported(f"not bytes: {type(v).__name__}")


def clamp_slice(lo, hi, n):
    c = core.ctx()

    def clamp(v, default):
        if v is None:
            return default
        v = zint(v)
        if c.must(z3.And(v >= 0, v <= n)):
            return v
        return z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), z3.If(v > n, n, v))

    lo = clamp(lo, z3.IntVal(0))
    hi = clamp(hi, n)
    if not c.must(lo <= hi):
        hi = z3.If(hi < lo, lo, hi)
    return z3.simplify(lo), z3.simplify(hi)


class SByteArray(_BytesLike):
    """mutable bytes; `exports` counts views handed out (torch.frombuffer): content must not change any more"""
    pytype = bytearray
    tag = None

    def __init__(self, length, at=None, tag=None):
        self.length = length if z3.is_expr(length) else z3.IntVal(length)
        self.at = at or (lambda i: z3.IntVal(0))
        self.exports = 0

    def _mutate(self):
        if self.exports:
            core.ctx().prove("a buffer that a returned tensor views is never modified", False)

    def __getitem__(self, idx):
        return self._get(idx, SByteArray)

    def __setitem__(self, idx, value):
        self._mutate()
        if type(idx) is not slice or idx.step is not None:
            raise Unsupported("bytearray item assignment")
        data = as_bytes(value)
        lo, hi = clamp_slice(idx.start, idx.stop, self.length)
        old, n = self.at, data.length
        self.at = lambda i: z3.If(i < lo, old(i), z3.If(i < lo + n, data.at(i - lo), old(i - n + (hi - lo))))
        self.length = z3.simplify(self.length - (hi - lo) + n)

    def __delitem__(self, idx):
        self._mutate()
        if type(idx) is not slice or idx.step is not None:
            raise Unsupported("bytearray item deletion")
        lo, hi = clamp_slice(idx.start, idx.stop, self.length)
        old = self.at
        self.at = lambda i: z3.If(i < lo, old(i), old(i + (hi - lo)))
        self.length = z3.simplify(self.length - (hi - lo))

    def __add__(self, o):
        b = self._concat(self, o)
        return SByteArray(b.length, b.at)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, other):
        self[SInt(self.length):SInt(self.length)] = other

    def clear(self):
        del self[:]
