"""
Tensors seen through one arbitrary element: an ETensor has any shape, and `v` is the value of the element at an arbitrary position
as an extended real (a z3 real, or nan, inf, -inf decided by case distinction).  Elementwise torch functions are exact over the
reals; reductions over all elements are unknown numbers about which only their definition is assumed.  A stack of tensors keeps
its rows apart, so that reductions over the stacked dimension are exact.  A rounding cast multiplies by an unknown 1+d.
"""
import math
import torch
from . import *
from . import core, rt
from .core import Unsupported, pyraise
from .values import *

NAN, INF, NINF, FIN = "nan", "inf", "-inf", "fin"


def real(x):
    if isinstance(x, z3.ExprRef):
        return x if z3.is_real(x) else z3.ToReal(x)
    if isinstance(x, (SReal, SInt)):
        return zreal(x)
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != math.inf else None
    raise Unsupported(f"real({type(x).__name__})")


class X:
    """an extended real"""
    __slots__ = ("kind", "e")

    def __init__(self, kind, e=None):
        self.kind, self.e = kind, e

    @property
    def fin(self):
        return self.kind == FIN

    def __repr__(self):
        return str(self.e) if self.fin else self.kind


def fin(e):
    return X(FIN, e)


def lift(v):
    if isinstance(v, float):
        if v != v:
            return X(NAN)
        if v in (math.inf, -math.inf):
            return X(INF if v > 0 else NINF)
    return fin(real(v))


def br(cond, label):
    return core.ctx().branch(cond, label)


def sign_of(x):
    """-1, 0 or 1 (case distinction)"""
    if x.kind == INF:
        return 1
    if x.kind == NINF:
        return -1
    if br(x.e == 0, "zero"):
        return 0
    return 1 if br(x.e > 0, "positive") else -1


def x_neg(x):
    return fin(-x.e) if x.fin else X({INF: NINF, NINF: INF, NAN: NAN}[x.kind])


def x_add(x, y):
    if x.fin and y.fin:
        return fin(x.e + y.e)
    if NAN in (x.kind, y.kind) or {x.kind, y.kind} == {INF, NINF}:
        return X(NAN)
    return x if not x.fin else y


def x_mul(x, y):
    if x.fin and y.fin:
        return fin(x.e * y.e)
    if NAN in (x.kind, y.kind):
        return X(NAN)
    s = sign_of(x) * sign_of(y)
    return X(NAN) if s == 0 else X(INF if s > 0 else NINF)


def x_div(x, y):
    if NAN in (x.kind, y.kind):
        return X(NAN)
    if not y.fin:
        return fin(z3.RealVal(0)) if x.fin else X(NAN)
    d = z3.simplify(y.e)
    zero = d.eq(z3.RealVal(0)) or not z3.is_rational_value(d) and br(y.e == 0, "division by zero")
    if zero:
        s = sign_of(x)
        if s == 0:
            return X(NAN)
        if core.ctx().choice(2, "negative zero"):
            s = -s
        return X(INF if s > 0 else NINF)
    if not x.fin:
        return x if br(y.e > 0, "positive") else x_neg(x)
    return fin(x.e / y.e)


def x_abs(x):
    return fin(z3.If(x.e >= 0, x.e, -x.e)) if x.fin else X(NAN if x.kind == NAN else INF)


def x_sign(x):
    return fin(z3.If(x.e > 0, z3.RealVal(1), z3.If(x.e < 0, z3.RealVal(-1), z3.RealVal(0)))) if x.fin else x if x.kind == NAN else fin(real(1 if x.kind == INF else -1))


ORDER = {NINF: -1, FIN: 0, INF: 1}


def x_cmp(op, x, y):
    """a z3 Bool"""
    if NAN in (x.kind, y.kind):
        return z3.BoolVal(op == "ne")
    if x.fin and y.fin:
        return {"lt": x.e < y.e, "le": x.e <= y.e, "gt": x.e > y.e, "ge": x.e >= y.e, "eq": x.e == y.e, "ne": x.e != y.e}[op]
    a, b = ORDER[x.kind], ORDER[y.kind]
    return z3.BoolVal({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])


def x_if(c, x, y):
    if z3.is_true(z3.simplify(c)):
        return x
    if z3.is_false(z3.simplify(c)):
        return y
    if x.fin and y.fin:
        return fin(z3.If(c, x.e, y.e))
    return x if br(c, "where") else y


def x_extreme(op, x, y):
    if NAN in (x.kind, y.kind):
        return X(NAN)
    return x_if(x_cmp("ge" if op == "max" else "le", x, y), x, y)


def x_nan_to_num(x, nan, posinf, neginf):
    if x.fin:
        return x
    big = core.ctx().__dict__.setdefault("_finfo_max", None)
    if x.kind == NAN:
        return lift(0.0 if nan is None else nan)
    v = posinf if x.kind == INF else neginf
    if v is not None:
        return lift(v)
    if big is None:
        big = core.ctx()._finfo_max = core.ctx().real("largest")
        core.ctx().assume(big > 1)
    return fin(big if x.kind == INF else -big)


class EDType(Model):
    """a dtype: `exact` if every value of the tensor it belongs to is represented"""
    pytype = torch.dtype

    def __init__(self, exact=True, boolean=False):
        self.exact, self.boolean = exact, boolean

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __hash__(self):
        return id(self)

    def __getattr__(self, n):
        if n in ("is_floating_point",):
            return not self.boolean
        if n == "is_complex":
            return False
        raise AttributeError(n)


class ETensor(Model):
    """`v`: X of an arbitrary element (or z3 Bool if `boolean`); `scalar`: all elements are that one; rows: stacked tensors"""
    pytype = torch.Tensor

    def __init__(self, v, scalar=False, boolean=False, dtype=None, rows=None, base=None):
        self.__dict__.update(v=v, scalar=scalar, boolean=boolean, _dtype=dtype, rows=rows, base=base, stats={})

    def __repr__(self):
        return f"<element {self.rows if self.rows is not None else self.v}>"

    def __hash__(self):
        return id(self)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", None) or repr(func)
        if name == "__get__":
            name = getattr(getattr(func, "__self__", None), "__name__", name)
            return getattr(args[0], name)
        return apply(name, args, kwargs)

    @property
    def dtype(self):
        if self._dtype is None:
            self.__dict__["_dtype"] = EDType(boolean=self.boolean)
        return self._dtype

    device = torch.device("cpu")
    is_cuda = False

    @property
    def shape(self):
        return Shape.of(self)

    def __len__(self):
        if self.rows is not None:
            return len(self.rows)
        raise Unsupported("length of a tensor")

    def __iter__(self):
        if self.rows is not None:
            return iter(self.rows)
        raise Unsupported("iteration over a tensor")

    def __getitem__(self, i):
        if self.rows is not None and isinstance(i, int):
            return self.rows[i]
        raise Unsupported("indexing a tensor")

    def __setitem__(self, i, v):
        raise Unsupported("assignment to a part of a tensor")

    def __bool__(self):
        if not self.scalar or self.rows is not None:
            raise Unsupported("truth of a tensor")
        return core.ctx().branch(self.v if self.boolean else self.v.e != 0, "truth") if self.boolean or self.v.fin else True

    def vc_float(self):
        if self.scalar and not self.boolean and self.v.fin:
            return mkreal(self.v.e)
        raise Unsupported("float(tensor)")

    def item(self):
        return self.vc_float()

    def __getattr__(self, n):
        if n.startswith("__") or n in ("vc_loop", "vc_comp", "vc_len", "vc_int", "vc_set", "pytype_"):
            raise AttributeError(n)
        if n not in OPS and n not in GLOBAL:
            raise Unsupported(f"Tensor.{n}")
        return lambda *a, **k: apply(n, (self, *a), k)


class Shape(Model):
    pytype = torch.Size

    @staticmethod
    def of(t):
        b = t if t.base is None else t.base
        if "shape" not in b.stats:
            b.stats["shape"] = Shape()
        return b.stats["shape"]

    def numel(self):
        return size_of(self)

    def __hash__(self):
        return id(self)


def size_of(shape):
    if "n" not in shape.__dict__:
        n = core.ctx().int("numel")
        core.ctx().assume(n >= 1)
        core.ctx().assume(n <= 2**40)
        shape.n = mkint(n)
    return shape.n


def element(name, scalar=False):
    t = ETensor(fin(core.ctx().real(name)), scalar)
    return t


def value(x):
    """X of a tensor or number"""
    if isinstance(x, ETensor):
        if x.rows is not None:
            raise Unsupported("value of a stack")
        return fin(z3.If(x.v, z3.RealVal(1), z3.RealVal(0))) if x.boolean else x.v
    if issubclass(type(x), torch.Tensor) and x.dim() == 0:
        return lift(x.item())
    return lift(x)


def truth(x):
    if isinstance(x, ETensor):
        return x.v if x.boolean else z3.BoolVal(True) if not x.v.fin else x.v.e != 0
    if isinstance(x, SBool):
        return zbool(x)
    return z3.BoolVal(bool(x))


def rows_of(args):
    n = {len(a.rows) for a in args if isinstance(a, ETensor) and a.rows is not None}
    if len(n) > 1:
        raise Unsupported("stacks of different lengths")
    return n.pop() if n else None


def of_scalars(a):
    """is this a vector of single numbers?"""
    return a.rows is not None and all(isinstance(r, ETensor) and r.scalar and r.rows is None for r in a.rows)


def row(a, i):
    return a.rows[i] if isinstance(a, ETensor) and a.rows is not None else a


def elementwise(f, *args, boolean=False):
    """apply f to the elements of the arguments"""
    if any(isinstance(a, ETensor) and of_scalars(a) for a in args):
        args = [ETensor(None, rows=[ETensor(lift(x), True) for x in a.tolist()]) if issubclass(type(a), torch.Tensor) and a.dim() == 1 else a for a in args]
    if any(issubclass(type(a), torch.Tensor) and a.dim() > 0 for a in args):
        raise Unsupported("a concrete tensor among symbolic ones")
    n = rows_of(args)
    if n is not None:
        return ETensor(None, rows=[elementwise(f, *[row(a, i) for a in args], boolean=boolean) for i in range(n)], boolean=boolean, base=base_of(args))
    scalar = all(not isinstance(a, ETensor) or a.scalar for a in args)
    return ETensor(f(*args), scalar=scalar, boolean=boolean, base=base_of(args))


def base_of(args):
    for a in args:
        if isinstance(a, ETensor) and not a.scalar:
            return a if a.base is None else a.base
    return None


def reduce_rows(f, t):
    if t.rows is None:
        raise Unsupported("reduction over the elements")
    out = t.rows[0]
    for r in t.rows[1:]:
        out = f(out, r)
    return out


def is_dim0(a, k):
    d = k.get("dim", k.get("axis", a[1] if len(a) > 1 else None))
    return d == 0 or d == (0,) or d == [0]


OPS, GLOBAL = {}, {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def apply(name, args, kwargs):
    base = name.strip("_")
    inplace = name.endswith("_") and not name.startswith("_")
    f = OPS.get(name) or OPS.get(base)
    if f is None:
        raise Unsupported(f"torch.{name}")
    out = kwargs.pop("out", None)
    r = f(*args, **kwargs)
    if inplace or name.startswith("__i") and name not in ("__invert__",) and name[3:] and ("__" + name[3:]) in OPS:
        t = args[0]
        t.__dict__.update(v=r.v, scalar=r.scalar, boolean=r.boolean, rows=r.rows)
        return t
    if out is not None:
        raise Unsupported("out=")
    return r


def binary(f):
    return lambda a, b: elementwise(lambda x, y: f(value(x), value(y)), a, b)


def compare(o):
    return lambda a, b: elementwise(lambda x, y: x_cmp(o, value(x), value(y)), a, b, boolean=True)


def scaled(f):
    def g(a, b, *, alpha=1):
        if isinstance(alpha, (int, float)) and alpha == 1:
            return binary(f)(a, b)
        return binary(f)(a, OPS["mul"](b, alpha))
    return g


def x_sub(x, y):
    return x_add(x, x_neg(y))


OPS["add"] = OPS["__add__"] = OPS["__radd__"] = scaled(x_add)
OPS["__iadd__"] = OPS["add"]
OPS["sub"] = OPS["subtract"] = OPS["__sub__"] = OPS["__isub__"] = scaled(x_sub)
OPS["rsub"] = OPS["__rsub__"] = lambda a, b, *, alpha=1: scaled(x_sub)(b, OPS["mul"](a, alpha))
OPS["mul"] = OPS["multiply"] = OPS["__mul__"] = OPS["__rmul__"] = OPS["__imul__"] = binary(x_mul)


@op("div", "divide", "true_divide", "__truediv__", "__itruediv__")
def _div(a, b, *, rounding_mode=None):
    if rounding_mode is not None:
        raise Unsupported("rounding_mode")
    return binary(x_div)(a, b)


OPS["__rtruediv__"] = OPS["__rdiv__"] = lambda a, b: _div(b, a)
OPS["reciprocal"] = lambda a: _div(1, a)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    OPS[_n] = OPS[f"__{_n}__"] = compare(_n)
OPS["less"], OPS["less_equal"], OPS["greater"], OPS["greater_equal"], OPS["not_equal"] = (OPS[x] for x in ("lt", "le", "gt", "ge", "ne"))
OPS["neg"] = OPS["negative"] = OPS["__neg__"] = lambda a: elementwise(lambda x: x_neg(value(x)), a)
OPS["abs"] = OPS["absolute"] = OPS["__abs__"] = lambda a: elementwise(lambda x: x_abs(value(x)), a)
OPS["sign"] = OPS["sgn"] = lambda a: elementwise(lambda x: x_sign(value(x)), a)
OPS["square"] = lambda a: OPS["mul"](a, a)
OPS["maximum"] = OPS["fmax"] = lambda a, b: elementwise(lambda x, y: x_extreme("max", value(x), value(y)), a, b)
OPS["minimum"] = OPS["fmin"] = lambda a, b: elementwise(lambda x, y: x_extreme("min", value(x), value(y)), a, b)
OPS["isnan"] = lambda a: elementwise(lambda x: z3.BoolVal(value(x).kind == NAN), a, boolean=True)
OPS["isinf"] = lambda a: elementwise(lambda x: z3.BoolVal(value(x).kind in (INF, NINF)), a, boolean=True)
OPS["isfinite"] = lambda a: elementwise(lambda x: z3.BoolVal(value(x).fin), a, boolean=True)
OPS["logical_not"] = OPS["bitwise_not"] = OPS["__invert__"] = lambda a: elementwise(lambda x: z3.Not(truth(x)), a, boolean=True)
OPS["logical_and"] = OPS["bitwise_and"] = OPS["__and__"] = OPS["__rand__"] = lambda a, b: elementwise(lambda x, y: z3.And(truth(x), truth(y)), a, b, boolean=True)
OPS["logical_or"] = OPS["bitwise_or"] = OPS["__or__"] = OPS["__ror__"] = lambda a, b: elementwise(lambda x, y: z3.Or(truth(x), truth(y)), a, b, boolean=True)
OPS["logical_xor"] = OPS["bitwise_xor"] = OPS["__xor__"] = lambda a, b: elementwise(lambda x, y: z3.Xor(truth(x), truth(y)), a, b, boolean=True)


@op("pow", "__pow__", "__ipow__", "float_power")
def _pow(a, n):
    if n == 1:
        return a
    if n == 2:
        return OPS["mul"](a, a)
    if n == -1:
        return _div(1, a)
    raise Unsupported("power")


@op("addcmul")
def _addcmul(a, b, c, *, value=1):
    return OPS["add"](a, OPS["mul"](OPS["mul"](b, c), value))


@op("addcdiv")
def _addcdiv(a, b, c, *, value=1):
    return OPS["add"](a, OPS["mul"](_div(b, c), value))


@op("lerp")
def _lerp(a, b, w):
    return OPS["add"](a, OPS["mul"](OPS["sub"](b, a), w))


@op("where")
def _where(c, *ab):
    a, b = ab
    if isinstance(c, ETensor) and not c.boolean:
        raise Unsupported("where without a condition")
    return elementwise(lambda x, y, z: x_if(truth(x), value(y), value(z)), c, a, b)


# Tensor.where(self, condition, other)
@op("masked_fill")
def _masked_fill(a, m, v):
    return _where(m, v, a)


@op("nan_to_num")
def _nan_to_num(a, nan=None, posinf=None, neginf=None):
    return elementwise(lambda x: x_nan_to_num(value(x), nan, posinf, neginf), a)


@op("clamp", "clip")
def _clamp(a, min=None, max=None):
    def f(x, *bounds):
        r = value(x)
        it = iter(bounds)
        if min is not None:
            r = x_extreme("max", r, value(next(it)))
        if max is not None:
            r = x_extreme("min", r, value(next(it)))
        return r
    return elementwise(f, a, *[b for b in (min, max) if b is not None])


OPS["clamp_min"] = lambda a, min: _clamp(a, min)
OPS["clamp_max"] = lambda a, max: _clamp(a, None, max)
OPS["relu"] = lambda a: _clamp(a, 0)


@op("zeros_like")
def _zeros_like(a, **k):
    return const_like(a, 0)


@op("ones_like")
def _ones_like(a, **k):
    return const_like(a, 1)


@op("full_like")
def _full_like(a, v, **k):
    return const_like(a, v)


def const_like(a, v):
    if a.rows is not None:
        return ETensor(None, rows=[const_like(r, v) for r in a.rows], base=a.base)
    return ETensor(lift(v), scalar=a.scalar, base=base_of((a,)))


def identity(a, *args, **k):
    return a


def copied(a, *args, **k):
    if isinstance(a, ETensor):
        return ETensor(a.v, a.scalar, a.boolean, a._dtype, a.rows, base_of((a,)))
    return a


for _n in ("flatten", "reshape", "view", "reshape_as", "view_as", "ravel", "contiguous", "cpu", "detach", "squeeze", "unsqueeze", "expand", "expand_as", "broadcast_to", "requires_grad"):
    OPS[_n] = lambda a, *args, _n=_n, **k: keep(a, _n)
OPS["clone"] = copied


def keep(a, what):
    if isinstance(a, ETensor) and a.rows is not None:
        raise Unsupported(f"{what} of a stack")
    return copied(a)


def rounded(a):
    """the value after a cast to a dtype that may not represent it"""
    if a.rows is not None:
        return ETensor(None, rows=[rounded(r) for r in a.rows], base=a.base)
    if a.boolean:
        return ETensor(value(a), a.scalar, base=base_of((a,)))
    if not a.v.fin:
        return copied(a)
    memo = core.ctx().__dict__.setdefault("_rounded", {})
    s = z3.simplify(a.v.e)
    if z3.is_rational_value(s) and s.denominator_as_long() == 1 and abs(s.numerator_as_long()) < 2**11 or a.__dict__.get("small"):
        return copied(a)
    k = s.get_id()
    if k not in memo:
        d = core.ctx().real("rounding")
        core.ctx().assume(z3.And(d >= -z3.RealVal("1/1024"), d <= z3.RealVal("1/1024")))
        memo[k] = fin(a.v.e * (1 + d)), s
    r = ETensor(memo[k][0], a.scalar, base=base_of((a,)))
    return r


OPS["float"] = OPS["half"] = OPS["bfloat16"] = lambda a, **k: rounded(a)
OPS["double"] = lambda a, **k: copied(a)
OPS["type_as"] = lambda a, b, **k: copied(a) if isinstance(b, ETensor) else rounded(a)


@op("to", "type")
def _to(a, *args, **k):
    ds = [x for x in (*args, *k.values()) if isinstance(x, torch.dtype) or isinstance(x, EDType)]
    if any(isinstance(x, EDType) and x.exact or x is torch.float64 for x in ds) or not ds:
        r = copied(a)
        if r.boolean and ds:
            return ETensor(value(r), r.scalar, base=base_of((a,)))
        return r
    return rounded(a)


@op("bool")
def _bool(a):
    return elementwise(lambda x: truth(x), a, boolean=True)


@op("stack")
def _stack(tensors, dim=0, **k):
    if dim != 0:
        raise Unsupported("stack along another dimension")
    if any(t.rows is not None for t in tensors):
        raise Unsupported("stack of stacks")
    ts = list(tensors)
    return ETensor(None, rows=ts, boolean=ts[0].boolean, base=base_of(ts))


@op("unbind")
def _unbind(t, dim=0):
    if t.rows is None or dim != 0:
        raise Unsupported("unbind")
    return tuple(t.rows)


@op("sum", "nansum")
def _sum(t, *a, **k):
    if t.rows is not None and is_dim0((t, *a), k):
        return reduce_rows(OPS["add"], elementwise(lambda x: value(x), t))
    return stat(t, "sum")


@op("mean", "nanmean")
def _mean(t, *a, **k):
    if t.rows is not None and is_dim0((t, *a), k):
        return _div(reduce_rows(OPS["add"], t), len(t.rows))
    return stat(t, "mean")


@op("prod")
def _prod(t, *a, **k):
    if t.rows is not None and is_dim0((t, *a), k):
        return reduce_rows(OPS["mul"], t)
    return stat(t, "prod")


@op("amax", "amin")
def _amax(t, *a, **k):
    raise Unsupported("amax")


@op("max")
def _max(t, *a, **k):
    if a and isinstance(a[0], ETensor):
        return OPS["maximum"](t, a[0])
    if t.rows is not None and is_dim0((t, *a), k):
        v = reduce_rows(OPS["maximum"], t)
        return Pair(v, None)
    return stat(t, "max")


@op("min")
def _min(t, *a, **k):
    if a and isinstance(a[0], ETensor):
        return OPS["minimum"](t, a[0])
    if t.rows is not None and is_dim0((t, *a), k):
        v = reduce_rows(OPS["minimum"], t)
        return Pair(v, None)
    return stat(t, "min")


OPS["amax"] = lambda t, *a, **k: reduce_rows(OPS["maximum"], t) if t.rows is not None and is_dim0((t, *a), k) else stat(t, "max")
OPS["amin"] = lambda t, *a, **k: reduce_rows(OPS["minimum"], t) if t.rows is not None and is_dim0((t, *a), k) else stat(t, "min")


class Pair(tuple):
    def __new__(cls, values, indices):
        return tuple.__new__(cls, (values, indices))

    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def key_of(t):
    return (t.v.e.get_id() if not t.boolean and t.v.fin else repr(t.v)), t.scalar


def stat(t, what, *params):
    """an unknown number that depends on all elements: the same for the same tensor"""
    if t.rows is not None:
        raise Unsupported(f"{what} of a stack")
    if t.boolean:
        raise Unsupported(f"{what} of truth values")
    memo = core.ctx().__dict__.setdefault("_stats", {})
    if not t.v.fin:
        if t.v.kind == NAN:
            return ETensor(X(NAN), True)
        raise Unsupported(f"{what} of infinite elements")
    k = (what, *map(str, params), key_of(t))
    if k not in memo:
        if t.scalar and what in ("mean", "max", "min"):
            memo[k] = t.v, t
        else:
            r = core.ctx().real(what)
            memo[k] = fin(r), t
            if what == "max":
                core.ctx().assume(r >= t.v.e)
            if what == "min":
                core.ctx().assume(r <= t.v.e)
            if what in ("std", "var", "norm"):
                core.ctx().assume(r >= 0)
    return ETensor(memo[k][0], True)


@op("std")
def _std(t, *a, **k):
    """of a single element it is nan (unless correction=0); zero only if every element is the mean"""
    if t.rows is not None:
        raise Unsupported("std of a stack")
    c = core.ctx()
    corr = k.get("correction", 1)
    if corr != 0:
        memo = c.__dict__.setdefault("_single", {})
        kk = key_of(t)
        if kk not in memo:
            memo[kk] = bool(c.choice(2, "a single element"))
            if memo[kk]:
                c.assume(stat(t, "mean").v.e == t.v.e)
        if memo[kk]:
            return ETensor(X(NAN), True)
    s = stat(t, "std", corr)
    c.assume(z3.Implies(s.v.e == 0, t.v.e == stat(t, "mean").v.e))
    return s


@op("norm")
def _norm(t, *a, **k):
    s = stat(t, "norm")
    core.ctx().assume(s.v.e * s.v.e >= t.v.e * t.v.e)
    return s


OPS["linalg_norm"] = OPS["norm"]


@op("any")
def _any(t, *a, **k):
    if t.rows is not None and is_dim0((t, *a), k):
        return reduce_rows(OPS["logical_or"], t)
    c = core.ctx()
    if t.scalar:
        return ETensor(truth(t), True, True)
    some = c.bool("some element")
    c.assume(z3.Implies(truth(t), some))
    return ETensor(some, True, True)


@op("all")
def _all(t, *a, **k):
    if t.rows is not None and is_dim0((t, *a), k):
        return reduce_rows(OPS["logical_and"], t)
    c = core.ctx()
    if t.scalar:
        return ETensor(truth(t), True, True)
    every = c.bool("every element")
    c.assume(z3.Implies(every, truth(t)))
    return ETensor(every, True, True)


@op("equal")
def _equal(a, b):
    return mkbool(_all(OPS["eq"](a, b)).v)


@op("allclose")
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def close(x, y):
        x, y = value(x), value(y)
        if not (x.fin and y.fin):
            return z3.BoolVal(x.kind == y.kind and x.kind != NAN)
        return x_abs(fin(x.e - y.e)).e <= real(float(atol)) + real(float(rtol)) * x_abs(y).e
    return mkbool(_all(elementwise(close, a, b, boolean=True)).v)


OPS["isclose"] = lambda a, b, rtol=1e-05, atol=1e-08, equal_nan=False: elementwise(lambda x, y: x_abs(fin(value(x).e - value(y).e)).e <= real(float(atol)) + real(float(rtol)) * x_abs(value(y)).e, a, b, boolean=True)


@op("numel", "nelement")
def _numel(t):
    return size_of(Shape.of(t))


@op("dim", "ndimension", "is_floating_point", "is_complex", "size")
def _dim(t, *a):
    raise Unsupported("shape of a tensor")


OPS["is_floating_point"] = lambda t: not t.boolean
OPS["is_complex"] = lambda t: False


@op("kthvalue")
def _kthvalue(t, k, dim=-1, keepdim=False):
    """its definition, at the arbitrary element x: x >= the value exactly if at least k elements are <= x"""
    c = core.ctx()
    n = size_of(Shape.of(t))
    if c.branch(z3.Or(zint(k) < 1, zint(k) > zint(n)), "kthvalue out of range"):
        pyraise(RuntimeError("kthvalue(): selected number k out of range for dimension 0"))
    v = stat(t, "kthvalue", z3.simplify(zint(k)))
    rank = stat_rank(t)
    c.assume((t.v.e >= v.v.e) == (rank >= zint(k)))
    return Pair(v, None)


def stat_rank(t):
    """how many elements are at most the arbitrary one"""
    c = core.ctx()
    memo = c.__dict__.setdefault("_ranks", {})
    k = key_of(t)
    if k not in memo:
        r = c.int("rank")
        c.assume(r >= 1)
        c.assume(r <= zint(size_of(Shape.of(t))))
        memo[k] = r, t
    return memo[k][0]


@rt.handler(torch.promote_types)
def _promote(args, kwargs):
    a, b = args
    for x, y in ((a, b), (b, a)):
        if isinstance(x, EDType):
            if isinstance(y, EDType) or y.is_floating_point:
                return EDType(exact=True)
            raise Unsupported("promote_types")
    return NotImplemented


@rt.handler(torch.result_type)
def _result_type(args, kwargs):
    if any(isinstance(a, ETensor) for a in args):
        return EDType(exact=True)
    return NotImplemented


def _operators():
    for n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "and", "or", "xor", "rand", "ror"):
        if f"__{n}__" in OPS:
            setattr(ETensor, f"__{n}__", lambda self, o, n=n: OPS[f"__{n}__"](self, o))
    for n in ("neg", "abs", "invert"):
        setattr(ETensor, f"__{n}__", lambda self, n=n: OPS[f"__{n}__"](self))
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(ETensor, f"__{n}__", lambda self, o, n=n: OPS[f"__{n}__"](self, o))
    for n in ("iadd", "isub", "imul", "itruediv"):
        setattr(ETensor, f"__{n}__", lambda self, o, n=n: apply(f"__{n}__", (self, o), {}))


_operators()
for _f in ("mT", "T", "real"):
    pass
