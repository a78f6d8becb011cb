"""
Additions to elem.py for methods that reduce tensors to numbers: sums over all elements (or over one dimension) are expanded linearly
into unknown sums of products of the vectors' elements, norms are square roots of sums of squares, and sin, arccos, log and complex
powers are uninterpreted functions.  Importing this module changes the contracts of elem.py for the whole process.
"""
import math
import torch
from . import *
from . import core, rt, elem
from .core import Unsupported
from .elem import ETensor, OPS, X, NAN, INF, NINF, fin, value, truth, elementwise, base_of, lift, br, real
from .values import *

R = z3.RealSort()
SIN, COS, ARCCOS, LOG, EXP, SQRT = (z3.Function(n, R, R) for n in ("sin", "cos", "arccos", "log", "exp", "sqrt"))
POWRE, POWIM = (z3.Function(n, R, R, R, R) for n in ("complex_power_re", "complex_power_im"))


def state():
    c = core.ctx()
    if "_norms" not in c.__dict__:
        c._norms = dict(axis={}, totals={}, roots={}, keep=[])
    return c._norms


def vector(name, scalar=False):
    """an arbitrary tensor, seen through one arbitrary element"""
    t = elem.element(name, scalar)
    if not scalar:
        state()["axis"][t.v.e.get_id()] = None
        state()["keep"].append(t.v.e)
    return t


def varies(t, along):
    """does the term differ between the elements that are summed up?"""
    axis = state()["axis"]
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in axis and not (axis[i] is not None and axis[i] == along):
            return True
        todo += x.children()
    return False


def _times(a, b):
    one = z3.RealVal(1)
    return b if a.eq(one) else a if b.eq(one) else a * b


def expand(t, along):
    """[(numerator, denominator, atoms)]: t is the sum of numerator / denominator * product of the atoms, which alone vary"""
    one = z3.RealVal(1)
    if not varies(t, along):
        return [(t, one, ())]
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        return [x for s in ch for x in expand(s, along)]
    if k == z3.Z3_OP_SUB:
        out = expand(ch[0], along)
        for s in ch[1:]:
            out += [(-n, d, a) for n, d, a in expand(s, along)]
        return out
    if k == z3.Z3_OP_UMINUS:
        return [(-n, d, a) for n, d, a in expand(ch[0], along)]
    if k == z3.Z3_OP_MUL:
        out = [(one, one, ())]
        for s in ch:
            out = [(_times(n, n2), _times(d, d2), a + a2) for n, d, a in out for n2, d2, a2 in expand(s, along)]
        return out
    if k == z3.Z3_OP_DIV and not varies(ch[1], along):
        return [(n, _times(d, ch[1]), a) for n, d, a in expand(ch[0], along)]
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction() == 2:
        return expand(ch[0] * ch[0], along)
    return [(one, one, (t,))]


def total(t, along="all"):
    """the sum of t over all elements (or over a dimension)"""
    st, c = state(), core.ctx()
    groups = {}
    for n, d, atoms in expand(t, along):
        atoms = sorted(atoms, key=lambda x: x.get_id())
        key = (along, *(x.get_id() for x in atoms))
        if key not in st["totals"]:
            s = c.real("sum" if atoms else "count")
            st["totals"][key] = s, atoms
            if along != "all":
                st["axis"][s.get_id()] = along
            if not atoms:
                c.assume(s >= 1)
            if len(atoms) == 2 and atoms[0].eq(atoms[1]):
                c.assume(s >= atoms[0] * atoms[0])
        groups.setdefault(key, []).append((n, d))
    out = None
    for key, cs in groups.items():
        s = st["totals"][key][0]
        for n, d in cs:
            x = _times(n, s)
            x = x if d.eq(z3.RealVal(1)) else x / d
            out = x if out is None else out + x
    return out


def root(t):
    """the square root of a sum of squares"""
    st, c = state(), core.ctx()
    t = z3.simplify(t, som=True)
    k = t.get_id()
    if k not in st["roots"]:
        r = c.real("root")
        c.assume(z3.And(r >= 0, r * r == t))
        st["roots"][k] = r, t
        for a in ("0", "-1"):
            if varies(t, "all") and not varies(t, a):
                st["axis"][r.get_id()] = a
    return st["roots"][k][0]


def along_of(a, k):
    d = k.get("dim", k.get("axis", a[0] if a else None))
    if d is None or d == ():
        return "all"
    if isinstance(d, (tuple, list)) and len(d) == 1:
        d = d[0]
    if d in (0, -1):
        return str(d)
    raise Unsupported("reduction over other dimensions")


def plain(t):
    if t.rows is not None or t.boolean:
        raise Unsupported("reduction of a stack or of truth values")
    return t


def reduced(t, along, f):
    if not t.v.fin:
        if t.v.kind == NAN:
            return ETensor(X(NAN), along == "all")
        raise Unsupported("reduction of infinite elements")
    return ETensor(fin(f(t.v.e)), along == "all", base=None if along == "all" else base_of((t,)))


def norm(t, p=None, dim=None, keepdim=False, **k):
    p = k.pop("ord", p)
    if p not in (None, 2, 2.0, "fro"):
        raise Unsupported("norm")
    along = along_of((), dict(dim=dim))
    return reduced(plain(t), along, lambda e: root(total(e * e, along)))


OPS["norm"] = OPS["linalg_norm"] = OPS["linalg_vector_norm"] = OPS["frobenius_norm"] = norm
OPS["dist"] = lambda a, b, p=2: norm(OPS["sub"](a, b), p)
_sum0, _mean0 = OPS["sum"], OPS["mean"]


def _sum(t, *a, **k):
    if t.rows is not None:
        return _sum0(t, *a, **k) if a or k or not elem.of_scalars(t) else _sum0(t, dim=0)
    along = along_of(a, k)
    return reduced(plain(t), along, lambda e: total(e, along))


def _mean(t, *a, **k):
    if t.rows is not None:
        return _mean0(t, *a, **k) if a or k or not elem.of_scalars(t) else _mean0(t, dim=0)
    along = along_of(a, k)
    return reduced(plain(t), along, lambda e: total(e, along) / total(z3.RealVal(1), along))


OPS["sum"], OPS["mean"] = _sum, _mean
OPS["dot"] = OPS["vdot"] = OPS["inner"] = lambda a, b: _sum(OPS["mul"](a, b))


def at_least(n, eps):
    return n if br(n >= real(float(eps)), "norm above the smoothing constant") else real(float(eps))


def normalize(t, p=2.0, dim=1, eps=1e-12, out=None):
    n = norm(t, p, dim)
    return OPS["div"](t, ETensor(fin(at_least(n.v.e, eps)), n.scalar, base=n.base))


def cosine_similarity(a, b, dim=1, eps=1e-8):
    na, nb = norm(a, 2, dim), norm(b, 2, dim)
    d = at_least(na.v.e, eps) * at_least(nb.v.e, eps)
    s = _sum(OPS["mul"](a, b), dim=dim)
    return ETensor(fin(s.v.e / d), s.scalar, base=s.base)


OPS["normalize"], OPS["cosine_similarity"] = normalize, cosine_similarity


def unary(f, domain=lambda e: True):
    def g(t):
        def h(x):
            x = value(x)
            if not x.fin:
                return X(NAN)
            d = domain(x.e)
            if d is not True and not br(d, "domain"):
                return X(NAN)
            return fin(f(x.e))
        return elementwise(h, t)
    return g


OPS["sin"], OPS["cos"] = unary(SIN), unary(COS)
OPS["arccos"] = OPS["acos"] = unary(ARCCOS, lambda e: z3.And(e <= 1, e >= -1))
OPS["exp"] = unary(EXP)


def _log(t):
    def h(x):
        x = value(x)
        if not x.fin:
            return x if x.kind != NINF else X(NAN)
        if br(x.e == 0, "zero"):
            return X(NINF)
        return fin(LOG(x.e)) if br(x.e > 0, "positive") else X(NAN)
    return elementwise(h, t)


def _sqrt(t):
    def h(x):
        x = value(x)
        if not x.fin:
            return x if x.kind == INF else X(NAN)
        return fin(root(x.e)) if br(x.e >= 0, "not negative") else X(NAN)
    return elementwise(h, t)


OPS["log"], OPS["sqrt"] = _log, _sqrt
OPS["rsqrt"] = lambda t: OPS["reciprocal"](_sqrt(t))

# ----------------------------------------------------------------- any element
_branch = core.Ctx.branch


def recorded(self, cond, label=""):
    r = _branch(self, cond, label)
    if not isinstance(cond, bool):
        self.__dict__.setdefault("_conds", []).append(cond)
    return r


core.Ctx.branch = recorded


def _any(t, *a, **k):
    """what holds for an arbitrary element on a path that does not depend on the element holds for every one"""
    if t.rows is not None or a or k or t.scalar:
        return elem._any(t, *a, **k)
    p = z3.simplify(truth(t))
    if z3.is_true(p):
        return ETensor(p, True, True)
    if z3.is_false(p) and not any(varies(x, "all") for x in core.ctx().__dict__.get("_conds", ())):
        return ETensor(p, True, True)
    return elem._any(t)


OPS["any"] = _any

# ----------------------------------------------------------------- complex tensors
ZERO = z3.RealVal(0)


class CE(ETensor):
    """a tensor of complex numbers"""

    def __init__(self, re, im):
        self.__dict__.update(re=re, im=im, scalar=re.scalar and im.scalar, boolean=False, _dtype=None, rows=None, base=base_of((re, im)), stats={})

    v = property(lambda self: unsupported("the value of a complex number"))
    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)


def unsupported(what):
    raise Unsupported(what)


def parts(x):
    return (x.re, x.im) if isinstance(x, CE) else (x, 0.0)


def is_zero(x):
    if isinstance(x, ETensor):
        return x.rows is None and not x.boolean and x.v.fin and z3.simplify(x.v.e).eq(ZERO)
    return isinstance(x, (int, float)) and x == 0


def as_tensor(x, like):
    return x if isinstance(x, ETensor) else ETensor(lift(x), True, base=base_of((like,)))


def _complex(re, im):
    return CE(re, im)


def c_add(a, b, *, alpha=1):
    (p, q), (r, s) = parts(a), parts(b)
    return CE(OPS["add"](as_tensor(p, r), r), OPS["add"](as_tensor(q, r), s))


def c_sub(a, b, *, alpha=1):
    (p, q), (r, s) = parts(a), parts(b)
    return CE(OPS["sub"](as_tensor(p, r), r), OPS["sub"](as_tensor(q, r), s))


def c_mul(a, b):
    (p, q), (r, s) = parts(a), parts(b)
    M = lambda x, y: 0.0 if is_zero(x) or is_zero(y) else OPS["mul"](as_tensor(x, y), y)
    A = lambda x, y: y if is_zero(x) else x if is_zero(y) else OPS["add"](as_tensor(x, y), y)
    minus = lambda x: 0.0 if is_zero(x) else OPS["neg"](x)
    like = a if isinstance(a, ETensor) else b
    like = like.re if isinstance(like, CE) else like
    return CE(as_tensor(A(M(p, r), minus(M(q, s))), like), as_tensor(A(M(p, s), M(q, r)), like))


def c_div(a, b):
    (p, q), (r, s) = parts(a), parts(b)
    if not is_zero(s):
        raise Unsupported("division by a complex number")
    like = p if isinstance(p, ETensor) else r
    D = lambda x: 0.0 if is_zero(x) else OPS["div"](as_tensor(x, r), r)
    return CE(as_tensor(OPS["div"](as_tensor(p, r), r), like), as_tensor(D(q), like))


def c_pow(a, n):
    p, q = parts(a)
    if isinstance(n, CE):
        raise Unsupported("complex exponent")

    def f(F):
        def g(x, y, e):
            x, y, e = value(x), value(y), value(e)
            return fin(F(x.e, y.e, e.e)) if x.fin and y.fin and e.fin else X(NAN)
        return elementwise(g, p, as_tensor(q, p), n)
    return CE(f(POWRE), f(POWIM))


def c_where(c, a, b):
    (p, q), (r, s) = parts(a), parts(b)
    return CE(OPS["where"](c, p, r), OPS["where"](c, q, s))


def either(name, f, swap=False):
    g = OPS.get(name)

    def h(*args, **k):
        if any(isinstance(x, CE) for x in args):
            return f(args[1], args[0], **k) if swap else f(*args, **k)
        return g(*args, **k)
    OPS[name] = h


for _n in ("add", "__add__", "__radd__", "__iadd__"):
    either(_n, c_add)
for _n in ("sub", "subtract", "__sub__", "__isub__"):
    either(_n, c_sub)
for _n in ("rsub", "__rsub__"):
    either(_n, c_sub, True)
for _n in ("mul", "multiply", "__mul__", "__rmul__", "__imul__"):
    either(_n, c_mul)
for _n in ("div", "divide", "true_divide", "__truediv__", "__itruediv__"):
    either(_n, c_div)
for _n in ("pow", "__pow__", "float_power"):
    either(_n, c_pow)
either("where", c_where)
either("isnan", lambda a: OPS["logical_or"](OPS["isnan"](a.re), OPS["isnan"](a.im)))
OPS["complex"] = _complex
OPS["real"] = lambda a: a.re if isinstance(a, CE) else a
elem._operators()

# ----------------------------------------------------------------- random draws and parts of tensors chosen by a mask
class Masked(Model):
    """the elements of a tensor where a mask holds"""

    def __init__(self, t, mask):
        self.t, self.mask = t, mask

    def both(self, o, f):
        if isinstance(o, Masked):
            if not z3.simplify(o.mask.v).eq(z3.simplify(self.mask.v)):
                raise Unsupported("parts chosen by different masks")
            o = o.t
        return Masked(f(self.t, o), self.mask)

    def __add__(self, o):
        return self.both(o, OPS["add"])

    __iadd__ = __radd__ = __add__

    def __sub__(self, o):
        return self.both(o, OPS["sub"])

    __isub__ = __sub__

    def __mul__(self, o):
        return self.both(o, OPS["mul"])

    __imul__ = __rmul__ = __mul__

    def __truediv__(self, o):
        return self.both(o, OPS["div"])

    __itruediv__ = __truediv__

    def __hash__(self):
        return id(self)


_getitem = ETensor.__getitem__


def getitem(self, i):
    if isinstance(i, ETensor) and i.boolean and i.rows is None and self.rows is None:
        return Masked(self, i)
    return _getitem(self, i)


def setitem(self, i, v):
    if not (isinstance(i, ETensor) and i.boolean and i.rows is None and self.rows is None):
        raise Unsupported("assignment to a part of a tensor")
    if isinstance(v, Masked):
        v = Masked(v.t, v.mask).both(Masked(v.t, i), lambda a, b: a).t
    r = OPS["where"](i, as_tensor(v, self), self)
    self.__dict__.update(v=r.v)


ETensor.__getitem__, ETensor.__setitem__ = getitem, setitem
_to = OPS["to"]


def to(a, *args, **k):
    if torch.bool in (*args, *k.values()):
        return OPS["bool"](a)
    return _to(a, *args, **k)


OPS["to"] = OPS["type"] = to


class Bits(Model):
    """integers, the one at the arbitrary position being known"""

    def __init__(self, n):
        self.n = n

    def to(self, *a, **k):
        return self

    def __and__(self, o):
        return ETensor(lift(self.n & o))

    __rand__ = __and__

    def __rshift__(self, o):
        return Bits(self.n >> o)

    def __hash__(self):
        return id(self)


class Draw(Model):
    """an array of draws"""

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return id(self)


class Generator(Model):
    """numpy's generator of random numbers: any draws that have a positive probability"""

    def __init__(self, seed):
        self.seed, self.log = seed, []
        core.ctx().__dict__.setdefault("_generators", []).append(self)

    def __hash__(self):
        return id(self)

    def binomial(self, n, p, size=None):
        if n != 1:
            raise Unsupported("binomial")
        c, p = core.ctx(), real(p)
        x = vector("draw")
        e = x.v.e
        c.assume(z3.And(z3.Or(e == 0, e == 1), z3.Implies(p == 0, e == 0), z3.Implies(p == 1, e == 1)))
        self.log.append(("binomial", p, e))
        return Draw(x)

    def choice(self, a, size=None, replace=True, p=None, **k):
        n = len(a)
        i = core.ctx().choice(n, "drawn set")
        self.log.append(("choice", p, int(a[i])))
        return Draw(Bits(int(a[i])))


def install_random():
    import numpy as np
    rt.HANDLERS[np.random.default_rng] = lambda args, kwargs: Generator(*args, **kwargs)
    old = rt.HANDLERS.get(torch.from_numpy)
    rt.HANDLERS[torch.from_numpy] = lambda args, kwargs: args[0].t if isinstance(args[0], Draw) else old(args, kwargs) if old else NotImplemented


rt.HANDLERS[math.isfinite] = rt.HANDLERS.get(math.isfinite) or (lambda args, kwargs: True if isinstance(args[0], (SReal, SInt)) else NotImplemented)
