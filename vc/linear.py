"""
Tensors as multilinear expressions: the entry of a tensor at arbitrary indices is a coefficient (a real expression) times a
product of entries of named tensors, summed over contracted indices.  Dimensions are integer expressions, so that two
tensors with the same normal form are equal for all sizes and contents.  Real arithmetic (no rounding).
An axis is a tuple of atoms (mixed-radix index); the empty tuple is an axis of size 1 whose index is 0.
"""
import torch
from . import *
from . import core
from .core import Unsupported, pyraise
from .values import *


class Atom:
    def __init__(self, size):
        self.size = size


def size_of(axis):
    n = 1
    for a in axis:
        n = a.size * n
    return n


def same_size(a, b):
    return bool(a == b)


class LSize(Model):
    pytype = torch.Size


class LTensor(Model):
    pytype = torch.Tensor
    is_cuda = is_sparse = requires_grad = False
    device, layout = torch.device("cpu"), torch.strided

    def __init__(self, axes, factors, coef=None, dtype=torch.float32):
        self.axes, self.factors, self.coef, self.dtype = list(axes), list(factors), z3.RealVal(1) if coef is None else coef, dtype

    @classmethod
    def named(cls, name, dims, **kw):
        axes = [() if isinstance(d, int) and d == 1 else (Atom(d),) for d in dims]
        return cls(axes, [(name, tuple(axes))], **kw)

    def like(self, axes=None, factors=None, coef=None):
        return LTensor(self.axes if axes is None else axes, self.factors if factors is None else factors, self.coef if coef is None else coef, self.dtype)

    # ----- protocol
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", "")
        if name in ("conv2d", "matmul", "mm", "bmm", "tensordot", "einsum"):
            return FUNCTIONS[name](*args, **kwargs) if name in FUNCTIONS else unsupported(name)
        if name in ("mul", "multiply", "div", "divide", "true_divide"):
            f = "__mul__" if name.startswith("mul") else "__truediv__"
            a, b = args
            return getattr(a, f)(b) if isinstance(a, LTensor) else b * a if f == "__mul__" else unsupported(name)
        if type(args[0]) is LTensor and name in LTensor.__dict__:
            return getattr(args[0], name)(*args[1:], **kwargs)
        raise Unsupported(f"torch.{name}")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_"):
            raise AttributeError(n)
        raise Unsupported(f"tensor.{n}")

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported("truth of a tensor")

    # ----- shape
    @property
    def shape(self):
        return tuple(size_of(a) for a in self.axes)

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    @property
    def ndim(self):
        return len(self.axes)

    def dim(self):
        return len(self.axes)

    def numel(self):
        n = 1
        for a in self.axes:
            n = size_of(a) * n
        return n

    nelement = numel

    def vc_len(self):
        return size_of(self.axes[0])

    def is_floating_point(self):
        return True

    def axis(self, i, extra=0):
        n = len(self.axes) + extra
        if not -n <= i < n:
            pyraise(IndexError("Dimension out of range"))
        return i % n

    def permute(self, *dims):
        dims = dims[0] if len(dims) == 1 and isinstance(dims[0], (tuple, list)) else dims
        dims = [self.axis(d) for d in dims]
        if sorted(dims) != list(range(len(self.axes))):
            pyraise(RuntimeError("permute: wrong dims"))
        return self.like([self.axes[d] for d in dims])

    def transpose(self, a, b):
        p = list(range(len(self.axes)))
        a, b = self.axis(a), self.axis(b)
        p[a], p[b] = p[b], p[a]
        return self.permute(*p)

    swapaxes = swapdims = transpose

    def t(self):
        return self.transpose(0, 1) if len(self.axes) == 2 else self

    @property
    def T(self):
        return self.like(self.axes[::-1])

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def squeeze(self, dim=None):
        dims = range(len(self.axes)) if dim is None else [self.axis(d) for d in (dim if isinstance(dim, (tuple, list)) else [dim])]
        drop = [i for i in dims if bool(size_of(self.axes[i]) == 1)]
        return self.like([a for i, a in enumerate(self.axes) if i not in drop])

    def unsqueeze(self, dim):
        i = self.axis(dim, 1)
        return self.like(self.axes[:i] + [()] + self.axes[i:])

    def flatten(self, start_dim=0, end_dim=-1):
        s, e = self.axis(start_dim), self.axis(end_dim)
        return self.like(self.axes[:s] + [tuple(x for a in self.axes[s:e + 1] for x in a)] + self.axes[e + 1:])

    def reshape(self, *shape):
        shape = list(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else list(shape)
        atoms = [x for a in self.axes for x in a]
        free = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        front, rest = self.take(atoms, shape[:free[0]] if free else shape)
        if not free:
            if rest:
                raise Unsupported("reshape")
            return self.like(front)
        back, middle = self.take(rest[::-1], shape[free[0] + 1:][::-1])
        return self.like(front + [tuple(middle[::-1])] + [b[::-1] for b in back[::-1]])

    view = reshape

    @staticmethod
    def take(atoms, shape):
        atoms, out = list(atoms), []
        for s in shape:
            axis = []
            while not bool(size_of(axis) == s):
                if not atoms:
                    raise Unsupported("reshape")
                axis.append(atoms.pop(0))
            out.append(tuple(axis))
        return out, atoms

    def __getitem__(self, idx):
        idx = idx if isinstance(idx, tuple) else (idx,)
        n = sum(x is not None and x is not Ellipsis for x in idx)
        full = []
        for x in idx:
            full += [slice(None)] * (len(self.axes) - n) if x is Ellipsis else [x]
        full += [slice(None)] * (len(self.axes) - sum(x is not None for x in full))
        axes, i = [], 0
        for x in full:
            if x is None:
                axes.append(())
            elif isinstance(x, slice) and x == slice(None):
                axes.append(self.axes[i])
                i += 1
            elif isinstance(x, int) and self.axes[i] == ():
                i += 1
            else:
                raise Unsupported("indexing")
        return self.like(axes)

    # ----- identities over the reals
    def to(self, *a, **k):
        return self

    def same(self, *a, **k):
        return self

    float = double = half = bfloat16 = contiguous = clone = detach = cpu = type_as = item = same

    # ----- arithmetic
    def scale(self, v, inverse=False):
        if isinstance(v, LTensor):
            if v.axes and not all(a == () for a in v.axes):
                if not self.axes and not inverse:
                    return v.scale(self)
                raise Unsupported("product of tensors")
            if v.factors:
                raise Unsupported("product of tensors")
            v = v.coef
        else:
            v = zreal(v)
        if inverse:
            check_zero(v == 0)
        return self.like(coef=self.coef / v if inverse else self.coef * v)

    def __mul__(self, o):
        return self.scale(o)

    __rmul__ = mul = multiply = __mul__

    def __truediv__(self, o):
        return self.scale(o, inverse=True)

    div = divide = __truediv__

    def __neg__(self):
        return self.like(coef=-self.coef)

    def __matmul__(self, o):
        return matmul(self, o)

    mm = matmul = __matmul__


def unsupported(name):
    raise Unsupported(f"torch.{name}")


def rename(factors, mapping):
    return [(n, tuple(tuple(mapping.get(x, x) for x in axis) for axis in idx)) for n, idx in factors]


def unify(a, b):
    """mapping that identifies the atoms of axis b with those of axis a (same structure of sizes), or None"""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return None
    m = {}
    for x, y in zip(a, b):
        if not same_size(x.size, y.size):
            return None
        m[y] = x
    return m


def contract(left, right, pairs):
    """sum over the pairs of axes (i of left, j of right); both are renamed apart first"""
    m = {x: Atom(x.size) for a in right.axes for x in a}
    # contracted atoms of right are renamed apart as well
    for _, idx in right.factors:
        for axis in idx:
            for x in axis:
                m.setdefault(x, Atom(x.size))
    right = right.like([tuple(m[x] for x in a) for a in right.axes], rename(right.factors, m))
    for i, j in pairs:
        if not same_size(size_of(left.axes[i]), size_of(right.axes[j])):
            pyraise(RuntimeError("mat1 and mat2 shapes cannot be multiplied"))
        u = unify(left.axes[i], right.axes[j])
        if u is None:
            raise Unsupported("contraction of reshaped axes")
        right = right.like([tuple(u.get(x, x) for x in a) for a in right.axes], rename(right.factors, u))
    li, rj = [i for i, _ in pairs], [j for _, j in pairs]
    axes = [a for i, a in enumerate(left.axes) if i not in li] + [a for j, a in enumerate(right.axes) if j not in rj]
    return LTensor(axes, left.factors + right.factors, left.coef * right.coef, left.dtype)


def matmul(a, b):
    if not (isinstance(a, LTensor) and isinstance(b, LTensor) and len(a.axes) == 2 and len(b.axes) == 2):
        raise Unsupported("matmul of these shapes")
    return contract(a, b, [(1, 0)])


def tensordot(a, b, dims=2, out=None):
    if isinstance(dims, int):
        pairs = [(len(a.axes) - dims + k, k) for k in range(dims)]
    else:
        l, r = ([d] if isinstance(d, int) else d for d in dims)
        pairs = [(a.axis(i), b.axis(j)) for i, j in zip(l, r)]
    return contract(a, b, pairs)


def einsum(eq, *ops):
    ops = ops[0] if len(ops) == 1 and isinstance(ops[0], (tuple, list)) else ops
    eq = eq.replace(" ", "")
    if "->" not in eq or "." in eq or len(ops) != 2:
        raise Unsupported("einsum")
    ins, out = eq.split("->")
    l, r = ins.split(",")
    pairs = [(i, r.index(x)) for i, x in enumerate(l) if x in r]
    if any(l[i] in out for i, _ in pairs) or len(set(l)) != len(l) or len(set(r)) != len(r):
        raise Unsupported("einsum")
    letters = [x for x in l if x not in r] + [x for x in r if x not in l]
    res = contract(*ops, pairs)
    if sorted(out) != sorted(letters):
        raise Unsupported("einsum")
    return res.permute(*[letters.index(x) for x in out])


def conv2d(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if bias is not None or stride not in (1, (1, 1), [1, 1]) or padding not in (0, (0, 0), [0, 0]) or groups != 1:
        raise Unsupported("conv2d options")
    if len(input.axes) != 4 or len(weight.axes) != 4:
        raise Unsupported("conv2d of these ranks")
    if not (bool(size_of(weight.axes[2]) == 1) and bool(size_of(weight.axes[3]) == 1)):
        raise Unsupported("conv2d with a larger kernel")
    res = contract(weight.like(weight.axes[:2]), input, [(1, 1)])       # (O, N, H, W)
    return res.permute(1, 0, 2, 3)


FUNCTIONS = {"conv2d": conv2d, "matmul": matmul, "mm": matmul, "tensordot": tensordot, "einsum": einsum}


def normal(t):
    """normal form of the entry at given indices: factors with canonical index names"""
    names = {}
    for i, a in enumerate(t.axes):
        for j, x in enumerate(a):
            names[x] = f"{i}" if len(a) == 1 else f"{i}.{j}"
    out = []
    for n, idx in sorted(t.factors, key=lambda f: f[0]):
        row = []
        for axis in idx:
            row.append(tuple(names.setdefault(x, f"s{len(names)}") for x in axis))
        out.append((n, tuple(row)))
    return tuple(out)
