"""
Abstract tensors: elements, shape, dtype and strides are unknown.  torch's own operator schemas (aliasing and mutation
annotations of every aten operator) are the contracts of the torch functions; truth values and numbers read from a tensor are
unconstrained.  A value carries the operation it is the result of (`op`, `args`, `kwargs`) and the inputs whose memory it may share.
"""
import torch
from . import *
from . import core
from .core import Unsupported, pyraise
from .values import *

_schemas = {}


def schemas(name):
    if name not in _schemas:
        try:
            _schemas[name] = torch._C._jit_get_schemas_for_operator("aten::" + name)
        except RuntimeError:
            _schemas[name] = []
    return _schemas[name]


class ADType(Model):
    """an unknown dtype; equal to a given dtype or not"""
    pytype = torch.dtype

    def __init__(self, floating=None):
        self._f = floating
        self.known = {}

    def __eq__(self, o):
        if o is self:
            return True
        if o not in self.known:
            self.known[o] = False if any(v is True for v in self.known.values()) else bool(core.ctx().choice(2, f"dtype is {o}"))
        return self.known[o]

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7919

    def __getattr__(self, n):
        if n == "is_floating_point":
            if self._f is None:
                self._f = bool(core.ctx().choice(2, "floating"))
            return self._f
        if n == "is_complex":
            return False
        if n.startswith("__") or n == "vc_len":
            raise AttributeError(n)
        if n == "itemsize":
            return 4
        raise Unsupported(f"dtype.{n}")


class ANum(Model):
    """an unknown number: every comparison may go either way"""
    def __init__(self, kind=int):
        self.__dict__["kind"] = kind
        self.known = {}

    @property
    def pytype(self):
        return self.__dict__["kind"]

    def __repr__(self):
        return f"<{self.kind.__name__}>"

    def __hash__(self):
        return 7901

    def _cmp(self, op, o):
        if o is self:
            return op in ("eq", "le", "ge")
        k = (op, o) if not isinstance(o, (list, dict, tuple)) else None
        try:
            if k in self.known:
                return self.known[k]
        except TypeError:
            k = None
        r = bool(core.ctx().choice(2, op))
        if k is not None:
            self.known[k] = r
        return r

    def __bool__(self):
        return not self._cmp("eq", 0)

    def __round__(self, n=None):
        return ANum(int)

    __floor__ = __ceil__ = __trunc__ = __round__

    def vc_int(self):
        return ANum(int)

    def vc_float(self):
        return ANum(float)

    def is_integer(self):
        return self._cmp("integer", None)


def _numbers():
    def arith(n):
        def f(self, o):
            if isinstance(o, ATensor) or type(o) is ATensor:
                return NotImplemented
            if isinstance(o, (str, list, tuple, type(None))):
                return NotImplemented
            return ANum(float if n == "truediv" or self.kind is float or isinstance(o, float) else int)

        def r(self, o):
            return ANum(float if n == "truediv" or self.kind is float or isinstance(o, float) else int)
        setattr(ANum, f"__{n}__", f)
        setattr(ANum, f"__r{n}__", r)
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor", "lshift", "rshift"):
        arith(n)
    for n in ("lt", "le", "gt", "ge", "eq"):
        setattr(ANum, f"__{n}__", lambda self, o, n=n: self._cmp(n, o))
    ANum.__ne__ = lambda self, o: not self._cmp("eq", o)
    for n in ("neg", "pos", "abs", "invert"):
        setattr(ANum, f"__{n}__", lambda self: ANum(self.kind))


_numbers()


class AShape(Model):
    """an unknown shape: rank and dimensions are unknown numbers; the rank is decided (0 to 4) where the dimensions are enumerated"""
    pytype = torch.Size

    def __init__(self, most=4):
        self.most = most
        self.rank = ANum(int)
        self.dims = {}
        self.eqs = {}
        self.n = None
        self.decided = None

    def decide(self):
        if self.decided is None:
            self.decided = core.ctx().choice(self.most + 1, "rank")
        return self.decided

    def __len__(self):
        return self.decide()

    def vc_len(self):
        return self.rank if self.decided is None else self.decided

    def dim(self, i):
        if i not in self.dims:
            self.dims[i] = ANum(int)
        return self.dims[i]

    def __getitem__(self, i):
        if isinstance(i, slice):
            most = self.most
            if i.start is None and isinstance(i.stop, int) and i.stop >= 0 and not isinstance(i.stop, ANum):
                most = i.stop
            elif i.stop is None and isinstance(i.start, int) and not isinstance(i.start, ANum) and i.start < 0:
                most = -i.start
            return AShape(min(most, self.most))
        if isinstance(i, ANum):
            return ANum(int)
        return self.dim(i)

    def __iter__(self):
        return iter([self.dim(i) for i in range(self.decide())])

    def __reversed__(self):
        return reversed(list(self))

    def numel(self):
        if self.n is None:
            self.n = ANum(int)
        return self.n

    def __eq__(self, o):
        if o is self:
            return True
        k = id(o) if type(o) is AShape else tuple(o) if isinstance(o, (tuple, list)) else o
        try:
            if k not in self.eqs:
                self.eqs[k] = bool(core.ctx().choice(2, "shapes equal")), o
            return self.eqs[k][0]
        except TypeError:
            return bool(core.ctx().choice(2, "shapes equal"))

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        return (*self, *o)

    def __radd__(self, o):
        return (*o, *self)

    def __hash__(self):
        return 7907

    def __bool__(self):
        return bool(self.vc_len() != 0)


FRESH = {"normalize", "full", "tensor", "asarray", "from_numpy", "__matmul__", "CosineSimilarity", "conv_transpose2d", "dropout", "interpolate", "one_hot",
         "cosine_similarity", "pairwise_distance"}
ALIAS = {"float", "half", "double", "int", "long", "bfloat16", "cpu", "cuda", "bool", "short", "char", "byte", "type", "data", "T", "mT", "H", "mH", "real", "imag", "numpy",
         "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_tensors", "meshgrid", "split", "chunk", "tensor_split", "unflatten", "unfold", "grad"}
RETURNS = {"svd": ("U", "S", "Vh"), "linalg_svd": ("U", "S", "Vh"), "slogdet": ("sign", "logabsdet"), "kthvalue": ("values", "indices"), "sort": ("values", "indices"), "topk": ("values", "indices"),
           "linalg_eigh": ("eigenvalues", "eigenvectors"), "linalg_eig": ("eigenvalues", "eigenvectors"), "linalg_qr": ("Q", "R"), "geqrf": ("a", "tau"), "linalg_slogdet": ("sign", "logabsdet"),
           "std_mean": ("std", "mean"), "var_mean": ("var", "mean"), "mode": ("values", "indices"), "cummax": ("values", "indices"), "cummin": ("values", "indices"), "frexp": ("mantissa", "exponent"),
           "unique": None, "median": None, "max": None, "min": None}
INTS = {"size", "dim", "ndimension", "numel", "nelement", "element_size", "storage_offset", "stride", "data_ptr", "get_device"}


class ATensor(Model):
    pytype = torch.Tensor
    WRITES = None        # list of (input, operation) of the current path
    serial = 0

    def __init__(self, op, args=(), kwargs=None, regions=frozenset(), shape=None, n0=None, dtype=None):
        ATensor.serial += 1
        d = self.__dict__
        d.update(op=op, args=args, kwargs=kwargs or {}, regions=regions, _shape=shape, n0=n0, _dtype=dtype, id=ATensor.serial)

    def __repr__(self):
        return f"<{self.op}#{self.id}>"

    def __hash__(self):
        return id(self)

    def __setattr__(self, n, v):
        if n in ("_shape", "_dtype", "n0"):
            self.__dict__[n] = v
            return
        self.write(f".{n} =")

    def write(self, what):
        for r in self.regions:
            ATensor.WRITES.append((r, what))

    # ----- torch protocol
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", None) or repr(func)
        if name == "__get__":
            name = getattr(getattr(func, "__self__", None), "__name__", name)
            return getattr(args[0], name)
        if getattr(func, "__module__", "") and "linalg" in str(getattr(func, "__module__", "")) and not name.startswith("linalg"):
            name = "linalg_" + name
        return apply(name, args, kwargs)

    # ----- attributes
    @property
    def shape(self):
        if self._shape is None:
            self._shape = AShape()
        return self._shape

    @property
    def dtype(self):
        if self._dtype is None:
            self._dtype = ADType()
        return self._dtype

    device = torch.device("cpu")
    is_cuda = False
    is_sparse = False
    requires_grad = False
    layout = torch.strided

    def vc_len(self):
        return self.n0 if self.n0 is not None else self.shape.dim(0)

    @property
    def ndim(self):
        return self.shape.vc_len()

    def dim(self):
        return self.shape.vc_len()

    ndimension = dim

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    def numel(self):
        return self.shape.numel()

    nelement = numel

    def is_floating_point(self):
        return self.dtype.is_floating_point

    def item(self):
        return ANum(int if self.op == "index" else float)

    def tolist(self):
        raise Unsupported("tolist")

    def __bool__(self):
        return bool(core.ctx().choice(2, "truth of a tensor"))

    def __float__(self):
        raise Unsupported("float(tensor)")

    def vc_float(self):
        return ANum(float)

    def vc_int(self):
        return ANum(int)

    def __len__(self):
        if self.n0 is not None:
            return self.n0
        raise Unsupported("native len of a tensor")

    def __iter__(self):
        n = self.n0 if self.n0 is not None else core.ctx().choice(4, "length")
        return iter([ATensor("select", (self, 0, i), regions=self.regions) for i in range(n)])

    def __getitem__(self, i):
        fancy = isinstance(i, (ATensor, torch.Tensor, list)) or isinstance(i, tuple) and any(isinstance(x, (ATensor, torch.Tensor, list)) for x in i)
        return ATensor("index", (self, i), regions=frozenset() if fancy else self.regions)

    def __setitem__(self, i, v):
        self.write("[...] =")

    def __getattr__(self, n):
        if n in ("vc_loop", "vc_comp") or n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        if n in ("T", "mT", "H", "mH", "real", "imag", "data", "grad"):
            return ATensor(n, (self,), regions=self.regions, dtype=self.__dict__["_dtype"])
        if not hasattr(torch.Tensor, n):
            pyraise(AttributeError(f"'Tensor' object has no attribute '{n}'"))
        me = self

        def method(*args, **kwargs):
            return apply(n, (me, *args), kwargs)
        return method


def _tensors(x, out, depth=3):
    if isinstance(x, ATensor) or type(x) is ATensor:
        out.append(x)
    elif depth and type(x) in (list, tuple):
        for y in x:
            _tensors(y, out, depth - 1)
    elif depth and type(x) is dict:
        for y in x.values():
            _tensors(y, out, depth - 1)
    return out


def apply(name, args, kwargs):
    """a torch function under its contract: what it writes, what its result may share memory with"""
    core.ctx().tick() if hasattr(core.ctx(), "tick") else None
    c = core.ctx()
    c.engine.contracts_used[f"torch.{name}"] = c.engine.contracts_used.get(f"torch.{name}", 0) + 1
    ts = _tensors((args, kwargs), [])
    regions = frozenset(r for t in ts for r in t.regions)
    out = kwargs.get("out")
    if out is not None:
        for t in _tensors(out, []):
            t.write(f"{name}(out=)")
        return out
    if name in ("size", "dim", "numel", "is_floating_point", "item", "ndimension", "nelement") and args and type(args[0]) is ATensor:
        return getattr(args[0], name)(*args[1:], **kwargs)
    if name.startswith("__i") and name.endswith("__") and name not in ("__invert__", "__index__", "__int__", "__iter__") or name.endswith("_") and not name.endswith("__"):
        t = args[0]
        if type(t) is ATensor:
            t.write(name)
        return t
    if name == "__setitem__":
        if type(args[0]) is ATensor:
            args[0].write("[...] =")
        return None
    if name == "__getitem__":
        if type(args[0]) is ATensor:
            return args[0][args[1]]
        return ATensor("index", args)
    if name in ("allclose", "equal", "is_nonzero", "is_same_size", "isclose_all"):
        return bool(c.choice(2, name))
    if name == "numpy" or name == "__array__" or name == "untyped_storage" or name == "storage" or name == "data_ptr" or name == "set_":
        raise Unsupported(name)
    base = name.strip("_") if name.startswith("__") else name
    kw = {k: v for k, v in kwargs.items()}
    if base == "unbind":
        t = args[0]
        if t.n0 is None:
            raise Unsupported("unbind of unknown length")
        return tuple(ATensor("select", (t, 0, i), regions=t.regions) for i in range(t.n0))
    if base in ("meshgrid", "broadcast_tensors"):
        xs = args[0] if len(args) == 1 and type(args[0]) in (list, tuple) else args
        return tuple(ATensor(base, (xs, i), regions=frozenset(r for t in _tensors(x, []) for r in t.regions)) for i, x in enumerate(xs))
    if base == "stack":
        xs = args[0]
        dim = args[1] if len(args) > 1 else kw.get("dim", 0)
        if type(xs) is ATensor:
            return ATensor("stack", args, kw, n0=xs.n0)
        return ATensor("stack", args, kw, n0=len(xs) if dim == 0 else None)
    if base in ("split", "chunk", "tensor_split", "hsplit", "vsplit"):
        n = args[1] if len(args) > 1 else None
        if base != "split" and isinstance(n, int):
            return tuple(ATensor(base, (*args, i), kw, regions) for i in range(n))
        raise Unsupported(base)
    multi = RETURNS.get(base)
    if multi:
        return _Returns(multi, [ATensor(f"{base}.{m}", args, kw) for m in multi])
    ss = schemas(base)
    if base in ("max", "min", "median", "mode") and (len(args) > 1 and not _tensors(args[1], []) or "dim" in kw):
        return _Returns(("values", "indices"), [ATensor(f"{base}.{m}", args, kw) for m in ("values", "indices")])
    if base in ALIAS:
        alias = True
    elif ss:
        alias = False
        for s in ss:
            for a in s.arguments:
                if a.alias_info is not None and a.alias_info.is_write and not (a.name == "out" or a.is_out):
                    for t in ts[:1]:
                        t.write(name)
            if any(r.alias_info is not None and not r.alias_info.is_write for r in s.returns):
                alias = True
        kinds = {str(r.type) for s in ss for r in s.returns}
        if kinds and not any("Tensor" in k for k in kinds):
            if "bool" in kinds:
                return bool(c.choice(2, name))
            if "int" in kinds:
                return ANum(int)
            raise Unsupported(f"torch.{name} returns {kinds}")
        if all("[]" in k for k in kinds):
            raise Unsupported(f"torch.{name} returns a list")
    elif base in FRESH or base in BINARY or base in UNARY:
        alias = False
    else:
        raise Unsupported(f"torch.{name} has no schema")
    if base == "to" and kw.get("copy") is True:
        alias = False
    if base == "contiguous" or base == "reshape":
        alias = True
    return ATensor(base, args, kw, regions if alias else frozenset(), n0=_n0(base, args, kw))


def _n0(base, args, kw):
    """elementwise operations keep a known leading dimension"""
    if base in ELEMENTWISE:
        for t in _tensors(args, []):
            if t.n0 is not None:
                return t.n0
    return None


class _Returns(tuple):
    def __new__(cls, names, values):
        r = tuple.__new__(cls, values)
        r.__dict__.update(zip(names, values))
        return r


BINARY = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lt", "le", "gt", "ge", "eq", "ne", "lshift", "rshift"]
UNARY = ["neg", "abs", "invert", "pos"]
ELEMENTWISE = {*BINARY, *UNARY, "sign", "abs", "float", "half", "div", "where", "nan_to_num", "clamp", "to", "clone", "maximum", "minimum"} - {"matmul"}


def _install():
    def binary(n):
        def f(self, o):
            if isinstance(o, (str, type(None))) or type(o) in (list, tuple, dict):
                return False if n == "eq" else True if n == "ne" else NotImplemented
            return apply(f"__{n}__", (self, o), {})

        def r(self, o):
            return apply(f"__{n}__", (o, self), {})

        def i(self, o):
            apply(f"__i{n}__", (self, o), {})
            return self
        setattr(ATensor, f"__{n}__", f)
        if n not in ("lt", "le", "gt", "ge", "eq", "ne"):
            setattr(ATensor, f"__r{n}__", r)
            if hasattr(torch.Tensor, f"__i{n}__"):
                setattr(ATensor, f"__i{n}__", i)
    for n in BINARY:
        binary(n)
    for n in UNARY:
        setattr(ATensor, f"__{n}__", lambda self, n=n: apply(f"__{n}__", (self,), {}))


_install()


def _functions():
    out = {}
    for m in (torch, torch.linalg, torch.fft, torch.nn.functional, torch.special):
        for n in dir(m):
            f = getattr(m, n)
            if n.startswith("_") or isinstance(f, type) or not callable(f) or n in ("no_grad", "inference_mode", "compile", "manual_seed", "get_default_dtype", "is_tensor", "finfo", "iinfo", "promote_types"):
                continue
            prefix = {torch.linalg: "linalg_", torch.fft: "fft_", torch.special: "special_"}.get(m, "")
            name = getattr(f, "__name__", n)
            out[f] = name if name.startswith(prefix) else prefix + name
    import math
    for n in dir(math):
        if callable(getattr(math, n)) and not n.startswith("_"):
            out[getattr(math, n)] = "math." + n
    return out


FUNCTIONS = {}
FACTORIES = {"zeros", "ones", "full", "empty", "tensor", "eye", "linspace", "arange", "randn", "rand", "as_tensor", "asarray", "from_numpy", "complex", "diag", "logspace"}


class TorchContracts(dict):
    """overrides: every torch function, by its contract"""
    def get(self, f, default=None):
        r = dict.get(self, f)
        if r is not None:
            return r
        if f is torch.promote_types:
            def promoted(a, b):
                if not any(isinstance(x, ADType) for x in (a, b)):
                    return torch.promote_types(a, b)
                if a is b:
                    return a
                return ADType(True if any(isinstance(x, torch.dtype) and x.is_floating_point for x in (a, b)) else None)
            return promoted
        if not FUNCTIONS:
            FUNCTIONS.update(_functions())
        try:
            name = FUNCTIONS.get(f)
        except TypeError:
            return None
        if name is not None and name.startswith("math."):
            def number(*args, **kwargs):
                if not any(type(a) is ANum for a in (*args, *kwargs.values())):
                    return f(*args, **kwargs)
                if name in ("math.isclose", "math.isfinite", "math.isnan", "math.isinf"):
                    return bool(core.ctx().choice(2, name))
                return ANum(int if name in ("math.floor", "math.ceil", "math.trunc") else float)
            return number
        if name is None or dict.get(self, "native") and name in dict.get(self, "native"):
            return None

        def call(*args, **kwargs):
            if name in FACTORIES and not _tensors((args, kwargs), []):
                core.ctx().engine.contracts_used[f"torch.{name}"] = core.ctx().engine.contracts_used.get(f"torch.{name}", 0) + 1
                return ATensor(name, args, kwargs)
            return apply(name, args, kwargs)
        return call

    def __bool__(self):
        return True


def tensor_input(name, **kw):
    return ATensor("input", (name,), regions=frozenset([name]), **kw)
