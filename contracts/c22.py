"""C22 Region copies replace exactly the requested share of rows"""
import z3
from fractions import Fraction
from vc.report import Proof
from vc.values import Model, SReal, SInt, zreal, zint, mkint, is_sym
from vc.core import Unsupported
from .common import *

ID = "C22"
LEVEL = "proof"
TRUSTED = [
    "Tensor.clone, and reading and writing a slice of rows of a tensor (contracts on a tensor seen through one arbitrary row)",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["widths and offsets are real numbers: products of floats are treated as exact in the contracts (the concrete cross-check runs on floats)"]
NOTE = "For all real widths and offsets and all numbers of rows; an arbitrary row.  The top-k variant is checked on concrete tensors only (bounded)."
PROOF_BUDGET = 60
SUITE_BUDGET = 8


def wrapped(name):
    return merge_methods.resolve(name).__wrapped__


def zabs(e):
    return z3.If(e >= 0, e, -e)


# ----------------------------------------------------------------- contracts
def nearest(i, x):
    """integer i is a rounding of the real x"""
    return zabs(z3.ToReal(i) - x) <= z3.RealVal("1/2")


class Rows(Model):
    """a tensor with n rows, seen through the arbitrary row i: `row` names what is in it"""
    pytype = torch.Tensor

    def __init__(self, c, n, i, row, log=None):
        self.__dict__.update(c=c, n=n, i=i, row=row, shape=Dims(n), written=False)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def __len__(self):
        raise Unsupported("native length")

    def vc_len(self):
        return mkint(self.n)

    def numel(self):
        raise Unsupported("number of elements")

    def clone(self, **k):
        return Rows(self.c, self.n, self.i, self.row)

    def detach(self):
        return self

    def range(self, s):
        """does the slice hold row i?"""
        if type(s) is tuple and len(s) == 1:
            s = s[0]
        if s is Ellipsis:
            return z3.BoolVal(True), z3.IntVal(0), self.n
        if type(s) is not slice or s.step not in (None, 1):
            raise Unsupported("indexing")

        def bound(x, default):
            if x is None:
                return default
            x = zint(x)
            x = z3.If(x < 0, x + self.n, x)
            return z3.If(x < 0, z3.IntVal(0), z3.If(x > self.n, self.n, x))
        lo, hi = bound(s.start, z3.IntVal(0)), bound(s.stop, self.n)
        return z3.And(lo <= self.i, self.i < hi), lo, z3.If(hi < lo, lo, hi)

    def __getitem__(self, s):
        inside, lo, hi = self.range(s)
        return Part(self, inside, lo, hi, self.row)

    def __setitem__(self, s, v):
        inside, lo, hi = self.range(s)
        if type(v) is Part:
            # the rows of the part go to the rows of the slice in order
            self.c.prove("a block is copied to the same rows of another tensor", z3.And(v.lo == lo, v.hi == hi))
            row = v.row
        elif type(v) is Rows:
            self.c.prove("a block is copied to the same rows of another tensor", z3.And(lo == 0, hi == self.n))
            row = v.row
        else:
            raise Unsupported("assigning something else")
        self.row = z3.If(inside, row, self.row)
        self.written = True

    def __hash__(self):
        return id(self)


class Part(Rows):
    def __init__(self, of, inside, lo, hi, row):
        self.__dict__.update(c=of.c, of=of, inside=inside, lo=lo, hi=hi, row=row, n=hi - lo, i=of.i - lo, shape=Dims(hi - lo), written=False)

    def copy_(self, v):
        self.c.prove("a block is copied to the same rows of another tensor", z3.And(v.lo == self.lo, v.hi == self.hi) if type(v) is Part else z3.BoolVal(False))
        self.of.row = z3.If(self.inside, v.row, self.of.row)
        self.of.written = True
        return self

    def clone(self, **k):
        r = Part(self.of, self.inside, self.lo, self.hi, self.row)
        return r


class Dims(Model):
    pytype = torch.Size

    def __init__(self, n):
        self.n = n

    def __getitem__(self, k):
        if k == 0:
            return mkint(self.n)
        raise Unsupported("another dimension")

    def vc_len(self):
        return 2

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)


class Inputs:
    """an arbitrary width, offset and number of rows; the start of the block is a whole number of turns and a part in [0, 1).
    Products with the number of rows are an uninterpreted function of which instances of the lemmas are known; a condition that
    they do not settle is decided with the true product."""
    def __init__(self, c):
        self.c, self.n = c, c.int("rows")
        c.assume(self.n >= 1)
        self.rn = z3.ToReal(self.n)
        turns, self.lo = c.int("turns"), c.real("start")
        c.assume(z3.And(self.lo >= 0, self.lo < 1))
        self.first = z3.ToReal(turns) + self.lo
        # case distinction: the sign of the width, and whether it exceeds 1
        back, full = c.choice(2, "backwards") == 1, c.choice(2, "full") == 1
        size = c.real("size")
        c.assume(size >= 1 if full else z3.And(size > 0 if back else size >= 0, size < 1))
        self.w = -size if back else size
        self.o = self.first + size if back else self.first
        self.wd = z3.RealVal(1) if full else size
        x, y, r = c.real("lemma x"), c.real("lemma y"), c.real("lemma r")
        c.prove("lemma: products are monotonic", z3.Implies(z3.And(x <= y, r >= 0), x * r <= y * r))
        c.prove("lemma: products are additive", z3.And((x + y) * r == x * r + y * r, (x - y) * r == x * r - y * r, 0 * r == 0, 1 * r == r))
        self.P, self.seen = c.fun("rows_times", z3.RealSort(), z3.RealSort()), []
        P, lo, wd, rn = self.P, self.lo, self.wd, self.rn
        self.base = [z3.RealVal(0), lo, wd, lo + wd - 1, lo + wd, z3.RealVal(1)]
        c.assume(z3.And(P(z3.RealVal(0)) == 0, P(z3.RealVal(1)) == rn, P(lo + wd) == P(lo) + P(wd), P(lo + wd - 1) == P(lo) + P(wd) - rn))
        for i, a in enumerate(self.base):
            for b in self.base[i + 1:]:
                c.assume(z3.And(z3.Implies(a <= b, P(a) <= P(b)), z3.Implies(b <= a, P(b) <= P(a))))
        c.product = self.product

    def product(self, x, y):
        for a, b in ((x, y), (y, x)):
            if z3.simplify(b).eq(self.rn):
                if z3.is_rational_value(z3.simplify(a)):
                    return a * b
                self.seen.append(a)
                for u in self.base:
                    self.c.assume(z3.And(z3.Implies(a <= u, self.P(a) <= self.P(u)), z3.Implies(u <= a, self.P(u) <= self.P(a))))
                return self.P(a)
        return x * y

    def prove(self, name, cond):
        c = self.c
        if isinstance(cond, z3.ExprRef) and c.check(z3.Not(cond)) != z3.unsat:
            for t in (*self.base, *self.seen):
                c.assume(self.P(t) == t * self.rn)
        c.prove(name, cond)


def replaced_at(c, what, row_is_b, I, i):
    """the row i comes from the second tensor if and only if it is in the block"""
    lo, wd, rn, ri, w = I.lo, I.wd, I.rn, z3.ToReal(i), I.w
    a, b = I.P(lo), I.P(lo + wd)

    # rounding a bound to a nearest row decides by the middle of the row; either way when it lies on the bound
    mid = ri + z3.RealVal("1/2")
    I.prove(f"{what}: replaced rows lie in the block, up to rounding of its bounds", z3.Implies(row_is_b, z3.Or(z3.And(a <= mid, mid <= b), z3.And(a <= mid + rn, mid + rn <= b))))
    I.prove(f"{what}: rows inside of the block are replaced, up to rounding of its bounds", z3.Implies(z3.Or(z3.And(a < mid, mid < b), z3.And(a < mid + rn, mid + rn < b)), row_is_b))
    I.prove(f"{what}: a width of 1 or more replaces everything", z3.Implies(zabs(w) >= 1, row_is_b))


def h_region(c):
    from sd_mecha.extensions.builtin import merge_methods as mm
    I = Inputs(c)
    w, o, n, lo, wd, rn = I.w, I.o, I.n, I.lo, I.wd, I.rn
    s, e, inv = mm.ratio_to_region(SReal(w), SReal(o), SInt(n))
    s, e = zint(s), zint(e)
    inv = bool(inv)
    c.cover("inverted" if inv else "plain")
    I.prove("the bounds lie inside the tensor, in order", z3.And(0 <= s, s <= e, e <= n))
    a, b = I.P(lo), I.P(lo + wd)
    I.prove("each bound is rounded to a nearest row", z3.Or(z3.And(zabs(w) >= 1, (s == e) if inv else z3.And(s == 0, e == n)), z3.And(nearest(e, a), nearest(s, b - rn)) if inv else z3.And(nearest(s, a), nearest(e, b))))
    size = n - (e - s) if inv else e - s
    I.prove("the size of the block is the width times the rows, up to rounding", zabs(z3.ToReal(size) - I.P(wd)) <= 1)


def h_periodic(c):
    from sd_mecha.extensions.builtin import merge_methods as mm
    I, k = Inputs(c), c.int("further turns")
    w, o, n = I.w, I.o, I.n
    one = mm.ratio_to_region(SReal(w), SReal(o), SInt(n))
    two = mm.ratio_to_region(SReal(w), SReal(o + z3.ToReal(k)), SInt(n))
    c.cover("periodic")
    I.prove("offsets are periodic", z3.And(z3.BoolVal(bool(one[2]) == bool(two[2])), zint(one[0]) == zint(two[0]), zint(one[1]) == zint(two[1])))


def h_backwards(c):
    from sd_mecha.extensions.builtin import merge_methods as mm
    w, o, n = c.real("width"), c.real("offset"), c.int("rows")
    c.assume(z3.And(n >= 1, w >= 0))
    one = mm.ratio_to_region(SReal(-w), SReal(o), SInt(n))
    two = mm.ratio_to_region(SReal(w), SReal(o - w), SInt(n))
    c.cover("backwards")
    c.prove("a negative width extends the region backwards from the offset", z3.And(z3.BoolVal(bool(one[2]) == bool(two[2])), zint(one[0]) == zint(two[0]), zint(one[1]) == zint(two[1])))


A, B = z3.IntVal(0), z3.IntVal(1)


def h_sum(c):
    I = Inputs(c)
    w, o, n = I.w, I.o, I.n
    i = c.int("row")
    c.assume(z3.And(0 <= i, i < n))
    a, b = Rows(c, n, i, A), Rows(c, n, i, B)
    res = wrapped("tensor_sum")(a, b, SReal(w), SReal(o))
    ok = type(res) is Rows
    c.prove("the result is a tensor of that many rows", ok and res.n is n)
    if not ok:
        return
    c.cover("copied")
    c.prove("every row is one of the two at the same place", z3.Or(res.row == A, res.row == B))
    c.prove("the inputs are not written to", not a.written and not b.written)
    replaced_at(c, "tensor_sum", res.row == B, I, i)


def h_default(c):
    n, i = c.int("rows"), c.int("row")
    c.assume(z3.And(n >= 1, 0 <= i, i < n))
    a, b = Rows(c, n, i, A), Rows(c, n, i, B)
    res = wrapped("tensor_sum")(a, b)
    c.cover("defaults")
    rn, ri = z3.ToReal(n), z3.ToReal(i)
    c.prove("by default the first half is copied", z3.And(z3.Implies(ri + 1 <= rn / 2 - z3.RealVal("1/2"), res.row == B), z3.Implies(ri >= rn / 2 + z3.RealVal("1/2"), res.row == A)))


def proofs():
    return [
        Proof("ratio_to_region", h_region, budget=60),
        Proof("periodic offsets", h_periodic, budget=60),
        Proof("negative widths", h_backwards, budget=30),
        Proof("tensor_sum", h_sum, budget=60),
        Proof("tensor_sum by default", h_default, budget=20),
    ]


# ----------------------------------------------------------------- concrete cross-check
def merged(recipe):
    return sd_mecha.merge(recipe, threads=0, merge_device=None, output_device=None, merge_dtype=None, output_dtype=None, strict_weight_space=False, total_buffer_size=2**20)["k"]


def model(t, space="weight"):
    # with a config of its own: inferring one takes most of the time of a small merge
    cfg = synthetic_config("vc22-model", {"m": {"k": (list(t.shape), "float64", [], False)}})
    return sd_mecha.model({"k": t}, cfg, merge_space=space)


def block(w, o, n):
    """(first row, end) of the exact block of rows, before rounding; first row in [0, n)"""
    w, o = Fraction(w), Fraction(o)
    if w < 0:
        o, w = o + w, -w
    w = min(w, Fraction(1))
    o = o - math.floor(o)
    return o * n, (o + w) * n


def check_rows(what, got, a, b, w, o, **info):
    """exactly a block of rows comes from b"""
    n = a.shape[0]
    lo, hi = block(w, o, n)
    from_b = []
    for i in range(n):
        x, y = torch.equal(got[i], a[i]), torch.equal(got[i], b[i])
        check(x or y, f"{what}: a row of neither tensor", row=i, rows=n, width=w, offset=o, **info)
        from_b.append(y)
    eps = Fraction(1, 10**6)
    for i in range(n):
        def within(s):
            return any(lo - s <= k + Fraction(1, 2) <= hi + s for k in (i, i + n))
        check(not from_b[i] or within(eps), f"{what}: a row outside of the region was replaced", row=i, rows=n, width=w, offset=o, replaced=from_b, **info)
        check(from_b[i] or not within(-eps), f"{what}: a row inside of the region was kept", row=i, rows=n, width=w, offset=o, replaced=from_b, **info)
    if abs(w) >= 1:
        check(all(from_b), f"{what}: a width of 1 or more did not replace everything", rows=n, width=w, offset=o, replaced=from_b, **info)
    turns = sum(from_b[i] != from_b[i - 1] for i in range(n))
    check(turns <= 2, f"{what}: more than one block", rows=n, width=w, offset=o, replaced=from_b, **info)
    check(abs(sum(from_b) - (hi - lo)) <= 1 + Fraction(1, 10**6), f"{what}: the block has another size", rows=n, width=w, offset=o, replaced=from_b, **info)
    return from_b


def some_number(rng, lo, hi):
    k = rng.random()
    if k < 0.3:
        return rng.randint(lo * 8, hi * 8) / 8
    if k < 0.6:
        return rng.randint(lo * 10, hi * 10) / 10
    if k < 0.75:
        q = rng.randint(1, 24)
        return rng.randint(lo * q, hi * q) / q
    if k < 0.8:
        return rng.choice([1e-9, -1e-9, 0.5 + 1e-12, 1e-20, -1e-20, float(lo), float(hi)])
    return rng.uniform(lo, hi)


def case_rows(seed):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 25, 33, 100])
    shape = (n, *rng.choice([(), (2,), (1, 3), (2, 1, 2), (2, 1, 1, 2)]))
    dtype = rng.choice([torch.float32, torch.float64, torch.float16, torch.bfloat16])
    a = torch.arange(1, math.prod(shape) + 1).reshape(shape).to(dtype)
    b = -a
    w = some_number(rng, -2, 2) if rng.random() < 0.8 else rng.choice([1.0, -1.0, 1, 2.0, 0, 1.5])
    o = some_number(rng, -3, 3)
    ka, kb = a.clone(), b.clone()
    method = merge_methods.resolve("tensor_sum")
    got = merged(method(model(a), model(b), width=w, offset=o))
    flags = check_rows("tensor_sum", got, a, b, w, o)
    check(torch.equal(a, ka) and torch.equal(b, kb), "tensor_sum: the inputs were written to", width=w, offset=o)
    check(torch.equal(merged(sd_mecha.copy_region(model(a), model(b), width=w, offset=o)), got), "copy_region: another result than tensor_sum", width=w, offset=o, rows=n)
    if w == int(w * 8) / 8 and o == int(o * 8) / 8 and n in (1, 2, 4, 8, 16):
        k = rng.randint(-3, 3)
        check(torch.equal(merged(method(model(a), model(b), width=w, offset=o + k)), got), "tensor_sum: offsets are not periodic", width=w, offset=o, turns=k, rows=n)
        check(torch.equal(merged(method(model(a), model(b), width=-w, offset=o + w)), got), "tensor_sum: a negative width is another region", width=w, offset=o, rows=n)
    if dtype in (torch.float32, torch.float64):
        c = torch.full(shape, 3.0, dtype=dtype)
        check(torch.equal(merged(sd_mecha.copy_region(model(a), model(b), model(c), width=w, offset=o)), got), "copy_region relative to a third model: another result", width=w, offset=o, rows=n)
    if rng.random() < 0.2:
        check_rows("tensor_sum by default", merged(method(model(a), model(b))), a, b, 0.5, 0.0)
        check_rows("copy_region by default", merged(sd_mecha.copy_region(model(a), model(b))), a, b, 1.0, 0.0)
    del flags


def top_k_reference(a, b, start, end, inverted):
    x, y = a.flatten().tolist(), b.flatten().tolist()
    ordered = sorted(x)
    magnitudes = sorted(map(abs, x))
    first = magnitudes[start - 1] if start > 0 else -1
    last = magnitudes[end - 1] if end > 0 else -1
    rank = {p: r for r, p in enumerate(sorted(range(len(y)), key=lambda p: y[p]))}
    out = []
    for p in range(len(x)):
        v = ordered[rank[p]]
        out.append(v if (first <= abs(v) <= last) != inverted else x[p])
    return torch.tensor(out, dtype=a.dtype).reshape(a.shape)


def case_top_k(seed):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 4, 5, 8, 12, 16])
    shape = rng.choice([(n,), (n, 1), (2, n), (n, 1, 2), (1, n, 2, 2), (n, 2, 1, 1), (2, 1, 1, 1, n)])
    size = math.prod(shape)
    values = rng.sample(range(1, 200), size)      # different magnitudes
    unit = rng.choice([0.1, 1.0, 0.125, 1e-3])
    dtype = rng.choice([torch.float64, torch.float32])
    a = torch.tensor([v * unit * rng.choice([-1, 1]) for v in values], dtype=dtype).reshape(shape)
    b = torch.tensor([rng.gauss(0, 1) for _ in values], dtype=dtype).reshape(shape)
    if rng.random() < 0.2:      # neighbouring numbers
        b = torch.tensor([1.0 + i * (2.0**-50 if dtype is torch.float64 else 2.0**-22) for i in rng.sample(range(len(values)), len(values))], dtype=dtype).reshape(shape)
    w, o = rng.randint(-12, 12) / 8, rng.randint(-16, 16) / 8
    if rng.random() < 0.2:
        w, o = rng.choice([1.0, -1.0, 2.0]), some_number(rng, -2, 2)
    lo, hi = block(w, o, size)
    for x in (lo, hi):
        if abs(w) < 1 and abs(x - math.floor(x) - Fraction(1, 2)) < Fraction(1, 1000):
            return      # which way a half is rounded is not stated
    if abs(w) >= 1:
        start, end, inv = 0, size, False
    elif hi <= size:
        start, end, inv = round(lo), round(hi), False
    else:
        start, end, inv = round(hi - size), round(lo), True
    want = top_k_reference(a, b, start, end, inv)
    got = merged(merge_methods.resolve("top_k_tensor_sum")(model(a), model(b), width=w, offset=o))
    check(torch.equal(got, want), "top_k_tensor_sum: another result", a=a.tolist(), b=b.tolist(), width=w, offset=o, got=got.tolist(), expected=want.tolist())
    check(torch.equal(merged(sd_mecha.copy_region(model(a), model(b), width=w, offset=o, top_k=True)), want), "copy_region with top_k: another result", a=a.tolist(), b=b.tolist(), width=w, offset=o)


def case_large(n, dtype, seed):
    """many elements: more than small numbers of low precision can tell apart"""
    g = torch.Generator().manual_seed(seed)
    rng = random.Random(seed)
    dtype = getattr(torch, dtype)
    a = (torch.randperm(n, generator=g) + 1).to(dtype) * torch.where(torch.rand(n, generator=g) < 0.5, -1, 1).to(dtype)
    b = torch.randperm(n, generator=g).to(dtype) - n // 3
    w, o = rng.choice([(1.0, 0.0), (0.5, 0.25), (0.25, 0.875), (-0.5, 0.125)])
    lo, hi = block(w, o, n)
    start, end, inv = (0, n, False) if abs(w) >= 1 else (round(lo), round(hi), False) if hi <= n else (round(hi - n), round(lo), True)
    ordered = torch.sort(a)[0]
    want = ordered[b.long() + n // 3]       # b is a permutation
    m = torch.sort(a.abs())[0]
    first, last = m[start - 1] if start > 0 else -1, m[end - 1] if end > 0 else -1
    inside = (first <= want.abs()) & (want.abs() <= last)
    want = torch.where(inside != inv, want, a)
    if not any(abs(x - math.floor(x) - Fraction(1, 2)) < Fraction(1, 1000) for x in (lo, hi)) or abs(w) >= 1:
        got = merged(merge_methods.resolve("top_k_tensor_sum")(model(a), model(b), width=w, offset=o))
        check(torch.equal(got, want), "top_k_tensor_sum: another result for many elements", elements=n, width=w, offset=o, differ=int((got != want).sum()))
    x = torch.arange(1, n + 1).to(dtype)
    check_rows("tensor_sum", merged(merge_methods.resolve("tensor_sum")(model(x), model(-x), width=w, offset=o)), x, -x, w, o)


CASES = {"rows": case_rows, "top_k": case_top_k, "large": case_large}


def suite(S):
    for n in (2049, 4097, 70000):
        for dtype in ("float32", "float64"):
            S.run("large", n=n, dtype=dtype, seed=S.rng.randrange(10**6))
    i = 0
    while S.more() and i < (800 if not S.thorough else 10000):
        for _ in range(3):
            S.run("rows", seed=S.rng.randrange(10**6))
        S.run("top_k", seed=S.rng.randrange(10**6))
        i += 1
