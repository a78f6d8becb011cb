"""C20 Arithmetic merge methods compute their documented formulas"""
import itertools
import z3
from vc import elem
from vc.elem import ETensor, element, real, size_of, Shape, stat, stat_rank
from vc.report import Proof
from vc.core import pyraise
from vc.values import Model, SReal, SInt, zreal, zint, mkreal
from .common import *

ID = "C20"
LEVEL = "proof"
TRUSTED = [
    "the elementwise torch functions compute what their names say on real numbers (contracts in vc/elem.py; nan and infinities of divisions by zero included)",
    "kthvalue, allclose, any, mean, std: only their definitions, seen at one arbitrary element",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = [
    "the elements are real numbers: floating-point rounding, overflow and underflow of single operations are left out; a cast to another float type changes a value by an unknown factor near 1",
    "a kept fraction is counted as (1-k)*n over the reals, rounded down",
]
NOTE = ("Every element of tensors of any shape, for all real values and parameters in their documented ranges; methods with any number of models: up to 3 (bounded). "
        "weighted sums with a weight within 1.001e-5 of 0 or 1 may return that input itself.")
PROOF_BUDGET = 60
SUITE_BUDGET = 9


def wrapped(name):
    return merge_methods.resolve(name).__wrapped__


def number(c, name):
    """a Tensor parameter: one number for the whole tensor, or one per element"""
    return element(name, scalar=c.choice(2, f"{name} is a scalar") == 1)


def zabs(e):
    return z3.If(e >= 0, e, -e)


def sgn(e):
    return z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0)))


def equals(c, what, res, e):
    c.cover(what)
    ok = isinstance(res, ETensor) and res.rows is None
    c.prove("the result is a tensor", ok)
    if not ok:
        return
    v = elem.value(res)
    c.prove(what, v.e == e if v.fin else False, detail=v.kind)


# ----------------------------------------------------------------- contracts
def h_weighted_sum(c):
    a, b, alpha = element("a"), element("b"), number(c, "alpha")
    res = wrapped("weighted_sum")({"k": a}, {"k": b}, alpha, key="k")
    x, y, t = a.v.e, b.v.e, alpha.v.e
    v = elem.value(res)
    c.cover("weighted sum")
    c.prove("weighted sum is (1-alpha)*a + alpha*b", zabs(v.e - ((1 - t) * x + t * y)) <= z3.RealVal("1.001e-5") * zabs(y - x) if v.fin else False)
    c.prove("and exactly so unless alpha is next to 0 or 1", z3.Or(v.e == (1 - t) * x + t * y, zabs(t) <= z3.RealVal("1.001e-5"), zabs(t - 1) <= z3.RealVal("1.001e-5")) if v.fin else False)


def h_add_difference(c):
    a, b, alpha = element("a"), element("b"), number(c, "alpha")
    equals(c, "add difference is a + alpha*b", wrapped("add_difference")({"k": a}, {"k": b}, alpha, key="k"), a.v.e + alpha.v.e * b.v.e)


def h_subtract(c):
    a, b = element("a"), element("b")
    equals(c, "subtract is a - b", wrapped("subtract")(a, b), a.v.e - b.v.e)


def h_n_average(c):
    n = 1 + c.choice(4, "models")
    ms = [element(f"m{i}") for i in range(n)]
    equals(c, "n-average is the mean", wrapped("n_average")(*ms), sum(m.v.e for m in ms[1:]) / n + ms[0].v.e / n if n > 1 else ms[0].v.e)


def extreme(es, bigger):
    out = es[0]
    for e in es[1:]:
        out = z3.If(e >= out if bigger else e <= out, e, out)
    return out


def h_clamp(c):
    n = 1 + c.choice(3, "bounds")
    a, bs = element("a"), [element(f"b{i}") for i in range(n)]
    stiff = c.choice(2, "stiffness given")
    kw = {}
    if stiff:
        s = c.real("stiffness")
        c.assume(z3.And(s >= 0, s <= 1))
        kw["stiffness"] = SReal(s)
    res = wrapped("clamp")(a, *bs, **kw)
    lo, hi = (extreme([b.v.e for b in bs], k) for k in (False, True))
    x, v = a.v.e, elem.value(res)
    c.cover("clamp")
    c.prove("clamp stays between the smallest and the largest bound", z3.And(v.e >= lo, v.e <= hi) if v.fin else False)
    inside = z3.If(x < lo, lo, z3.If(x > hi, hi, x))
    if not stiff:
        c.prove("clamp is a, confined to the bounds", v.e == inside if v.fin else False)
    else:
        c.prove("without stiffness it is a, confined to the bounds", z3.Implies(s == 0, v.e == inside) if v.fin else False)
        es = [b.v.e for b in bs]
        mean = sum(es[1:], es[0]) / n
        up, down = hi, lo
        for e in es:
            up = z3.If(z3.And(e >= mean, e <= up), e, up)
            down = z3.If(z3.And(e <= mean, e >= down), e, down)
        u, d = (1 - s) * hi + s * up, (1 - s) * lo + s * down
        low = z3.If(x >= d, x, d)
        c.prove("with stiffness the bounds move towards those next to their mean", v.e == z3.If(low <= u, low, u) if v.fin else False)


def ratio(num, den):
    return z3.If(den == 0, z3.RealVal(0), num / z3.If(den == 0, z3.RealVal(1), den))


def h_train_difference(c):
    a, b, d, alpha = element("a"), element("b"), element("c"), number(c, "alpha")
    x, y, z, t = (q.v.e for q in (a, b, d, alpha))
    equals(c, "the train-difference mask is 1.8*alpha*|b-a|/(|b-a|+|b-c|), 0 where undefined", wrapped("train_difference_mask")(a, b, d, alpha),
           t * real(1.8) * ratio(zabs(y - x), zabs(y - x) + zabs(y - z)))


def h_opposite(c):
    a, b, d, alpha = element("a"), element("b"), element("c"), number(c, "alpha")
    x, y, z, t = (q.v.e for q in (a, b, d, alpha))
    equals(c, "the opposite mask is 2*alpha*|a-b|/(|a-b|+|a+b-2c|), 0 where undefined", wrapped("add_opposite_mask")(a, b, d, alpha),
           2 * t * ratio(zabs(x - y), zabs(x - y) + zabs(x + y - 2 * z)))


def h_strict_opposite(c):
    a, b, d, alpha = element("a"), element("b"), element("c"), number(c, "alpha")
    x, y, z, t = (q.v.e for q in (a, b, d, alpha))
    big = z3.If(zabs(x - z) >= zabs(y - z), zabs(x - z), zabs(y - z))
    r = ratio((z - x) * (y - z), big * big)
    equals(c, "the strict opposite mask is 2*alpha*max((c-a)(b-c)/max(|a-c|,|b-c|)^2, 0), 0 where undefined", wrapped("add_strict_opposite_mask")(a, b, d, alpha),
           2 * t * z3.If(r > 0, r, z3.RealVal(0)))


def h_select_max(c):
    a, b, alpha = element("a"), element("b"), number(c, "alpha")
    res = wrapped("select_max_delta")(a, b, alpha)
    t = alpha.v.e

    def z_score(q):
        m, s = stat(q, "mean").v.e, elem.apply("std", (q,), {})
        return ratio(q.v.e - m, s.v.e) if s.v.fin else z3.RealVal(0)
    v = elem.value(res)
    za, zb = zabs(z_score(a)), zabs(z_score(b))
    c.cover("select")
    c.prove("the delta with the larger weighted score is chosen, unchanged", v.e == z3.If((1 - t) * za >= t * zb, a.v.e, b.v.e) if v.fin else False)


def trimmed(c, ms, k):
    """the elements that top-k filtering leaves: those with at least max(int((1-k)*n), 1) elements of at most their magnitude"""
    out = []
    for m in ms:
        n = zint(size_of(Shape.of(m)))
        q = (1 - k) * z3.ToReal(n)
        kk = z3.If(q >= 1, z3.ToInt(q), z3.IntVal(1))
        out.append(z3.If(stat_rank(elem.apply("abs", (m,), {})) >= kk, m.v.e, z3.RealVal(0)))
    return out


def elected(ts, vote):
    s = sgn(sum(ts[1:], ts[0]) if vote else sum((sgn(t) for t in ts[1:]), sgn(ts[0])))
    agree = [sgn(t) == s for t in ts]
    count = sum((z3.If(x, z3.RealVal(1), z3.RealVal(0)) for x in agree[1:]), z3.If(agree[0], z3.RealVal(1), z3.RealVal(0)))
    total = sum((z3.If(x, t, z3.RealVal(0)) for x, t in zip(agree[1:], ts[1:])), z3.If(agree[0], ts[0], z3.RealVal(0)))
    return ratio(total, count)


def fraction(c):
    k = c.real("k")
    c.assume(z3.And(k >= 0, k <= 1))
    return k


def h_filter(c):
    """the trimming step by itself"""
    from sd_mecha.extensions.builtin import merge_methods as mm
    a, k = element("a"), fraction(c)
    equals(c, "trimming keeps the elements of largest magnitude unchanged and drops the others", mm.filter_top_k(a, SReal(k)), trimmed(c, [a], k)[0])


def h_ties(name):
    def h(c):
        n = 1 + c.choice(3, "models")
        ms = [element(f"m{i}") for i in range(n)]
        k = fraction(c)
        vote = bool(c.choice(2, "vote_sgn"))
        ts = trimmed(c, ms, k)
        res = wrapped(name)(*ms, k=SReal(k), vote_sgn=vote)
        equals(c, "TIES trims, elects a sign and averages the deltas agreeing with it", res, elected(ts, vote))
    return h


def h_ties_default(c):
    """plain TIES keeps every element unless told otherwise"""
    n = 1 + c.choice(3, "models")
    ms = [element(f"m{i}") for i in range(n)]
    equals(c, "TIES without trimming elects a sign and averages the deltas agreeing with it", wrapped("ties_sum")(*ms), elected([m.v.e for m in ms], False))


class Dict(Model):
    """a state dict whose entry is there, missing, or fails otherwise"""
    def __init__(self, c, name, log):
        self.c, self.name, self.log = c, name, log
        self.state = c.choose(["there", "missing", "broken"], name)
        self.value = object()

    def __getitem__(self, k):
        self.log.append((self.name, k))
        if self.state == "there":
            return self.value
        pyraise(sd_mecha.StateDictKeyError(k) if self.state == "missing" else RuntimeError("vc20"))

    def get(self, k, default=None):
        return default if self.state == "missing" else self[k]

    def __contains__(self, k):
        return self.state != "missing"

    def keys(self):
        return ("k",) if self.state != "missing" else ()


def h_fallback(c):
    log = []
    a, b = Dict(c, "first", log), Dict(c, "second", log)
    used = a if a.state != "missing" else b
    try:
        res = wrapped("fallback")(a, b, key="k")
    except Exception as e:
        c.cover("error")
        c.prove("only what the used state dict raises is raised", used.state != "there" and isinstance(e, sd_mecha.StateDictKeyError) == (used.state == "missing"))
        return
    c.cover("value")
    c.prove("fallback returns the first tensor where it exists, else the second, unchanged", used.state == "there" and res is used.value)
    c.prove("nothing else is read", all(k == "k" for _, k in log))


class To(Model):
    pytype = torch.Tensor

    def __init__(self):
        self.calls = []

    def to(self, *args, **kw):
        self.calls.append((args, kw))
        return self

    def __hash__(self):
        return id(self)


def h_cast(c):
    from sd_mecha.extensions.builtin import merge_methods as mm
    a = To()
    names = [str(x).split(".")[1] for x in DTYPES]
    dtype = c.choose([None, *names, "complex64"], "dtype")
    device = c.choose([None, "cpu", "cuda:1"], "device")
    kw = {k: v for k, v in (("dtype", dtype), ("device", device)) if v is not None or c.choice(2, f"{k} given")}
    try:
        res = wrapped("cast")(a, **kw)
    except ValueError:
        c.cover("unknown")
        c.prove("only unknown dtypes are refused", dtype == "complex64")
        return
    c.cover("cast")
    got = {}
    for args, k in a.calls:
        for x in (*args, *k.values()):
            if isinstance(x, torch.dtype):
                got["dtype"] = x
            elif x is not None:
                got["device"] = str(x)
    want = {k: v for k, v in (("dtype", getattr(torch, dtype) if dtype else None), ("device", device)) if v is not None}
    c.prove("cast changes the dtype and device that are given and nothing else", got == want and res is a, detail=f"{got} {want}")


DTYPES = [torch.float64, torch.float32, torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8, torch.bool, torch.float8_e4m3fn, torch.float8_e5m2, torch.uint16, torch.uint32, torch.uint64]


def proofs():
    B = dict(kind="bounded", bound="3 models")
    return [
        Proof("weighted_sum", h_weighted_sum, budget=20),
        Proof("add_difference", h_add_difference, budget=10),
        Proof("subtract", h_subtract, budget=10),
        Proof("n_average", h_n_average, budget=15, kind="bounded", bound="4 models"),
        Proof("clamp", h_clamp, budget=40, kind="bounded", bound="3 bounds"),
        Proof("train_difference_mask", h_train_difference, budget=20),
        Proof("add_opposite_mask", h_opposite, budget=20),
        Proof("add_strict_opposite_mask", h_strict_opposite, budget=20),
        Proof("select_max_delta", h_select_max, budget=25),
        Proof("filter_top_k", h_filter, budget=20),
        Proof("ties_sum", h_ties("ties_sum"), budget=40, **B),
        Proof("ties_sum by default", h_ties_default, budget=20, **B),
        Proof("ties_sum_extended", h_ties("ties_sum_extended"), budget=40, **B),
        Proof("fallback", h_fallback, budget=10),
        Proof("cast", h_cast, budget=10),
    ]


# ----------------------------------------------------------------- concrete cross-check
def merged(recipe, **kw):
    kw = dict(threads=0, merge_device=None, output_device=None, merge_dtype=torch.float64, output_dtype=torch.float64, strict_weight_space=False, total_buffer_size=2**20) | kw
    return sd_mecha.merge(recipe, **kw)["k"]


def tensor(rng, shape, dtype=torch.float64):
    n = math.prod(shape)
    kind = rng.choice(["few", "many", "tiny", "equal"])
    gen = {"few": lambda: rng.choice([-1.0, -0.1, 0.0, 0.1, 0.3, 1.0, 2.0]), "many": lambda: rng.gauss(0, 1), "tiny": lambda: rng.choice([-1, 1]) * 10.0 ** rng.randint(-12, 3), "equal": lambda: 0.7}[kind]
    t = torch.tensor([gen() for _ in range(n)], dtype=torch.float64)
    return t.reshape(shape).to(dtype)


def model(t, space="weight"):
    # with a config of its own: inferring one takes most of the time of a small merge
    cfg = synthetic_config("vc20-model", {"m": {"k": (list(t.shape), "float64", [], False)}})
    return sd_mecha.model({"k": t}, cfg, merge_space=space)


def near(got, want, scale, what, tol=1e-9, **info):
    got, want = got.double(), want.double()
    check(got.shape == want.shape, f"{what}: another shape", got=list(got.shape), expected=list(want.shape), **info)
    bad = ~((got - want).abs() <= tol * (scale.double().abs() + want.abs()) + 1e-300)
    if bad.any():
        i = tuple(bad.nonzero()[0].tolist())
        check(False, f"{what}: another value", at=i, got=got[i].item(), expected=want[i].item(), **info)


def some_alpha(rng, shape):
    r = rng.random()
    v = rng.choice([0.0, 1.0, 0.5, 0.25, -0.5, 1.5, 2.0, 0.01, 0.99, 1e-3, 1e-4, 0.9995, 0.9999, 0.3])
    if r < 0.75:
        return v, torch.full(shape, v, dtype=torch.float64)
    t = torch.tensor([rng.choice([0.0, 1.0, 0.5, -0.25, 2.0]) for _ in range(math.prod(shape))], dtype=torch.float64).reshape(shape)
    return model(t, "param"), t


def safe_div(n, d):
    return torch.where(d == 0, torch.zeros_like(d), n / torch.where(d == 0, torch.ones_like(d), d))


def case_formula(name, seed):
    rng = random.Random(seed)
    shape = rng.choice([(), (1,), (3,), (2, 3), (4, 4), (2, 1, 3), (2, 2, 3, 3)] if rng.random() < 0.95 else [(70, 40), (16, 8, 3, 3)])
    a, b, c = (tensor(rng, shape) for _ in range(3))
    if rng.random() < 0.3:
        b = a.clone()
    if rng.random() < 0.2:
        c = a.clone()
    if rng.random() < 0.3:
        f = 2.0 ** rng.choice([-100, -60, -40, -20, 40, 110])    # the formulas hold at every magnitude
        a, b, c = a * f, b * f, c * f
    al, t = some_alpha(rng, shape)
    scale = (a.abs() + b.abs() + c.abs()) * (1 + t.abs())
    info = dict(a=a.tolist(), b=b.tolist(), c=c.tolist(), alpha=t.flatten()[:1].tolist(), alpha_tensor=not isinstance(al, float))
    if name == "weighted_sum":
        # numbers reach Tensor parameters as single precision
        near(merged(sd_mecha.weighted_sum(model(a), model(b), alpha=al)), (1 - t) * a + t * b, (1 + t.abs()) * (a.abs() + b.abs()), name, 3e-7, **info)
        if isinstance(al, float) and al in (0.0, 1.0):
            check(torch.equal(merged(sd_mecha.weighted_sum(model(a), model(b), alpha=al)), b if al else a), "weighted_sum: not the input itself", **info)
    elif name == "add_difference":
        near(merged(merge_methods.resolve(name)(model(a), model(b, "delta"), alpha=al)), a + t * b, a.abs() + (t * b).abs(), name, 3e-7, **info)
    elif name == "subtract":
        near(merged(sd_mecha.subtract(model(a), model(b))), a - b, a.abs() + b.abs(), name, 1e-12, **info)
    elif name == "n_average":
        ms = [a, b, c, *(tensor(rng, shape) for _ in range(rng.choice([1, 1, 6, 17])))]
        ms = ms[: rng.randint(1, len(ms))]
        near(merged(sd_mecha.n_average(*map(model, ms))), sum(ms) / len(ms), sum(m.abs() for m in ms), name, 1e-12, **info)
    elif name == "clamp":
        bs = [b, c, *(tensor(rng, shape) for _ in range(rng.choice([1, 1, 7])))]
        bs = bs[: rng.randint(1, len(bs))]
        lo, hi = torch.stack(bs).amin(0), torch.stack(bs).amax(0)
        near(merged(sd_mecha.clamp(model(a), *map(model, bs))), torch.clamp(a, lo, hi), hi * 0, name, 1e-12, **info)
        st = rng.choice([0.0, 0.25, 0.5, 1.0])
        got = merged(sd_mecha.clamp(model(a), *map(model, bs), stiffness=st))
        eps = 1e-9 * (lo.abs() + hi.abs())
        d = torch.stack(bs)
        m = d.mean(0)
        if len(bs) > 1 and bool((((d - m).abs() > 1e-9 * d.abs().amax(0)) | (d == d[0]).all(0)).all()):
            up, down = torch.where(d >= m, d, hi).amin(0), torch.where(d <= m, d, lo).amax(0)
            near(got, torch.minimum(torch.maximum(a, (1 - st) * lo + st * down), (1 - st) * hi + st * up), lo.abs() + hi.abs(), "clamp with stiffness", 1e-9, a=a.tolist(), bounds=d.tolist(), stiffness=st)
        check(bool(((got >= lo - eps) & (got <= hi + eps)).all()), "clamp: outside the bounds", stiffness=st, got=got.tolist(), lowest=lo.tolist(), highest=hi.tolist())
    elif name == "train_difference_mask":
        near(merged(sd_mecha.train_difference_mask(model(a), model(b), model(c), alpha=al)), t * 1.8 * safe_div((b - a).abs(), (b - a).abs() + (b - c).abs()), t, name, 3e-7, **info)
    elif name == "add_opposite_mask":
        near(merged(sd_mecha.add_opposite_mask(model(a), model(b), model(c), alpha=al)), t * 2 * safe_div((a - b).abs(), (a - b).abs() + (a + b - 2 * c).abs()), t, name, 1e-6, **info)
    elif name == "add_strict_opposite_mask":
        big = torch.maximum((a - c).abs(), (b - c).abs())
        near(merged(sd_mecha.add_strict_opposite_mask(model(a), model(b), model(c), alpha=al)), t * 2 * safe_div((c - a) * (b - c), big**2).clamp(min=0), t, name, 3e-7, **info)
    elif name == "select_max_delta":
        al = rng.choice([0.0, 0.25, 0.5, 1.0])

        def score(x):
            s = x.std()
            return torch.zeros_like(x) if not s > 0 else ((x - x.mean()) / s).abs()
        if rng.random() < 0.2:
            b, al = -a, 0.5
        elif rng.random() < 0.2:
            a, b = torch.full_like(a, rng.choice([0.0, 0.5, -2.0])), torch.full_like(a, 0.25)
        exact = bool((b == -a).all()) and al == 0.5 or bool((a == a.flatten()[0]).all() and a.flatten()[0] in (0.0, 0.5, -2.0) and (b == 0.25).all())
        info.update(a=a.tolist(), b=b.tolist(), alpha=al)
        for x in (a, b):
            if x.numel() > 1 and not exact and not x.std() > 1e-9 * x.abs().max():
                return      # the score is dominated by rounding
        za, zb = (1 - al) * score(a), al * score(b)
        got = merged(merge_methods.resolve(name)(model(a, "delta"), model(b, "delta"), alpha=al))
        clear = (za - zb).abs() > (-1 if exact else 1e-6)
        check(bool(((got == a) | (got == b)).all()), "select_max_delta: a value of neither delta", got=got.tolist(), **info)
        check(bool((got == torch.where(za >= zb, a, b))[clear].all()), "select_max_delta: the other delta", got=got.tolist(), **info)
        if a.numel() == 1:
            check(torch.equal(got, a), "select_max_delta: undefined scores are 0, so the first delta is chosen", got=got.tolist(), **info)


def case_undefined(seed):
    """an element that is not a number in an input that counts is not a number in the output, and only there"""
    rng = random.Random(seed)
    shape = (2, 3)
    ts = [torch.tensor([rng.choice([-1.0, 0.5, 2.0]) for _ in range(6)], dtype=torch.float64).reshape(shape) for _ in range(3)]
    which, bad = rng.randrange(3), rng.choice([math.nan, math.inf])
    ts[which][1, 2] = bad
    a, b, c = ts
    for name, got, want in (
        ("n_average", lambda: sd_mecha.n_average(*map(model, ts)), (a + b + c) / 3),
        ("subtract", lambda: sd_mecha.subtract(model(a), model(b)), a - b),
        ("add_difference", lambda: merge_methods.resolve("add_difference")(model(a), model(b, "delta"), alpha=0.5), a + 0.5 * b),
        ("weighted_sum", lambda: sd_mecha.weighted_sum(model(a), model(b), alpha=0.5), 0.5 * a + 0.5 * b),
    ):
        got = merged(got())
        check(torch.allclose(got, want, equal_nan=True), f"{name}: another value", got=got.tolist(), expected=want.tolist(), models=[t.tolist() for t in ts])


FORMULAS = ["weighted_sum", "add_difference", "subtract", "n_average", "clamp", "train_difference_mask", "add_opposite_mask", "add_strict_opposite_mask", "select_max_delta"]


def ties_reference(ms, k, vote):
    out = []
    for m in ms:
        f = m.abs().flatten()
        need = max(int((1 - k) * f.numel()), 1)
        rank = (f[None, :] <= f[:, None]).sum(1)
        out.append(torch.where((rank >= need).reshape(m.shape), m, torch.zeros_like(m)))
    d = torch.stack(out)
    s = torch.sign(d.sum(0) if vote else torch.sign(d).sum(0))
    agree = torch.sign(d) == s
    return safe_div(torch.where(agree, d, torch.zeros_like(d)).sum(0), agree.sum(0).double())


def case_ties(seed):
    rng = random.Random(seed)
    shape = rng.choice([(1,), (2,), (3,), (5,), (7,), (8,), (2, 3), (2, 4), (4, 4), (2, 2, 4), (2, 2, 2, 2)])
    n = math.prod(shape)
    ms = [tensor(rng, shape) for _ in range(rng.choice([rng.randint(1, 5)] * 4 + [9, 16]))]
    if rng.random() < 0.3:
        ms[-1] = -ms[0]
    k = rng.choice([0.0, 0.125, 0.2, 0.25, 0.3, 0.45, 0.5, 0.75, 0.875, 1.0])
    if abs((1 - k) * n - round((1 - k) * n)) < 1e-9:
        k = round(k * 8) / 8    # exact in binary
    vote = rng.random() < 0.5
    if vote:    # a sum of opposite deltas may round to either sign
        ms = [torch.round(m * 8) / 8 for m in ms]
    dtype = torch.float64
    if rng.random() < 0.3:
        dtype = torch.float32
        ms = [m.float() for m in ms]
    want = ties_reference([m.double() for m in ms], k, vote)
    scale = sum(m.double().abs() for m in ms)
    nodes = [model(m, "delta") for m in ms]
    info = dict(models=[m.tolist() for m in ms], k=k, vote_sgn=vote)
    tol = 1e-12 if dtype is torch.float64 else 1e-6
    near(merged(sd_mecha.ties_sum(*nodes, k=k, vote_sgn=vote), merge_dtype=dtype), want, scale, "ties_sum", tol, **info)
    near(merged(sd_mecha.ties_sum_extended(*nodes, k=k, vote_sgn=vote), merge_dtype=dtype), want, scale, "ties_sum_extended", tol, **info)
    if k == 1.0 and not vote:
        near(merged(sd_mecha.ties_sum(*nodes), merge_dtype=dtype), want, scale, "ties_sum by default", tol, **info)


def case_chosen(seed):
    """cast and fallback"""
    rng = random.Random(seed)
    shape = rng.choice([(), (3,), (2, 3)])
    a, b = tensor(rng, shape), tensor(rng, shape)
    dtype = rng.choice(DTYPES[:10])
    got = sd_mecha.merge(sd_mecha.cast(model(a), dtype=str(dtype).split(".")[1]), threads=0, merge_device=None, output_device=None, merge_dtype=None, output_dtype=None, strict_weight_space=False, total_buffer_size=2**20)["k"]
    check(got.dtype is dtype and torch.equal(got, a.to(dtype)), "cast: another tensor", dtype=str(dtype), got=str(got), given=a.tolist())
    first = {"other": b} if rng.random() < 0.5 else {"k": a, "other": b}
    cfg = synthetic_config(f"vc20-{os.getpid()}.{rng.randrange(10**9)}", {"c": {"k": (list(shape), "float64", [], True), "other": (list(shape), "float64", [], True)}}, register=False)
    want = first.get("k", b)
    out = sd_mecha.merge(LiteralRecipeNode(first, model_config=cfg, merge_space="weight") | LiteralRecipeNode({"k": b, "other": a}, model_config=cfg, merge_space="weight"), threads=0, merge_device=None, output_device=None, merge_dtype=None, output_dtype=None, strict_weight_space=False, total_buffer_size=2**20)
    check(torch.equal(out["k"], want) and torch.equal(out["other"], b), "fallback: another tensor", got=str(out), first=sorted(first))


CASES = {"formula": case_formula, "ties": case_ties, "undefined": case_undefined, "chosen": case_chosen}


def suite(S):
    i = 0
    while S.more() and i < (200 if not S.thorough else 5000):
        for n in FORMULAS:
            S.run("formula", name=n, seed=S.rng.randrange(10**6))
        for _ in range(3):
            S.run("ties", seed=S.rng.randrange(10**6))
        S.run("undefined", seed=S.rng.randrange(10**6))
        S.run("chosen", seed=S.rng.randrange(10**6))
        i += 1
