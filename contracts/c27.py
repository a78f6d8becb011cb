"""C27 Interpolating, combining and dropping merge methods compute their formulas"""
from vc import norms
import cmath
import itertools
import numpy as np
import z3
from vc.norms import CE, POWRE, POWIM, SIN, ARCCOS, LOG, total, vector
from vc.elem import ETensor, fin, real
from vc import elem
from vc.report import Proof
from vc.values import SReal
from .common import *
from .c20 import merged, model, near, some_alpha, wrapped, equals, zabs

ID = "C27"
LEVEL = "proof"
TRUSTED = [
    "the torch functions compute what their names say on real and complex numbers (contracts in vc/elem.py and vc/norms.py; nan and infinities of divisions by zero included)",
    "sums over all elements, or over one dimension, are linear; norms are square roots of sums of squares; sin, arccos, log and complex powers are functions, nothing else is assumed about them",
    "numpy's random generator (contract: draws are 0 or 1, always so for probabilities 0 and 1)",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["the elements are real numbers: floating-point rounding, overflow and underflow of single operations are left out"]
NOTE = ("Every element of tensors of any shape, for all real values; methods with any number of models: up to 3 (bounded). The random draws of dropout are arbitrary ones. "
        "The distribution of the sets of deltas that dropout keeps is only examined on concrete runs.")
PROOF_BUDGET = 60
SUITE_BUDGET = 10


# ----------------------------------------------------------------- contracts
def num(c, name):
    return vector(name, scalar=c.choice(2, f"{name} is a scalar") == 1)


def lerp_close(v, x, y, t):
    """the weighted sum, which may snap to an end (C20)"""
    return zabs(v - ((1 - t) * x + t * y)) <= z3.RealVal("1.001e-5") * zabs(y - x)


def h_perpendicular(c):
    a, b = vector("a"), vector("b")
    res = wrapped("perpendicular_component")(a, b)
    x, y = a.v.e, b.v.e
    aa, ab = total(x * x), total(x * y)
    v = elem.value(res)
    c.cover("perpendicular component")
    c.prove("the perpendicular component is b minus its projection on a, zeros if a is zero", z3.If(aa == 0, v.e == 0, v.e * aa == y * aa - x * ab) if v.fin else False, detail=v.kind)


def h_slerp(c):
    a, b, t = vector("a"), vector("b"), num(c, "alpha")
    res = wrapped("slerp")(a, b, alpha=t)
    x, y, al = a.v.e, b.v.e, t.v.e
    na, nb = norms.norm(a).v.e, norms.norm(b).v.e
    v = elem.value(res)
    c.cover("slerp")
    if c.branch(z3.Or(na == 0, nb == 0), "a zero tensor"):
        c.prove("slerp with a zero tensor is the weighted sum", lerp_close(v.e, x, y, al) if v.fin else False, detail=v.kind)
        return
    cos = total(x * y) / (na * nb)
    cos = elem.OPS["clamp"](ETensor(fin(cos), True), -1, 1).v.e
    om = ARCCOS(cos)
    s = SIN(om)
    c.assume(SIN(z3.RealVal(0)) == 0)
    if c.branch(om == 0, "equal directions"):
        c.prove("slerp between equal directions is the weighted sum", lerp_close(v.e, x, y, al) if v.fin else False, detail=v.kind)
        return
    if c.branch(s == 0, "opposite directions"):
        return
    want = (x / na * SIN((1 - al) * om) + y / nb * SIN(al * om)) / s
    ok = z3.Or(v.e == want * ((1 - al) * na + al * nb), z3.And(zabs(al) <= SNAP, v.e == want * na), z3.And(zabs(al - 1) <= SNAP, v.e == want * nb)) if v.fin else False
    c.prove("slerp follows the great circle, with the norm interpolated", ok, detail=v.kind)


SNAP = z3.RealVal("1.001e-5")


def power(f, one, x, e):
    # x ** 0 is 1, whatever the power function of complex numbers gives
    return z3.If(e == 0, z3.RealVal(one), f(x, z3.RealVal(0), e))


def h_geometric(c):
    a, b, t = vector("a"), vector("b"), num(c, "alpha")
    x, y, al = a.v.e, b.v.e, t.v.e
    equals(c, "the geometric sum is the real part of a^(1-alpha) * b^alpha", wrapped("geometric_sum")(a, b, t),
           power(POWRE, 1, x, 1 - al) * power(POWRE, 1, y, al) - power(POWIM, 0, x, 1 - al) * power(POWIM, 0, y, al))


def h_quotient(c):
    a, b, d, t = vector("a"), vector("b"), vector("c"), num(c, "alpha")
    x, y, z, al = a.v.e, b.v.e, d.v.e, t.v.e
    for e in (x, y, z):
        c.assume(e != 0)
    res = wrapped("multiply_quotient")(a, b, d, t)
    ac, bc = LOG(zabs(x)) - LOG(zabs(z)), LOG(zabs(y)) - LOG(zabs(z))
    big = z3.If(zabs(ac) >= zabs(bc), zabs(ac), zabs(bc))
    m = z3.If(big == 0, z3.RealVal(0), -(ac * bc) / z3.If(big == 0, z3.RealVal(1), big * big))
    m = al * z3.If(m > 0, m, z3.RealVal(0))
    equals(c, "multiply-quotient is the real part of a * (b/c)^(alpha * opposition of the log-ratios)", res, x * POWRE(y / z, z3.RealVal(0), m))


def column_cosine(a, b, power=1):
    x, y = a.v.e, b.v.e
    na, nb = norms.root(total(x * x, "0")), norms.root(total(y * y, "0"))
    return na, nb, total(x * y, "0")


def h_cosine(name):
    def h(c):
        a, b, t = vector("a"), vector("b"), num(c, "alpha")
        x, y, al = a.v.e, b.v.e, t.v.e
        na, nb, dot = column_cosine(a, b)
        # columns of norms near 0 and 1 that the smoothing constants change are left out
        c.assume(z3.And(na >= 1, nb >= 1))
        cos = dot / (na * nb)
        if name == "add_cosine_b":
            fa, fb = norms.norm(a).v.e, norms.norm(b).v.e
            c.assume(z3.And(fa >= 1, fb >= 1))
            cos = (cos + total(x * y) / (fa * fb)) / 2
        res = wrapped(name)(a, b, t)
        k = cos - al
        k = 1 - z3.If(k > 1, z3.RealVal(1), z3.If(k < 0, z3.RealVal(0), k))
        v = elem.value(res)
        c.cover(name)
        c.prove("the weight of b is 1 - clamp(cosine - alpha, 0, 1)", lerp_close(v.e, x, y, k) if v.fin else False, detail=v.kind)
    return h


def h_stock(c):
    n = 2 + c.choice(2, "models")
    ms = [vector(f"m{i}") for i in range(n)]
    squares = [norms.root(total(m.v.e * m.v.e, "-1")) for m in ms]
    for s in squares:
        c.assume(s >= 1)
    cos = [total(x.v.e * y.v.e, "-1") / (p * q) for x, y, p, q in zip(ms, ms[1:], squares, squares[1:])]
    cos = sum(cos[1:], cos[0]) / (n - 1)
    res = wrapped("model_stock")(*ms)
    den = 1 + (n - 1) * cos
    c.assume(den != 0)
    equals(c, "model stock scales the mean by n*cos/(1+(n-1)*cos), the cosine of consecutive deltas along the last dimension", res,
           n * cos / den * (sum((m.v.e for m in ms[1:]), ms[0].v.e) / n))


def h_median(c):
    steps = c.choice(2, "iterations")
    n = 1 + c.choice(2 if steps else 3, "models")
    ms = [vector(f"m{i}") for i in range(n)]
    es = [m.v.e for m in ms]
    eps = 1 / 4
    mean = sum(es[1:], es[0]) / n
    if steps:
        ds = [norms.root(total((e - mean) * (e - mean))) for e in es]
        ws = [z3.If(d < eps, z3.RealVal(4), 1 / d) for d in ds]
    else:
        ws = [z3.RealVal(1)] * n
    res = wrapped("geometric_median")(*ms, maxiter=steps, eps=eps, ftol=c.choose([1e-20, 0.5], "tolerance"))
    v = elem.value(res)
    c.cover("geometric median")
    c.prove("the geometric median starts from the mean, and weighs the models by the inverse of their distances to the estimate",
            v.e * sum(ws[1:], ws[0]) == sum((e * w for e, w in zip(es[1:], ws[1:])), es[0] * ws[0]) if v.fin else False, detail=v.kind)


def h_dropout(c):
    from sd_mecha.extensions.builtin import merge_methods as mm
    n = 1 + c.choice(3, "models")
    ms = [vector(f"m{i}") for i in range(n)]
    p = c.real("probability")
    c.assume(z3.And(p >= 0, p <= 1))
    overlap, rescale = c.choose([1.0, 3.0, 0.0, 0.5], "overlap"), c.choose([1.0, 0.0, 2.0], "rescale")
    norms.install_random()
    if hasattr(mm, "overlapping_sets_pmf"):
        c.overrides[mm.overlapping_sets_pmf] = lambda *a, **k: object()
    res = wrapped("dropout")(*ms, probability=SReal(p), rescale=rescale, overlap=overlap, seed=c.choose([None, 5], "seed"))
    v = elem.value(res)
    f = z3.If(p == 1, z3.RealVal(1), {0.0: z3.RealVal(1), 1.0: 1 - p, 2.0: (1 - p) * (1 - p)}[rescale])
    es = [m.v.e for m in ms]
    sets = [s for r in range(n + 1) for s in itertools.combinations(range(n), r)]
    mean = lambda s: sum((es[i] for i in s), z3.RealVal(0)) / max(len(s), 1) / f
    c.cover("dropout")
    c.prove("an element is the mean of some of the deltas, over (1-p)^rescale", z3.Or([v.e == mean(s) for s in sets]) if v.fin else False, detail=v.kind)
    gens = c.__dict__.get("_generators", [])
    log = [x for g in gens for x in g.log]
    c.prove("one generator is used, with the seed that was given", len(gens) == 1)
    if all(x[0] == "binomial" for x in log) and overlap % 2 == 1:
        c.prove("each delta is dropped with the given probability", z3.And([x[1] == 1 - p for x in log]) if len(log) == n else False, detail=str(log))
        c.prove("all deltas are kept with probability 0, none with probability 1", z3.And(z3.Implies(p == 0, v.e == mean(sets[-1])), z3.Implies(p == 1, v.e == 0)))
        for s in sets:
            c.prove("a delta counts exactly where it is kept", z3.Implies(z3.And([x[2] == int(i in s) for i, x in enumerate(log)]), v.e == mean(s)))
    elif len(log) == 1 and log[0][0] == "choice":
        c.prove("the deltas of the drawn set count", v.e == mean([i for i in range(n) if log[0][2] & 2**i]))


def proofs():
    return [
        Proof("dropout", h_dropout, budget=40, kind="bounded", bound="3 models; four overlaps, three rescale exponents"),
        Proof("geometric_median", h_median, budget=40, kind="bounded", bound="3 models without, 2 with one iteration"),
        Proof("perpendicular_component", h_perpendicular, budget=20),
        Proof("slerp", h_slerp, budget=30),
        Proof("geometric_sum", h_geometric, budget=10),
        Proof("multiply_quotient", h_quotient, budget=20),
        Proof("add_cosine_a", h_cosine("add_cosine_a"), budget=20),
        Proof("add_cosine_b", h_cosine("add_cosine_b"), budget=20),
        Proof("model_stock", h_stock, budget=20, kind="bounded", bound="3 models"),
    ]


# ----------------------------------------------------------------- concrete cross-check
SHAPES = [(), (1,), (3,), (7,), (2, 3), (4, 4), (5, 1), (1, 5), (2, 3, 4), (3, 2, 3, 3), (40, 25), (300,)]


def tensor(rng, shape, positive=False):
    n = math.prod(shape)
    kind = rng.choice(["gauss", "gauss", "few", "sparse"])
    gen = {"gauss": lambda: rng.gauss(0, 1), "few": lambda: rng.choice([-2.0, -1.0, 0.5, 1.0, 3.0]), "sparse": lambda: rng.choice([0.0, 0.0, 1.0, -0.5, 2.0])}[kind]
    x = np.array([gen() for _ in range(n)], dtype=np.float64).reshape(shape)
    return np.abs(x) if positive else x


def T(x):
    return torch.tensor(np.asarray(x), dtype=torch.float64)


def lerp(a, b, t):
    return (1 - t) * a + t * b


def ref_slerp(a, b, t):
    na, nb = math.sqrt((a * a).sum()), math.sqrt((b * b).sum())
    if na == 0 or nb == 0:
        return lerp(a, b, t)
    cos = float((a * b).sum() / (na * nb))
    w = math.atan2(math.sqrt((((a / na) - (b / nb) * cos) ** 2).sum()), cos)
    if cos < -1 + 1e-3:
        return None     # no unique great circle
    if w < 1e-3:
        return lerp(a, b, t) if np.array_equal(a, b) else None
    return (a / na * np.sin((1 - t) * w) + b / nb * np.sin(t * w)) / math.sin(w) * lerp(na, nb, t)


def ref_perpendicular(a, b, t):
    aa = (a * a).sum()
    return np.zeros_like(a) if aa == 0 else b - a * ((a * b).sum() / aa)


def cpow(x, e):
    if x == 0:
        return (1 if e == 0 else 0 if e > 0 else None)
    return cmath.exp(e * complex(math.log(abs(x)), math.pi if x < 0 else 0))


def each(f, *xs):
    xs = np.broadcast_arrays(*xs)
    out = np.empty(xs[0].shape)
    for i in np.ndindex(out.shape):
        out[i] = f(*[float(x[i]) for x in xs])
    return out


def ref_geometric(a, b, t):
    def f(x, y, s):
        p, q = cpow(x, 1 - s), cpow(y, s)
        return math.nan if p is None or q is None else (p * q).real
    return each(f, a, b, t)


def ref_quotient(a, b, c, t):
    def f(x, y, z, s):
        if 0 in (x, y, z):
            return x    # undefined
        p, q = math.log(abs(x)) - math.log(abs(z)), math.log(abs(y)) - math.log(abs(z))
        m = max(abs(p), abs(q)) ** 2
        if 0 < m < 1e-20:
            return math.nan     # dominated by rounding
        e = s * max(0.0, -p * q / m if m else 0.0)
        return x * cpow(y / z, e).real
    return each(f, a, b, c, t)


def cos0(a, b, axis):
    na, nb = np.sqrt((a * a).sum(axis)), np.sqrt((b * b).sum(axis))
    d = na * nb
    return np.where(d == 0, 0.0, (a * b).sum(axis) / np.where(d == 0, 1, d))


def ref_cosine_a(a, b, t):
    s = cos0(a, b, 0) if a.ndim else np.sign(a) * np.sign(b)
    return lerp(a, b, 1 - np.clip(s - t, 0, 1))


def ref_cosine_b(a, b, t):
    if not (a * a).sum() or not (b * b).sum():
        return None
    s = cos0(a, b, 0) if a.ndim else np.sign(a) * np.sign(b)
    f = (a * b).sum() / math.sqrt((a * a).sum() * (b * b).sum())
    return lerp(a, b, 1 - np.clip((s + f) / 2 - t, 0, 1))


TWO = {"slerp": (ref_slerp, "weight"), "perpendicular_component": (ref_perpendicular, "delta"), "geometric_sum": (ref_geometric, "weight"), "add_cosine_a": (ref_cosine_a, "weight"),
       "add_cosine_b": (ref_cosine_b, "weight")}


def case_formula(name, seed):
    rng = random.Random(seed)
    shape = rng.choice(SHAPES)
    a, b, c = (tensor(rng, shape) for _ in range(3))
    r = rng.random()
    if r < 0.1:
        b = a.copy()
    elif r < 0.2:
        a = np.zeros(shape)
    elif r < 0.25:
        b = np.zeros(shape)
    elif r < 0.35:
        b = a * rng.choice([2.0, 0.5])
    elif r < 0.4 and len(shape) > 1:
        a = a.copy(); a[..., 0] = 0
    f = 2.0 ** rng.choice([0, 0, 0, -20, 10])
    a, b, c = a * f, b * f, c * f
    al, t = some_alpha(rng, shape)
    t = t.float().double().numpy() if isinstance(al, float) else t.numpy()
    node = merge_methods.resolve(name)
    info = dict(a=a.tolist() if a.size < 50 else "...", b=b.tolist() if a.size < 50 else "...", alpha=al if isinstance(al, float) else t.tolist())
    if name == "multiply_quotient":
        if rng.random() < 0.3:
            a = c.copy()
        want = ref_quotient(a, b, c, t)
        got = merged(node(model(T(a)), model(T(b)), model(T(c)), alpha=al))
        ok = ~np.isnan(want)
        scale = np.abs(a) + np.abs(np.where(ok, want, 0))
        near(got[torch.tensor(ok)], T(want[ok]), T(scale[ok]), name, 1e-6, c=c.tolist() if c.size < 50 else "...", **info)
        return
    ref, space = TWO[name]
    want = ref(a, b, t)
    if want is None:
        return
    args = (model(T(a), space), model(T(b), space))
    got = merged(node(*args) if name == "perpendicular_component" else node(*args, alpha=al))
    if name == "perpendicular_component":
        near(got, T(want), T(np.full(shape, np.abs(b).max(initial=0))), name, 1e-9, **info)
        return
    ok = ~np.isnan(want)
    scale = (np.full(shape, max(np.abs(a).max(initial=0), np.abs(b).max(initial=0))) * (1 + np.abs(t)))
    if name == "slerp":
        scale = scale * 10
    near(got[torch.tensor(ok)], T(want[ok]), T(scale[ok]), name, 3e-5 if name.startswith("add_cosine") else 1e-6, **info)


def case_stock(seed):
    rng = random.Random(seed)
    shape = rng.choice([s for s in SHAPES if s])
    ms = [tensor(rng, shape) + rng.choice([0.0, 1.0]) for _ in range(rng.choice([2, 2, 3, 4, 7]))]
    n = len(ms)
    cs = []
    for x, y in zip(ms, ms[1:]):
        cs.append(cos0(x, y, -1))
    cos = sum(cs) / (n - 1)
    den = 1 + (n - 1) * cos
    if (np.abs(den) < 1e-3).any():
        return
    want = np.expand_dims(n * cos / den, -1) * (sum(ms) / n)
    eps = rng.choice([None, 1e-8, 1e-6])
    got = merged(merge_methods.resolve("model_stock")(*[model(T(m), "delta") for m in ms], **({} if eps is None else {"cos_eps": eps})))
    near(got, T(want), T(sum(np.abs(m) for m in ms) * np.expand_dims(1 + 1 / np.abs(den), -1) * n), "model_stock", 1e-6, models=[m.tolist() if m.size < 50 else "..." for m in ms], cos_eps=eps)


def dropout(ms, **kw):
    return merged(merge_methods.resolve("dropout")(*[model(T(m), "delta") for m in ms], **kw)).numpy()


def case_dropout(seed):
    """every element is the mean of some of the deltas over (1-p)^rescale"""
    rng = random.Random(seed)
    shape = rng.choice([(), (3,), (2, 3), (4, 5), (2, 3, 2, 2), (900,)])
    n = rng.choice([1, 2, 3, 4])
    # distinct powers: the mean tells which deltas were kept
    ms = [np.full(shape, float(7**i)) + np.arange(math.prod(shape)).reshape(shape) * 1e-3 for i in range(n)]
    p = rng.choice([0.0, 0.25, 0.5, 0.75, 0.9, 1.0])
    rescale = rng.choice([1.0, 0.0, 0.5, 2.0])
    overlap = rng.choice([1.0, 0.0, 3.0, 2.0, 0.5, 0.25, 0.8])
    emphasis = rng.choice([0.0, 0.0, 0.5, 1.0]) if p > 0 and 0 <= overlap <= 1 else 0.0
    kw = dict(probability=p, rescale=rescale, overlap=overlap, overlap_emphasis=emphasis, seed=rng.choice([0, rng.randrange(10**6)]))
    got = dropout(ms, **kw)
    check(np.array_equal(got, dropout(ms, **kw)), "dropout: another result with the same seed", **kw, models=n, shape=shape)
    f = (1 - p) ** rescale if p < 1 else 1.0
    sets = [s for r in range(n + 1) for s in itertools.combinations(range(n), r)]
    means = np.stack([sum((ms[i] for i in s), np.zeros(shape)) / max(len(s), 1) / f for s in sets])
    hit = np.abs(means - got) <= 1e-9 * (1 + np.abs(means))
    check(bool(hit.any(0).all()), "dropout: an element is not the rescaled mean of kept deltas", **kw, models=n, got=got.tolist() if got.size < 30 else got.flatten()[:10].tolist())
    size = np.array([len(s) for s in sets])[hit.argmax(0)]
    if p == 1.0:
        check(not got.any(), "dropout: something is kept with probability 1", **kw, got=got.tolist())
    if p == 0.0 and overlap % 2 == 1:
        check(bool((size == n).all()), "dropout: something is dropped with probability 0", **kw, models=n)
    if p == 0.0:
        check(bool((size > 0).all()), "dropout: everything is dropped at an element with probability 0", **kw, models=n)
    if overlap % 2 == 0 and (emphasis == 0 or overlap == 0):
        check(bool((size <= 1).all()), "dropout: deltas overlap", **kw, models=n)


def case_kept(seed):
    """how often deltas are kept"""
    rng = random.Random(seed)
    n, p = rng.choice([1, 2, 3]), rng.choice([0.1, 0.3, 0.5, 0.8])
    overlap = rng.choice([1.0, 3.0, 0.0, 2.0, 0.5, 0.25, 0.8, 1.2])
    N = 40000
    ms = [np.full((N,), float(7**i)) for i in range(n)]
    got = dropout(ms, probability=p, rescale=0.0, overlap=overlap, seed=rng.randrange(10**6))
    other = dropout(ms, probability=p, rescale=0.0, overlap=overlap, seed=10**6 + rng.randrange(10**6))
    check(not np.array_equal(got, other), "dropout: the same elements are dropped for different seeds", models=n, probability=p, overlap=overlap)
    kept = (got != 0).mean()
    want = 1 - p**n if overlap % 2 == 1 else 1 - p
    check(abs(kept - want) < 6 * math.sqrt(0.25 / N), "dropout: elements are kept with another probability", kept=kept, expected=want, models=n, probability=p, overlap=overlap)
    if overlap % 2 == 0:
        for i in range(n):
            share = (got == 7.0**i).mean()
            check(abs(share - (1 - p) / n) < 6 * math.sqrt(0.25 / N), "dropout: the deltas are not kept equally often", delta=i, share=share, expected=(1 - p) / n)
    if overlap % 2 == 1 and n > 1:
        every = (np.abs(got - sum(7.0**i for i in range(n)) / n) < 1e-9).mean()
        check(abs(every - (1 - p) ** n) < 6 * math.sqrt(0.25 / N), "dropout: the deltas are not kept independently", share=every, expected=(1 - p) ** n, models=n)


def case_dare(seed):
    """TIES after dropping elements of every delta"""
    rng = random.Random(seed)
    shape = rng.choice([(5,), (2, 3), (4, 5), (600,)])
    n = rng.choice([1, 2, 3])
    g = random.Random(seed + 1)
    ms = [np.array([g.choice([-1, 1]) * (7.0**i + g.random()) for _ in range(math.prod(shape))]).reshape(shape) for i in range(n)]
    kw = dict(k=rng.choice([1.0, 1.0, 0.5, 0.2]), vote_sgn=rng.random() < 0.3, seed=rng.choice([0, rng.randrange(10**6)]))
    p = rng.choice([0.0, 0.5, 0.9, 1.0])
    node = merge_methods.resolve("ties_sum_with_dropout")
    ties = merge_methods.resolve("ties_sum_extended")
    run = lambda m, **k: merged(m(*[model(T(x), "delta") for x in ms], **k)).numpy()
    got = run(node, probability=p, **kw)
    plain = run(node, probability=p, no_rescale=True, **kw)
    info = dict(models=[m.tolist() for m in ms] if len(shape) > 1 or shape[0] < 9 else n, probability=p, **kw)
    check(np.array_equal(got, run(node, probability=p, **kw)), "ties with dropout: another result with the same seed", **info)
    if p == 0.5 and shape == (600,):
        check(not np.array_equal(got, run(node, probability=p, **{**kw, "seed": 10**6 + 1})), "ties with dropout: the same elements are dropped for different seeds", **info)
    if p == 1.0:
        check(not got.any() and not plain.any(), "ties with dropout: something is kept with probability 1", **info)
        return
    check(np.allclose(got * (1 - p), plain, rtol=1e-9, atol=0), "ties with dropout: not rescaled by 1/(1-p)", **info)
    if p == 0.0:
        kw.pop("seed")
        check(np.allclose(plain, run(ties, **kw), rtol=1e-9, atol=0), "ties with dropout: probability 0 differs from ties", **info)
    elif n == 1 and kw["k"] == 1.0:
        check(bool(((plain == 0) | (plain == ms[0])).all()), "ties with dropout: an element is neither dropped nor kept", **info)
        if shape == (600,):
            check(abs((plain != 0).mean() - (1 - p)) < 6 * math.sqrt(0.25 / 600), "ties with dropout: elements are kept with another probability", kept=(plain != 0).mean(), **info)


def case_median(seed):
    """Weiszfeld's iteration from the mean; the sum of distances to the models never grows"""
    rng = random.Random(seed)
    shape = rng.choice(SHAPES)
    ms = [tensor(rng, shape) + rng.choice([0.0, 3.0]) for _ in range(rng.choice([1, 2, 3, 3, 4, 7]))]
    eps, steps, ftol = rng.choice([1e-6, 1e-3]), rng.choice([0, 1, 2, 5, 30]), rng.choice([1e-20, 1e-20, 1e-3])
    dist = lambda x: np.array([math.sqrt(((m - x) ** 2).sum()) for m in ms])
    x = sum(ms) / len(ms)
    objectives = [dist(x).sum()]
    for _ in range(steps):
        w = 1 / np.maximum(dist(x), eps)
        x = sum(m * v for m, v in zip(ms, w)) / w.sum()
        objectives.append(dist(x).sum())
        if abs(objectives[-1] - objectives[-2]) <= ftol * objectives[-1]:
            break
    got = merged(merge_methods.resolve("geometric_median")(*[model(T(m)) for m in ms], eps=eps, maxiter=steps, ftol=ftol)).numpy()
    info = dict(models=[m.tolist() if m.size < 50 else "..." for m in ms], eps=eps, maxiter=steps, ftol=ftol)
    check(got.shape == shape, "geometric_median: shape", **info)
    top = max(np.abs(m).max(initial=0) for m in ms)
    # within rounding; where the stopping rule is nearly met one step more or less may be made
    near_stop = any(abs(abs(p - q) - ftol * q) <= 1e-6 * q for p, q in zip(objectives, objectives[1:]))
    if not near_stop:
        check(np.abs(got - x).max(initial=0) <= 1e-5 * (top + 1e-12), "geometric_median: not Weiszfeld's iteration", got=got.tolist() if got.size < 50 else "...", expected=x.tolist() if x.size < 50 else "...", **info)
    check(dist(got).sum() <= objectives[0] * (1 + 1e-5) + 1e-9 + len(ms) * eps, "geometric_median: farther from the models than their mean", distance=dist(got).sum(), mean=objectives[0], **info)


CASES = {"median": case_median, "formula": case_formula, "stock": case_stock, "dropout": case_dropout, "kept": case_kept, "dare": case_dare}


def suite(S):
    i = 0
    while S.more() and i < (150 if not S.thorough else 3000):
        for n in (*TWO, "multiply_quotient"):
            for _ in range(2):
                S.run("formula", name=n, seed=S.rng.randrange(10**6))
        for k in ("stock", "dropout", "dare", "median"):
            S.run(k, seed=S.rng.randrange(10**6))
        if i % 4 == 0:
            S.run("kept", seed=S.rng.randrange(10**6))
        i += 1
