"""C10 Merge methods receive values of their declared types and the requested dtypes"""
import itertools
import math
from vc.report import Proof
from .common import *

ID = "C10"
LEVEL = "proof"
TRUSTED = [
    "Tensor.to(device=, dtype=) returns the tensor with that device and dtype; torch.tensor(number, dtype=) has that dtype",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py (floats are treated as reals); z3, cvc5",
]
ASSUMPTIONS = ["literal values and tensors are arbitrary; signatures are a generated family"]
PROOF_BUDGET = 60
SUITE_BUDGET = 6
DTYPES = [torch.float16, torch.bfloat16, torch.float32, torch.float64, torch.int32, torch.float8_e4m3fn]
KINDS = {"X": "Parameter(Tensor)", "S": "Parameter(StateDict[Tensor])", "F": "Parameter(float)", "I": "Parameter(int)", "B": "Parameter(bool)", "T": "Parameter(str)",
         "FN": "Parameter(float) = 0.1", "TN": "Parameter(str) = None", "FD": "Parameter(StateDict[float], 'param')", "TD": "Parameter(StateDict[str], 'param')"}
REC = []


def make(pos, var=None, kw=()):
    ps = [f"p{i}: {KINDS[k]}" for i, k in enumerate(pos)]
    ps += [f"*rest: {KINDS[var]}"] if var else ["*"] if kw else []
    ps += [f"k{i}: {KINDS[k]}" for i, k in enumerate(kw)] + ["**kwargs"]
    name = "vc10_" + "_".join((*pos, "v", var or "", "k", *kw))
    got = "[" + "".join(f"p{i}, " for i in range(len(pos))) + ("*rest, " if var else "") + "".join(f"k{i}, " for i in range(len(kw))) + "]"
    return define_method(f"def {name}({', '.join(ps)}) -> Return(Tensor, 'weight'):\n    return REC[0]({got}, kwargs['key'])\n", name, dict(REC=REC), register=False)


# ----------------------------------------------------------------- contracts
def tensor_class():
    from vc.values import Model, Sym

    class AnyTensor(Model):
        """a tensor of which only dtype, device and provenance are known"""
        pytype = torch.Tensor

        def __init__(self, name, dtype, device="any", origin=None):
            self.name, self.dtype, self.device, self.origin = name, dtype, device, origin
            self.shape = torch.Size([1])

        def to(self, *args, **kw):
            d, t = kw.pop("device", self.device), kw.pop("dtype", self.dtype)
            for a in args:
                if isinstance(a, torch.dtype):
                    t = a
                else:
                    d = a
            assert not kw
            return AnyTensor(self.name, t, str(d), self)

        def root(self):
            return self if self.origin is None or not isinstance(self.origin, AnyTensor) else self.origin.root()

        def path(self):
            """the dtypes on the way from the root"""
            return (self.origin.path() if isinstance(self.origin, AnyTensor) else []) + [self.dtype]

        def isfinite(self):
            return self

        def all(self):
            return True

        __hash__ = object.__hash__
        __eq__ = object.__eq__
    return AnyTensor


def setup(c):
    A = tensor_class()

    def tensor(v, dtype=None, **kw):
        return A("number", dtype, "cpu", ("number", v))
    c.overrides[torch.tensor] = tensor
    return A


def h_cast_value(c):
    """conversion of one value to the declared type of a parameter"""
    import z3
    from vc.values import SReal, SInt, SBool, SVal, mkreal, mkint, mkbool, zreal, zint, zbool, trunc
    A = setup(c)
    kinds = dict(Tensor=lambda: A("t", torch.float64), str=lambda: SVal("s", pytype=str), int=lambda: SInt(c.int("i")), float=lambda: SReal(c.real("f")), bool=lambda: SBool(c.bool("b")))
    types = dict(Tensor=torch.Tensor, str=str, int=int, float=float, bool=bool)
    g = c.choose(sorted(kinds), "given")
    w = c.choose([*sorted(types), "T", "none"], "declared")
    lazy = bool(c.choice(2, "declared as a state dict"))
    v = kinds[g]() if w != "none" else None
    t = types[w] if w in types else merge_methods.T if w == "T" else types[g]
    if g == "Tensor" and w in ("int", "float", "bool") or g == "str" and w not in ("str", "T", "none"):
        c.assume(False)   # no conversion is promised
    err = got = None
    try:
        got = merging.cast_node_value(v, StateDict[t] if lazy else t)
    except Exception as e:
        err = e
    if w == "none":
        c.prove("an absent value stays absent", got is None and err is None)
    elif w in (g, "T") or (g, w) == ("bool", "int"):
        c.prove("a value of the declared type is passed on as it is", err is None and got is v)
    elif w == "str":
        c.prove("a value that is not a text is an error for a text parameter", err is not None)
    elif w == "Tensor":
        c.prove("a number becomes a tensor", err is None and type(got) is A and got.origin == ("number", v))
    elif w == "float":
        c.prove("a number is converted to float exactly", z3.And(z3.BoolVal(err is None), zreal(got) == (zreal(v))))
    elif w == "int":
        c.prove("a number is converted to int as Python does", z3.And(z3.BoolVal(err is None), zint(got) == (trunc(zreal(v)) if g == "float" else zint(v))))
    else:
        got = got if type(got) is SBool else bool(got)
        c.prove("a number is converted to bool as Python does", z3.And(z3.BoolVal(err is None), (zbool(got) == (zreal(v) != 0))))


GIVEN = {
    "X": ["dict", "model", "tensor", "float", "int"], "S": ["dict", "model", "numbers"], "F": ["float", "int", "node"], "I": ["int", "bool"], "B": ["bool", "int"], "T": ["str", "number"],
    "FN": ["float", "default"], "TN": ["str", "default"], "FD": ["dict", "ints"], "TD": ["dict"],
}
SIGNATURES = [(("X", "F"), None, ("T",)), (("S", "X"), None, ()), (("X", "I", "B"), None, ()), (("X",), "X", ("F",)), (("X",), None, ("FN", "TN")), (("X", "FD", "TD"), None, ())]


COMBOS = [(torch.float16, None, torch.float64, None), (torch.float64, "cuda:1", None, "cuda:2"), (None, None, torch.bfloat16, "cuda:2"), (torch.int32, "cuda:1", torch.bfloat16, None), (None, None, None, None),
          (None, "cuda:1", torch.float16, "cuda:2")]


def h_deliver(signatures, all_combos=False):
    def h(c):
        import z3
        from vc.values import SReal, SInt, SBool, SVal, zreal, zbool
        A = setup(c)
        pos, var, kw = c.choose(signatures, "signature")
        m = make(pos, var, kw)
        kinds = [*pos, *([var] * c.choice(3, "variadic") if var else []), *kw]
        cfg = synthetic_config("vc10-x", {"m": {"k": ([1], "float32", [], False)}})
        mdt, mdev, odt, odev = c.choose(COMBOS if all_combos else COMBOS[:3], "dtypes and devices")
        param = merge_spaces.resolve("param")
        args, forms = [], []
        for i, k in enumerate(kinds):
            f = c.choose(GIVEN[k], f"argument {i}")
            forms.append(f)
            raw = [torch.float32, torch.int8][i % 2]
            if f == "dict":
                v = {"FD": SReal(c.real(f"f{i}")), "TD": SVal(f"s{i}", pytype=str)}[k] if k in ("FD", "TD") else A(f"t{i}", raw)
                args.append((LiteralRecipeNode({"k": v}, model_config=cfg, merge_space="param" if k in ("FD", "TD") else "weight"), v))
            elif f in ("numbers", "ints"):
                v = SReal(c.real(f"f{i}")) if f == "numbers" else SInt(c.int(f"f{i}"))
                args.append((LiteralRecipeNode({"k": v}, model_config=cfg, merge_space="weight" if f == "numbers" else "param"), v))
            elif f == "model":
                v = A(f"t{i}", raw)
                n = ModelRecipeNode(pathlib.Path("m.safetensors"), model_config=cfg)

                class SD(dict):
                    close = lambda self: None
                    metadata = lambda self: []
                n.state_dict = SD(k=v)
                args.append((n, v))
            elif f == "tensor":
                v = A(f"t{i}", raw)
                args.append((LiteralRecipeNode(v, merge_space="weight"), v))
            elif f in ("float", "int", "bool", "number"):
                v = {"float": SReal, "number": SReal, "int": SInt, "bool": SBool}[f]((c.bool if f == "bool" else c.int if f == "int" else c.real)(f"v{i}"))
                args.append((LiteralRecipeNode(v, merge_space="weight") if k == "X" else v, v))
            elif f == "node":
                v = SReal(c.real(f"v{i}"))
                args.append((LiteralRecipeNode(v), v))
            elif f == "str":
                v = SVal(f"s{i}", pytype=str)
                args.append((LiteralRecipeNode(v), v))
            else:
                args.append((None, {"FN": 0.1, "TN": None}[k]))
        npos = len(kinds) - len(kw)
        if not any(f in ("dict", "model") for f, k in zip(forms, kinds) if k in ("X", "S")):
            c.assume(False)   # no model: nothing to merge
        got_args = []
        result = A("result", torch.float32)

        def record(values, key):
            values = [v["k"] if k in ("S", "FD", "TD") else v for v, k in zip(values, kinds)]
            got_args.append((values, key))
            return result
        REC[:] = [record]
        node = m(*(a[0] for a in args[:npos]), **{f"k{i}": a[0] for i, a in enumerate(args[npos:]) if forms[npos + i] != "default"})
        err = out = None
        try:
            out = sd_mecha.merge(node, threads=0, merge_dtype=mdt, merge_device=mdev, output_dtype=odt, output_device=odev)
        except Exception as e:
            err = e
        if "number" in forms:
            c.prove("a number for a text parameter is an error", err is not None and not got_args)
            return
        c.prove("the method is called once, for the key", err is None and len(got_args) == 1 and got_args[0][1] == "k")
        for g, (_, v), k, f in zip(got_args[0][0], args, kinds, forms):
            if k in ("X", "S"):
                number = f in ("float", "int", "numbers")
                c.prove("tensor parameters receive tensors", type(g) is A)
                c.prove("a tensor is made of its own input", (g.root().origin == ("number", v)) if number else g.root() is v)
                c.prove("it has the merge dtype", g.dtype == mdt if mdt is not None else (number or g.dtype == v.dtype))
                c.prove("it is on the merge device", mdev is None or g.device == mdev)
                c.prove("it went through no other dtype", number or set(g.path()) <= {v.dtype, mdt})
            elif f == "default":
                c.prove("defaults are delivered as they are", g is v or same_value(g, v))
            elif k in ("F", "FN", "FD"):
                c.prove("the very number is delivered as float", zreal(g) == zreal(v))
                c.prove("as float", type(g) is SReal)
            elif k in ("T", "TN", "TD"):
                c.prove("the very text is delivered", g is v)
            elif k == "I":
                c.prove("the very integer is delivered", g is v)
            else:
                c.prove("a bool is delivered", (g is v) if f == "bool" else zbool(g if type(g) is SBool else bool(g)) == (v.e != 0))
        o = out["k"]
        c.prove("the output is the result", type(o) is A and o.root() is result)
        c.prove("in the output dtype", o.dtype == (odt or torch.float32))
        c.prove("on the output device", odev is None or o.device == odev)
        c.prove("the output went through no other dtype", set(o.path()) <= {torch.float32, odt})
        c.cover("delivered")
    return h


def h_cast(c):
    """the builtin cast for every dtype name"""
    A = setup(c)
    cast = merge_methods.resolve("cast").__wrapped__
    names = {"float64": torch.float64, "float32": torch.float32, "float16": torch.float16, "bfloat16": torch.bfloat16, "int64": torch.int64, "int32": torch.int32, "int16": torch.int16,
             "int8": torch.int8, "uint8": torch.uint8, "bool": torch.bool, "float8_e4m3fn": torch.float8_e4m3fn, "float8_e5m2": torch.float8_e5m2, "uint16": torch.uint16, "uint32": torch.uint32, "uint64": torch.uint64}
    n = c.choose([None, *names], "dtype")
    d = c.choose([None, "cpu", "cuda:3"], "device")
    t = A("t", torch.float32)
    g = cast(t, d, n)
    c.prove("cast gives the named dtype", g.dtype == (names[n] if n else torch.float32))
    c.prove("cast gives the named device", g.device == (d or "any"))
    c.prove("cast keeps the content", g.root() is t and set(g.path()) <= {torch.float32, g.dtype})
    if n:
        lit = LiteralRecipeNode(t, merge_space="weight").to(dtype=names[n])
        value = {k: v for k, v in zip(("a", "device", "dtype"), lit.args)} | lit.kwargs
        c.prove("every dtype has a name", value["dtype"].value == n)
    try:
        cast(t, d, "float33")
        ok = False
    except ValueError:
        ok = True
    c.prove("an unknown dtype is an error", ok)


def proofs():
    yield Proof("conversion of values", h_cast_value)
    yield Proof("cast", h_cast)
    for s in SIGNATURES:
        yield Proof(f"what a method with {'_'.join((*s[0], s[1] or '', *s[2]))} parameters receives", h_deliver([s]), kind="bounded", bound="6 signatures, up to 2 variadic arguments, 3 choices of dtypes and devices", max_paths=20000)
    for s in SIGNATURES:
        yield Proof(f"what a method with {'_'.join((*s[0], s[1] or '', *s[2]))} parameters receives for more dtypes and devices", h_deliver([s], True), kind="bounded", bound="6 signatures, 6 choices of dtypes and devices", max_paths=80000, thorough_only=True)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
VALUES = {
    "F": [0.1, 1 / 3, 0.1 + 0.2, 1e300, -1e-300, 5e-324, 1e16 + 2, float("inf"), -0.0, 0.0, 65519.0, 1, 0, -7, 2**53 + 1, True],
    "I": [0, 1, -1, 2**31, 2**53 + 1, 10**30, 65537, True, 2.7, -1.5, 0.5, -0.9, 3.0],
    "B": [True, False, 1, 0],
    "T": ["", "a", "float16", "0.1", "x y", "k"],
}
VALUES |= {"FN": VALUES["F"], "TN": VALUES["T"], "FD": VALUES["F"], "TD": VALUES["T"]}
MERGE = [torch.float16, torch.bfloat16, torch.float32, torch.float64, None]
OUT = [torch.float16, torch.bfloat16, torch.float32, torch.float64, torch.float8_e4m3fn, torch.int32, None]
RAW = [torch.float16, torch.bfloat16, torch.float32, torch.float64, torch.int64, torch.int8, torch.uint8, torch.bool, torch.float8_e5m2]


def case_deliver(seed):
    r = random.Random(seed)
    keys = [f"k{i}" for i in range(3)]
    cfg = synthetic_config("vc10s-x", {"m": {k: ([2], "float32", [], False) for k in keys}})
    pos = [r.choice("XXSFIBT") if i else "X" for i in range(r.randrange(1, 5))]
    var = r.choice([None, None, "X", "F", "T"])
    kw = [r.choice(["X", "F", "T", "I", "B", "FN", "TN", "FD", "TD", "S"]) for _ in range(r.randrange(0, 4))]
    m = make(tuple(pos), var, tuple(kw))
    kinds = [*pos, *([var] * r.randrange(0, 3) if var else []), *kw]
    mdt, odt = r.choice(MERGE), r.choice(OUT)
    with scratch() as d:
        args, want = [], []
        for i, k in enumerate(kinds):
            f = r.random()
            if k in ("X", "S"):
                raw = r.choice(RAW)
                if k == "S" and i and f < 0.2:
                    vs = {x: r.choice([0.5, -2.0, 3.0]) for x in keys}
                    if f < 0.1:
                        vs = {x: int(v) for x, v in vs.items()}
                    args.append(LiteralRecipeNode(vs, model_config=cfg, merge_space="weight"))
                    want.append(("numbers", vs))
                elif i == 0 or k == "S" or f < 0.6:
                    sd = {x: torch.randint(0, 2, (2,)).to(raw) for x in keys}
                    if f < 0.3:
                        write_st(d / f"{i}.safetensors", sd)
                        args.append(ModelRecipeNode(d / f"{i}.safetensors", model_config=cfg))
                    elif f < 0.45:
                        args.append(LiteralRecipeNode({x: LiteralRecipeNode({x: t}, model_config=cfg, merge_space="weight") for x, t in sd.items()}, model_config=cfg, merge_space="weight"))
                    else:
                        args.append(LiteralRecipeNode(sd, model_config=cfg, merge_space="weight"))
                    want.append(("sd", sd))
                elif f < 0.75:
                    t = torch.randint(0, 2, (2,)).to(raw)
                    args.append(LiteralRecipeNode(t, merge_space="weight"))
                    want.append(("tensor", t))
                else:
                    v = r.choice([0.5, 1, 0, -2, 3.0])
                    args.append(LiteralRecipeNode(v, merge_space="weight"))
                    want.append(("number", v))
            elif k in ("FD", "TD"):
                vs = {x: r.choice(VALUES[k]) for x in keys}
                if k == "FD":
                    t = r.choice([float, float, bool, lambda v: int(v) if math.isfinite(v) and v == int(v) else 5])
                    vs = {x: t(v) for x, v in vs.items()}
                args.append(LiteralRecipeNode(vs, model_config=cfg, merge_space="param"))
                want.append(("dict", vs))
            elif k in ("F", "T", "I", "B") and f < 0.25:
                vs = {x: r.choice(VALUES[k]) for x in keys}
                if k != "T":
                    vs = {x: {"F": float, "I": int, "B": bool}[k](v) for x, v in vs.items()}
                args.append(LiteralRecipeNode(vs, model_config=cfg, merge_space="param"))
                want.append(("dict", vs))
            elif k in ("FN", "TN") and f < 0.4:
                args.append(...)
                want.append(("value", {"FN": 0.1, "TN": None}[k]))
            else:
                v = r.choice(VALUES[k])
                args.append(LiteralRecipeNode(v) if f < 0.5 else v)
                want.append(("value", v))
        seen = {}

        def record(values, key):
            check(key not in seen, "evaluated twice")
            seen[key] = [{x: v[x] for x in keys} if k in ("S", "FD", "TD") else v for v, k in zip(values, kinds)]
            return torch.ones(2, dtype=rdt) * int(key[1:])
        rdt = r.choice([torch.float32, torch.float64, torch.float16])
        REC[:] = [record]
        npos = len(kinds) - len(kw)
        node = m(*args[:npos], **{f"k{i}": a for i, a in enumerate(args[npos:]) if a is not ...})
        if r.random() < 0.3:
            node = make(("X",))(node) if False else node
        out = sd_mecha.merge(node, threads=0, total_buffer_size=256, merge_dtype=mdt, output_dtype=odt)
    check(set(seen) == set(keys), "evaluated keys")
    for key, values in seen.items():
        for i, (g, (form, v), k) in enumerate(zip(values, want, kinds)):
            info = dict(key=key, arg=i, kind=k, form=form, given=repr(v)[:100], got=repr(g)[:100], merge_dtype=str(mdt))
            if form == "numbers":
                for x in keys:
                    check(isinstance(g[x], torch.Tensor) and g[x].dtype == (mdt or g[x].dtype) and float(g[x]) == v[x], "lazy tensor made of a number", **info)
            elif k == "S":
                for x in keys:
                    check(isinstance(g[x], torch.Tensor) and g[x].dtype == (mdt or v[x].dtype) and torch.equal(g[x].double(), v[x].double()), "lazy tensor", **info)
            elif k in ("FD", "TD"):
                check(all(same_value(g[x], float(v[x]) if k == "FD" else v[x]) for x in keys), "lazy literal", **info)
            elif k == "X":
                check(isinstance(g, torch.Tensor), "a tensor parameter received something else", **info)
                src = v[key] if form == "sd" else v
                check(mdt is None and form != "number" and g.dtype == src.dtype or g.dtype == mdt or mdt is None and form == "number", "dtype of a tensor", dtype=str(g.dtype), **info)
                check(torch.equal(g.double(), torch.as_tensor(src).double() if form != "number" else torch.tensor(float(src), dtype=torch.float64)), "content of a tensor", **info)
            else:
                x = v[key] if form == "dict" else v
                t = {"F": float, "FN": float, "I": int, "B": bool, "T": str, "TN": str}[k]
                x = x if x is None or k == "I" and isinstance(x, int) or isinstance(x, t) else t(x)
                check(same_value(g, x), "literal", **info)
    for key, t in out.items():
        check(t.dtype == (odt or rdt), "output dtype", dtype=str(t.dtype), want=str(odt), key=key)
        check(torch.equal(t.double(), torch.full((2,), float(key[1:]), dtype=torch.float64)), "output value", key=key)
        check(t.device.type == "cpu", "device")
    check(set(out) == set(keys), "output keys")


def case_text(value, deep):
    """a value that is not a text raises an error when it is delivered to a text parameter"""
    cfg = synthetic_config("vc10s-x", {"m": {k: ([2], "float32", [], False) for k in ("k0", "k1", "k2")}})
    m = make(("X", "T"))
    called = []
    REC[:] = [lambda v, k: called.append(k) or v[0]]
    x = LiteralRecipeNode({"k0": torch.zeros(2)}, model_config=cfg, merge_space="weight")
    arg = {"k0": value} if deep == "dict" else value
    try:
        node = m(x, LiteralRecipeNode(arg, model_config=cfg if deep == "dict" else None, merge_space="param") if deep != "plain" else arg)
        sd_mecha.merge(node, threads=0)
    except Exception:
        check(not called, "the method was called")
        return
    check(False, "a value that is not a text was delivered to a text parameter", value=value, called=called)


def case_device(where, mdt="float64"):
    """the meta device stands for an accelerator"""
    mdt = getattr(torch, mdt) if mdt else None
    cfg = synthetic_config("vc10s-x", {"m": {k: ([2], "float32", [], False) for k in ("k0", "k1", "k2")}})
    m = make(("X", "X"))
    seen = []
    REC[:] = [lambda v, k: seen.append((v[0].device.type, v[1].device.type, v[0].dtype)) or v[0]]
    x = LiteralRecipeNode({"k0": torch.zeros(2)}, model_config=cfg, merge_space="weight")
    with scratch() as d:
        write_st(d / "a.safetensors", {"k0": torch.zeros(2)})
        y = ModelRecipeNode(d / "a.safetensors", model_config=cfg)
        out = sd_mecha.merge(m(x, y), threads=0, merge_device=where if where == "meta" else None, merge_dtype=mdt, output_device="meta", check_finite=False, total_buffer_size=1024)
    want = "meta" if where == "meta" else "cpu"
    check(seen == [(want, want, mdt or torch.float32)], "merge device", seen=repr(seen))
    check(out["k0"].device.type == "meta" and out["k0"].dtype == torch.float16, "output device", got=out["k0"].device.type)


def case_default_dtypes():
    cfg = synthetic_config("vc10s-x", {"m": {k: ([2], "float32", [], False) for k in ("k0", "k1", "k2")}})
    m = make(("X", "F"))
    seen = []
    REC[:] = [lambda v, k: seen.append((v[0].dtype, v[1])) or v[0]]
    out = sd_mecha.merge(m(LiteralRecipeNode({"k0": torch.tensor([0.1, 0.2])}, model_config=cfg, merge_space="weight"), 0.1), threads=0)
    check(seen == [(torch.float64, 0.1)] and out["k0"].dtype == torch.float16, "defaults", seen=repr(seen))


def case_output(seed):
    """the output dtype does not depend on the merge dtype nor on what methods return"""
    r = random.Random(seed)
    keys = ["k0", "k1"]
    cfg = synthetic_config("vc10s-x", {"m": {k: ([2], "float32", [], False) for k in ("k0", "k1", "k2")}})
    m = make(("X", "X"))
    rdt = r.choice([torch.float16, torch.float32, torch.float64, torch.bfloat16, torch.int32])
    mdt = r.choice(MERGE[:4])
    odt = r.choice([mdt, mdt, None, torch.float32])
    REC[:] = [lambda v, k: torch.tensor([1, 0]).to(rdt)]
    x, y = (LiteralRecipeNode({k: torch.tensor([0.5, 2.0]) for k in keys}, model_config=cfg, merge_space="weight") for _ in range(2))
    node = m(x, y)
    if r.random() < 0.3:
        node = sd_mecha.cast(node, dtype="float32")
        rdt = torch.float32
    out = sd_mecha.merge(node, threads=0, total_buffer_size=256, merge_dtype=mdt, output_dtype=odt, merge_device=r.choice([None, "cpu"]), output_device=r.choice([None, "cpu"]))
    for k in keys:
        check(out[k].dtype == (odt or rdt), "output dtype", got=str(out[k].dtype), want=str(odt), method_returns=str(rdt), merge_dtype=str(mdt), key=k)


CASES = {f.__name__[5:]: f for f in (case_output, case_deliver, case_text, case_device, case_default_dtypes)}


def suite(S):
    r = S.rng
    for v in (1, 0, 1.5, True, float("inf")):
        for deep in ("plain", "node", "dict"):
            S.run("text", value=v, deep=deep)
    for w in ("meta", "default"):
        for mdt in ("float64", None):
            S.run("device", where=w, mdt=mdt)
    S.run("default_dtypes")
    for s in range(40):
        S.run("output", seed=s)
    while S.more():
        S.run("deliver", seed=r.randrange(10**9))
