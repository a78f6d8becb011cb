"""C21 Shared defaults apply exactly where an option is not given"""
import inspect
import itertools
import logging
import threading
import sd_mecha.helpers
from sd_mecha import conversion
from vc.report import Proof
from vc.core import pyraise
from vc.values import Model
from .common import *
from .c09 import Child

ID = "C21"
LEVEL = "proof"
TRUSTED = [
    "pathlib.Path: building paths, absolute()",
    "the callee contracts: merge and convert do what C01 to C20 say with the options they receive",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["the parameters of the library's merge are the documented ones; an option that is `...` counts as not given"]
NOTE = ("Forwarding: all 2^12 subsets of options given in the call, each option and each default being any object, with None, False, 0 and `...` told apart only where the code "
        "does; model directories in every documented form (bounded: up to 2 directories).  What merge does with each option: one arbitrary option at a time (bounded).")
PROOF_BUDGET = 60
SUITE_BUDGET = 8

OPTIONS = ["merge_device", "merge_dtype", "output_device", "output_dtype", "threads", "total_buffer_size", "strict_weight_space", "check_finite", "omit_extra_keys", "omit_ema", "check_mandatory_keys", "tqdm"]
CALL_ONLY = ["fallback_model", "output"]
KINDS = ("absent", "none", "false", "zero", "other")


class Option(Model):
    """an argument of which nothing is known until it is looked at"""
    def __init__(self, c, name):
        self.__dict__.update(c=c, name=name, kinds=KINDS)

    def split(self, kinds, label):
        """is it one of these kinds?"""
        yes = tuple(k for k in self.kinds if k in kinds)
        no = tuple(k for k in self.kinds if k not in kinds)
        if not yes or not no:
            return bool(yes)
        r = self.c.choice(2, f"{self.name} {label}") == 1
        self.__dict__["kinds"] = yes if r else no
        return r

    def vc_is(self, o):
        if o is self:
            return True
        if isinstance(o, Option) or type(o) is Option:
            return False
        for k, v in (("absent", ...), ("none", None), ("false", False), ("zero", 0)):
            if o is v:
                return self.split((k,), f"is {k}")
        return False

    def __bool__(self):
        return not self.split(("none", "false", "zero"), "is falsy")

    def __eq__(self, o):
        if type(o) in (int, float, bool) and o == 0:
            return self.split(("false", "zero"), "equals 0")
        return self.vc_is(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<{self.name}: {'/'.join(self.kinds)}>"


def forwarded(c, f, names):
    """call f with `merge` and `convert` replaced; what they received, by parameter"""
    calls = []

    def callee(target):
        sig = inspect.signature(target)

        def record(*a, **kw):
            b = sig.bind(*a, **kw)
            calls.append((target.__name__, dict(b.arguments)))
            return names
        return record
    c.overrides[merging.merge] = callee(merging.merge)
    c.overrides[conversion.convert] = callee(conversion.convert)
    r = f()
    return r, calls


def right(got, given, default):
    """what reaches the library for one option"""
    if got is given:
        # correct if it is surely given, or if neither is
        return "absent" not in given.kinds or given.kinds == ("absent",) and default.kinds == ("absent",)
    if got is default:
        return given.kinds == ("absent",)
    if got is ...:
        return given.kinds == ("absent",) and default.kinds == ("absent",)
    return False


def h_forward(part):
    def h(c):
        given = {n: Option(c, n) for n in (*OPTIONS, *CALL_ONLY)}
        default = {n: Option(c, f"default {n}") for n in OPTIONS}
        d = sd_mecha.Defaults(**default)
        recipe, token = object(), object()
        r, calls = forwarded(c, lambda: d.merge(recipe, **given), token)
        c.cover("forwarded")
        c.prove("one merge of that recipe", [n for n, _ in calls] == ["merge"] and calls[0][1].get("recipe") is recipe)
        got = calls[0][1]
        for n in OPTIONS:
            c.prove("an option that is given is used as given, else the default is used", right(got.get(n, ...), given[n], default[n]), detail=n)
        for n in CALL_ONLY:
            x = got.get(n, ...)
            c.prove("options without defaults are used as given", x is given[n] or x is ... and given[n].kinds == ("absent",), detail=n)
        c.prove("the result is that of the merge", r is token)
        dirs = got.get("model_dirs", ...)
        c.prove("no directories when none are given", dirs is ... or list(dirs) == [])
    return h


def h_again(c):
    """several merges through the same object"""
    default = {n: Option(c, f"default {n}") for n in OPTIONS}
    d = sd_mecha.Defaults(**default)
    name = c.choose(OPTIONS, "option")
    for i in range(3):
        with_it = c.choice(2, f"given in call {i}") == 1
        v = object()
        r, calls = forwarded(c, lambda: d.merge("r", **({name: v} if with_it else {})), None)
        got = calls[0][1]
        for n in OPTIONS:
            x = got.get(n, ...)
            c.prove("what is given in one call does not reach another", x is v if n == name and with_it else x is default[n] or x is ... and default[n].kinds == ("absent",), detail=n)


DIRS = ["absent", "text", "path", "absolute text", "empty list", "list of texts", "tuple of paths", "iterator", "generator", "set", "dict", "mixed list"]


def dirs_of(kind, tag):
    a, b = f"vc21/{tag}a", f"vc21/{tag}b"
    P = pathlib.Path
    return {
        "absent": lambda: (..., []), "text": lambda: (a, [a]), "path": lambda: (P(a), [a]), "absolute text": lambda: ("/" + a, ["/" + a]), "empty list": lambda: ([], []),
        "list of texts": lambda: ([a, b], [a, b]), "tuple of paths": lambda: ((P(a), P(b)), [a, b]), "iterator": lambda: (iter([a, P(b)]), [a, b]),
        "generator": lambda: ((x for x in (P(b), a)), [b, a]), "set": lambda: ({a}, [a]), "dict": lambda: ({b: 1, a: 2}, [b, a]), "mixed list": lambda: ([P(b), "/" + a, b], [b, "/" + a, b]),
    }[kind]()


def h_dirs(c):
    """directories in all of the documented forms, for merges and conversions"""
    kd = c.choose(DIRS, "default")
    dv, dwant = dirs_of(kd, "d")
    d = sd_mecha.Defaults(**({} if kd == "absent" else dict(model_dirs=dv)))
    rounds = 1 + (c.choice(2, "twice") if not c.choice(2, "given") else 0)
    for i in range(rounds):
        kg = c.choose(DIRS[:1] if rounds > 1 else DIRS, f"given {i}")
        gv, gwant = dirs_of(kg, "g")
        want = dwant if kg == "absent" else gwant
        kw = {} if kg == "absent" else dict(model_dirs=gv)
        token, recipe, config = object(), object(), object()
        convert = c.choice(2, f"convert {i}")
        f = (lambda: d.convert(recipe, config, **kw)) if convert else (lambda: d.merge(recipe, **kw))
        r, calls = forwarded(c, f, token)
        c.cover("directories")
        c.prove("one call of the library", len(calls) == 1 and calls[0][0] == ("convert" if convert else "merge"))
        got = calls[0][1]
        ok = got.get("recipe") is recipe and (not convert or got.get("config") is config) and r is token
        c.prove("with the recipe and the target, and with its result", ok)
        dirs = got.get("model_dirs", ())
        dirs = [] if dirs is ... else list(dirs)
        c.prove("directories arrive as paths", all(isinstance(x, pathlib.Path) for x in dirs))
        c.prove("those of the call, or else the default ones, in order", [pathlib.Path(x).absolute() for x in dirs] == [pathlib.Path(x).absolute() for x in want], detail=f"{kg} {kd}: {dirs} {want}")


def h_signature(c):
    """not giving an option and giving `...` are the same to the library"""
    p = inspect.signature(merging.merge).parameters
    for n in (*OPTIONS, *CALL_ONLY, "model_dirs"):
        c.prove("an option not given is `...`", n in p and p[n].default is ..., detail=n)
    c.prove("a conversion without directories has none", tuple(inspect.signature(conversion.convert).parameters["model_dirs"].default) == ())


class Bar:
    made = None

    def __init__(self, *a, **k):
        type(self).made.append(type(self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def update(self, *a, **k):
        pass

    set_postfix = set_description = update


VALUES = {
    "merge_dtype": [..., None, torch.float32, torch.bfloat16], "output_dtype": [..., None, torch.float32, torch.float64],
    "threads": [..., None, 0, 1, 2, 5], "strict_weight_space": [..., True, False], "check_finite": [..., True, False], "omit_extra_keys": [..., True, False],
    "omit_ema": [..., True, False], "check_mandatory_keys": [..., True, False], "tqdm": [..., "bar"], "output": [..., None, "dict"], "fallback_model": [..., None, "node"],
}


SINK = []


def sink(t):
    SINK[0].append(t.dtype)
    SINK[1].append(threading.current_thread() is threading.main_thread())
    return t


def h_sinks(c):
    """merge: each option by itself, and the two about omitted keys together"""
    name = c.choose(sorted(VALUES), "option")
    v = c.choose(VALUES[name], "value")
    opts = {} if v is ... and not c.choice(2, "as `...`") else {name: v}
    extra = ...
    if name == "omit_ema":
        extra = c.choose([..., True, False], "omit_extra_keys")
        opts |= {} if extra is ... else dict(omit_extra_keys=extra)
    cfg = synthetic_config("vc21-s", {"m": {"k": ([1], "float32", [], False), "q": ([1], "float32", [], False)}, "ema": {"e": ([1], "float32", [], False)}})
    seen, where = [], []
    SINK[:] = [seen, where]
    space = "delta" if name == "strict_weight_space" else "weight"
    m = define_method(f"def vc21_look_{space}(a: Parameter(Tensor, {space!r})) -> Return(Tensor, {space!r}):\n    return LOOK(a)\n", f"vc21_look_{space}", dict(LOOK=sink), register=False)
    sd = {"k": torch.tensor([float("inf")], dtype=torch.float16), "e": torch.tensor([2.0], dtype=torch.float16), "extra": torch.tensor([3.0], dtype=torch.float16)}
    if name != "check_mandatory_keys" and name != "fallback_model":
        sd["q"] = torch.tensor([5.0], dtype=torch.float16)
    recipe = m(LiteralRecipeNode(sd, model_config=cfg, merge_space=space))
    pools, warned = [], []
    real = merging.ThreadPoolExecutor
    c.overrides[real] = lambda *a, **k: pools.append(k.get("max_workers", a[0] if a else None)) or real(max_workers=1)
    Bar.made = []
    out = {}
    if v == "bar":
        opts["tqdm"] = Bar
    elif v == "dict":
        opts["output"] = out
    elif v == "node":
        opts["fallback_model"] = LiteralRecipeNode({"q": torch.tensor([7.0], dtype=torch.float16)}, model_config=cfg, merge_space="weight")
    if name != "strict_weight_space":
        opts.setdefault("strict_weight_space", True)
    if name != "threads":
        opts["threads"] = 0
    c.overrides[logging.warning] = lambda msg, *a, **k: warned.append(str(msg))
    err = got = None
    try:
        got = merging.merge(recipe, **opts)
    except Exception as e:
        err = e
    c.cover(name)
    if name == "merge_dtype":
        c.prove("methods receive the merge dtype", err is None and set(seen) == {torch.float64 if v is ... else torch.float16 if v is None else v}, detail=f"{v} {seen} {err!r}")
    elif name == "output_dtype":
        c.prove("the output has the output dtype", err is None and {t.dtype for t in got.values()} == {torch.float16 if v is ... else torch.float64 if v is None else v})
    elif name == "threads":
        c.prove("the number of threads is the one that is given, 0 meaning none", err is None and (not pools and all(where) if v == 0 and v is not ... else len(pools) == 1 and not any(where) and (v in (..., None) or pools == [v])))
    elif name == "strict_weight_space":
        c.prove("other merge spaces are refused unless allowed", (err is None) == (v is False))
    elif name == "check_finite":
        c.prove("non finite values are reported unless told otherwise", err is None and any("k" in w and "finite" in w for w in warned) == (v is not False))
    elif name in ("omit_extra_keys", "omit_ema"):
        omit_extra = (v if name == "omit_extra_keys" else extra) is not False
        ema = omit_extra if name == "omit_extra_keys" or v is ... else v
        c.prove("the omitted keys are the requested ones, ema keys following extra keys", err is None and set(got) == {"k", "q"} | ({"e"} if not ema else set()) | ({"extra"} if not omit_extra else set()), detail=str(set(got or ())))
    elif name == "check_mandatory_keys":
        c.prove("missing mandatory keys are an error when requested", (err is not None) == (v is True))
    elif name == "tqdm":
        c.prove("the given progress bar is used", err is None and (len(Bar.made) == 1) == (v is not ...))
    elif name == "output":
        c.prove("the given dictionary is filled and returned, or else a new one", err is None and (got is out) == (v == "dict") and set(got) == {"k", "q"})
    elif name == "fallback_model":
        c.prove("the fallback supplies what is missing", err is None and set(got) == ({"k", "q"} if v == "node" else {"k"}))


def proofs():
    return [
        Proof("forwarding", h_forward(0), budget=90, max_paths=10**6),
        Proof("repeated calls", h_again, budget=15, kind="bounded", bound="3 calls"),
        Proof("model directories", h_dirs, budget=30, kind="bounded", bound="2 directories, 2 calls"),
        Proof("absent options", h_signature, budget=5),
        Proof("merge options", h_sinks, budget=30, kind="bounded", bound="one option at a time, 3 keys"),
    ]


# ----------------------------------------------------------------- concrete cross-check
class Progress(Bar):
    made = []


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.lines = set()

    def emit(self, record):
        self.lines.add(record.getMessage())


def observe(f, state):
    """everything a user can see of one merge"""
    Progress.made.clear()
    state["dtypes"], state["main"] = set(), set()
    log = Warnings()
    root = logging.getLogger()
    old = root.level, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root.setLevel(logging.WARNING)
    handlers = root.handlers[:]
    root.handlers[:] = [log]
    try:
        try:
            r = f()
            res = "None" if r is None else {k: (str(t.dtype), str(t.device), list(t.shape), t.double().tolist()) for k, t in r.items()}
        except Exception as e:
            res = (type(e).__name__, str(e))
    finally:
        root.handlers[:] = handlers
        root.setLevel(old[0])
        logging.disable(old[1])
    return dict(result=res, dtypes=sorted(map(str, state["dtypes"])), main=sorted(state["main"]), progress=len(Progress.made), warnings=sorted(log.lines))


SEEN = {}


def look(t):
    SEEN["dtypes"].add(t.dtype)
    SEEN["main"].add(threading.current_thread() is threading.main_thread())
    return t


CHOICES = {
    "merge_device": ["cpu", None, torch.device("cpu"), "cpu", None, "vc21"], "output_device": ["cpu", None, "cpu", None, "vc21"],
    "merge_dtype": [None, torch.float64, torch.float32, torch.bfloat16], "output_dtype": [None, torch.float64, torch.float16, torch.float32, torch.bfloat16],
    "threads": [None, 0, 0, 1, 2, -1], "total_buffer_size": [0, 64, 2**20], "strict_weight_space": [True, False, None, 0], "check_finite": [True, False, None, 0],
    "omit_extra_keys": [True, False, None, 0], "omit_ema": [True, False, None, 0], "check_mandatory_keys": [True, False, None, 0], "tqdm": [Progress],
}


class Quiet:
    """the default progress bar of the library, without its output"""


def some_dirs(rng, dirs):
    if rng.random() < 0.15:
        empty = rng.choice([(), [], {}])
        return lambda: empty, []
    ds = [os.path.relpath(d) if rng.random() < 0.2 else d for d in rng.sample(dirs, rng.randint(1, len(dirs)))]
    ds = [pathlib.Path(d) if rng.random() < 0.5 else d for d in ds]
    form = rng.choice(["one", "list", "tuple", "generator", "iterator", "dict"])
    if form == "one":
        return lambda: ds[0], ds[:1]
    return {"list": lambda: list(ds), "tuple": lambda: tuple(ds), "generator": lambda: (x for x in ds), "iterator": lambda: iter(ds), "dict": lambda: dict.fromkeys(ds)}[form], ds


def facts(got, eff, space, seed, incomplete):
    """what each option means by itself"""
    info = dict(options={k: str(v) for k, v in eff.items()}, got=got)
    res = got["result"]
    bad_device = "vc21" in (eff.get("merge_device"), eff.get("output_device"))
    if eff.get("threads") == -1 or bad_device:
        return
    strict, mandatory = eff.get("strict_weight_space", True), eff.get("check_mandatory_keys", False)
    if isinstance(res, tuple):
        check(res[0] == "FileNotFoundError" or strict and space == "delta" or mandatory and incomplete, "an error that no option asks for", **info)
        return
    check(not (strict and space == "delta"), "another merge space was not refused", **info)
    check(not (mandatory and incomplete), "a missing mandatory key was not reported", **info)
    check(got["main"] == [eff.get("threads") == 0 and "threads" in eff], "another number of threads", **info)
    check(got["progress"] == (eff.get("tqdm") is Progress), "another progress bar", **info)
    finite = any("finite" in w for w in got["warnings"])
    if not finite and eff.get("check_finite", True) and seed % 3 and seed % 2:
        check(False, "non finite values were not reported", **info)
    check(not finite or eff.get("check_finite", True), "non finite values were reported", **info)
    check(got["dtypes"] == [str({None: torch.float32}.get(eff.get("merge_dtype", torch.float64), eff.get("merge_dtype", torch.float64)))], "another merge dtype", **info)
    if isinstance(res, dict):
        check(("extra" in res) == (not eff.get("omit_extra_keys", True)), "extra keys", **info)
        out = eff.get("output_dtype", torch.float16)
        if out is not None:
            check({res[k][0] for k in ("k", "q") if k in res} == {str(out)}, "another output dtype", **info)


def case_merge(seed):
    rng = random.Random(seed)
    cfg = synthetic_config(f"vc21-{os.getpid()}.{seed}", {"m": {"k": ([2], "float32", [], False), "q": ([2], "float32", [], False), "o": ([2], "float32", [], True)}, "ema": {"e": ([2], "float32", [], True)}}, register=False)
    space = rng.choice(["weight"] * 3 + ["delta"])
    m = define_method(f"def vc21_seen_{space}(a: Parameter(Tensor, {space!r})) -> Return(Tensor, {space!r}):\n    return LOOK(a)\n", f"vc21_seen_{space}", dict(LOOK=look), register=False)
    with scratch() as root:
        dirs = []
        for i in range(3):
            d = os.path.join(root, f"d{i}")
            os.mkdir(d)
            dirs.append(d)
            sd = {"k": torch.tensor([0.1 + i, 1.0]), "e": torch.tensor([2.0, 1.0]), "extra": torch.tensor([3.0, 4.0])}
            if seed % 3:
                sd["q"] = torch.tensor([float("inf") if seed % 2 else 1 / 3, 5.0])
            write_st(os.path.join(d, "a.safetensors"), sd)
        p_def = rng.choice([0.0, 0.3, 0.7, 1.0])
        dflt = {n: rng.choice(v) for n, v in CHOICES.items() if rng.random() < p_def}
        mk, dlist = some_dirs(rng, dirs) if rng.random() < 0.5 else (None, None)
        shared = sd_mecha.Defaults(**dflt, **({} if mk is None else dict(model_dirs=mk())))
        for call in range(3):
            p_call = rng.choice([0.0, 0.15, 0.5, 0.9])
            given = {n: rng.choice(v) for n, v in CHOICES.items() if rng.random() < p_call}
            if "total_buffer_size" not in dflt and rng.random() < 0.85:
                given.setdefault("total_buffer_size", 64)      # the default buffer is slow to allocate
            eff = dflt | given
            # keep the default progress bar of the library silent
            gd, glist = some_dirs(rng, dirs) if rng.random() < 0.4 or mk is None and rng.random() < 0.9 else (None, None)
            use = glist if gd is not None else dlist
            fb = rng.choice([..., None, "node"])

            def extra():
                kw = {} if fb is ... else dict(fallback_model=None if fb is None else LiteralRecipeNode({"o": torch.tensor([8.0, 9.0])}, model_config=cfg, merge_space=space))
                if to_file:
                    kw["output"] = os.path.join(root, f"out{call}.safetensors")
                elif own:
                    kw["output"] = {}
                return kw
            to_file, own = rng.random() < 0.2, rng.random() < 0.3
            recipe = lambda: m(ModelRecipeNode(pathlib.Path("a.safetensors"), model_config=cfg, merge_space=space))
            sig = {k: str(v) for k, v in given.items()}
            got = observe(lambda: shared.merge(recipe(), **given, **extra(), **({} if gd is None else dict(model_dirs=gd()))), SEEN)
            if to_file and got["result"] == "None":
                got["file"] = sorted((k, str(v.dtype), v.double().tolist()) for k, v in read_st(os.path.join(root, f"out{call}.safetensors"))[1].items())
            want = observe(lambda: sd_mecha.merge(recipe(), **eff, **extra(), **({} if use is None else dict(model_dirs=[pathlib.Path(x).absolute() for x in use]))), SEEN)
            if to_file and want["result"] == "None":
                want["file"] = sorted((k, str(v.dtype), v.double().tolist()) for k, v in read_st(os.path.join(root, f"out{call}.safetensors"))[1].items())
            check(got == want, "a merge through shared defaults differs from the merge with the same options", given=sig, defaults={k: str(v) for k, v in dflt.items()}, dirs_given=str(glist), dirs_default=str(dlist), call=call, got=got, expected=want)
            facts(got, eff, space, seed, seed % 3 == 0 or fb == 'node')
            ema = eff.get("omit_ema", eff.get("omit_extra_keys", True))
            if isinstance(got["result"], dict):
                check(("e" in got["result"]) == (not ema), "ema keys", keys=list(got["result"]), options={k: str(v) for k, v in eff.items()})


def case_dirs(where, method, name):
    """directories are used as they are named, and a list of them that is given is left as it was"""
    with scratch() as root:
        d = os.path.join(root, name)
        os.mkdir(d)
        os.mkdir(os.path.join(root, "other"))
        cfg = synthetic_config(f"vc21d-{os.getpid()}", {"m": {"k": ([1], "float32", [], False)}}, register=False)
        write_st(os.path.join(d, "b.safetensors"), {"k": torch.tensor([1.0])})
        given = [os.path.join(root, "other"), d]
        before = list(given)
        node = ModelRecipeNode(pathlib.Path("b.safetensors"), model_config=cfg, merge_space="weight")
        shared = sd_mecha.Defaults(**(dict(model_dirs=given) if where == "default" else {}))
        kw = dict(model_dirs=given) if where == "call" else {}
        for _ in range(2):
            try:
                if method == "convert":
                    check(shared.convert(node, cfg, **kw) is node, "converting to the same config added something")
                else:
                    out = shared.merge(node, threads=0, total_buffer_size=64, tqdm=Progress, **kw)
                    check(list(out) == ["k"], "another result", got=sorted(out))
            except FileNotFoundError as e:
                check(False, "a model was not found in a directory that was given", where=where, directory=name, error=str(e)[:200])
            check(given == before and [type(x) for x in given] == [str, str], "the list of directories that was given was changed", before=before, after=[str(x) for x in given])


def case_omit(default_extra, call_extra, default_ema, call_ema, fallback=False):
    """without an option for ema keys, they are omitted exactly if extra keys are"""
    cfg = synthetic_config(f"vc21o-{os.getpid()}", {"m": {"k": ([1], "float32", [], False)}, "ema": {"e": ([1], "float32", [], True)}}, register=False)
    sd = {k: torch.tensor([1.0]) for k in ("k", "e", "extra")}
    node = LiteralRecipeNode(sd, model_config=cfg, merge_space="weight")
    options = lambda extra, ema: {n: v for n, v in (("omit_extra_keys", extra), ("omit_ema", ema)) if v != "unset"}
    fb = {"fallback_model": LiteralRecipeNode({k: torch.tensor([2.0]) for k in sd}, model_config=cfg, merge_space="weight")} if fallback else {}
    out = sd_mecha.Defaults(threads=0, tqdm=Progress, total_buffer_size=64, **options(default_extra, default_ema)).merge(node, **options(call_extra, call_ema), **fb)
    extra = next((x for x in (call_extra, default_extra) if x != "unset"), True)
    ema = next((x for x in (call_ema, default_ema) if x != "unset"), extra)
    want = {"k"} | ({"extra"} if not extra else set()) | ({"e"} if not ema else set())
    check(set(out) == want, "other keys are omitted than the options ask for", got=sorted(out), want=sorted(want))


def case_convert(seed):
    """conversions through shared defaults find relative models in the directories"""
    rng = random.Random(seed)
    with scratch() as root:
        dirs = []
        for i in range(3):
            d = os.path.join(root, f"d{i}")
            os.mkdir(d)
            dirs.append(d)
        cfg = synthetic_config(f"vc21c-{os.getpid()}.{seed}", {"m": {"k": ([1], "float32", [], False)}}, register=False)
        home = rng.randrange(3)
        write_st(os.path.join(dirs[home], "b.safetensors"), {"k": torch.tensor([1.0])})
        mk, dlist = some_dirs(rng, dirs) if rng.random() < 0.7 else (None, None)
        shared = sd_mecha.Defaults(**({} if mk is None else dict(model_dirs=mk())))
        for call in range(3):
            gd, glist = some_dirs(rng, dirs) if rng.random() < 0.4 else (None, None)
            use = (glist if gd is not None else dlist) or []
            found = any(os.path.abspath(x) == os.path.abspath(dirs[home]) for x in map(str, use))
            node = ModelRecipeNode(pathlib.Path("b.safetensors"), model_config=cfg, merge_space="weight")
            try:
                r = shared.convert(node, cfg, **({} if gd is None else dict(model_dirs=gd())))
                ok = r is node
            except Exception:
                ok = None
            check(ok is (True if found else None), "a conversion through shared defaults looked in other directories", call=call, found=ok, given=str(glist), default=str(dlist), home=dirs[home])


def case_buffers(seed):
    """the buffers of all files together have the requested size, by call or by default"""
    from unittest import mock
    from sd_mecha import streaming
    rng = random.Random(seed)
    cfg = synthetic_config(f"vc21b-{os.getpid()}.{seed}", {"m": {"k": ([2], "float32", [], False)}}, register=False)
    sizes = {"in": [], "out": []}

    def recorder(kind, init):
        sig = inspect.signature(init)

        def __init__(self, *a, **kw):
            args = sig.bind(self, *a, **kw).arguments
            sizes[kind] += [v for k, v in args.items() if "buffer" in k]
            return init(self, *a, **kw)
        return __init__
    n, threads, total = rng.randint(1, 3), rng.choice([0, 1, 3]), rng.choice([0, 1, 64, 1000, 2**12])
    with scratch() as root, mock.patch.object(streaming.InSafetensorsDict, "__init__", recorder("in", streaming.InSafetensorsDict.__init__)), \
            mock.patch.object(streaming.OutSafetensorsDict, "__init__", recorder("out", streaming.OutSafetensorsDict.__init__)):
        for i in range(n):
            write_st(os.path.join(root, f"{i}.safetensors"), {"k": torch.tensor([float(i), 1.0])})
        recipe = sd_mecha.n_average(*(ModelRecipeNode(pathlib.Path(root) / f"{i}.safetensors", model_config=cfg, merge_space="weight") for i in range(n)))
        where = rng.choice(["call", "default", "both"])
        d = sd_mecha.Defaults(threads=threads, tqdm=Progress, **({} if where == "call" else dict(total_buffer_size=total if where == "default" else 2**14)))
        out = os.path.join(root, "out.safetensors") if rng.random() < 0.5 else None
        d.merge(recipe, output=out, **({} if where == "default" else dict(total_buffer_size=total)))
        got = sum(sizes["in"]) + sum(sizes["out"]) * max(1, threads)
        check(not sizes["in"] or got <= total and (total < 64 or got >= total / 4), "the buffers have another size", requested=total, given_in=where, buffers=dict(sizes), files=n, threads=threads)


CASES = {"dirs": case_dirs, "omit": case_omit, "merge": case_merge, "convert": case_convert, "buffers": case_buffers}


def suite(S):
    for where in ("call", "default"):
        for method in ("convert", "merge"):
            for name in ("d", " d", "d ", "d\t", "~", "$HOME", "d.safetensors", "*"):
                S.run("dirs", where=where, method=method, name=name)
    for i, options in enumerate(itertools.product(("unset", True, False), repeat=4)):
        S.run("omit", **dict(zip(("default_extra", "call_extra", "default_ema", "call_ema"), options)), fallback=bool(i % 2))
    i = 0
    while S.more() and i < (120 if not S.thorough else 4000):
        S.run("merge", seed=S.rng.randrange(10**6))
        if i % 4 == 0:
            S.run("buffers", seed=S.rng.randrange(10**6))
            S.run("convert", seed=S.rng.randrange(10**6))
        i += 1
