"""C09 A merged key is the composition of the recipe's methods on that key"""
import itertools
from vc.report import Proof
from .common import *
from .c06 import Stub

ID = "C09"
LEVEL = "proof"
TRUSTED = [
    "a merge method is an arbitrary function of the values it is given (it is replaced by a recorder); the children of a node follow the contract of accept: a value, "
    "a missing key or another error, for whatever key they are asked",
    "sorted() calls its key function once per element and returns a permutation",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py; z3, cvc5",
]
ASSUMPTIONS = ["by induction over the graph, the contract of accept holds for every node when it holds for each kind of node with children that satisfy it"]
PROOF_BUDGET = 60
SUITE_BUDGET = 6


class Boom(Exception):
    pass


# ----------------------------------------------------------------- contracts
class Child(Stub):
    """an arbitrary recipe that satisfies the contract of accept"""

    def __init__(self, c, name, value, fails=(None,), space=None, config=None):
        super().__init__(space or merge_spaces.resolve("weight"), config)
        self.c, self.name, self.value = c, name, value
        self.depth = c.int(f"depth of {name}", lo=0)
        self.fails = fails
        self.outcomes = {}
        self.asked = []

    def outcome(self, key):
        """what this recipe evaluates to under a key: decided once per key"""
        from vc.values import is_sym
        for k, o in self.outcomes.items():
            if k is key or not is_sym(k) and not is_sym(key) and k == key:
                return o
        f = self.c.choose(self.fails, f"{self.name} fails")
        o = self.value(key) if f is None else f
        self.outcomes[key] = o
        return o

    def accept(self, visitor, *args, **kwargs):
        from vc.values import mkint
        from vc.core import pyraise
        if isinstance(visitor, recipe_nodes.ModelDepthRecipeVisitor):
            return mkint(self.depth)
        if isinstance(visitor, merging.KeyMergeVisitor):
            key = visitor.key
            self.asked.append(key)
            o = self.outcome(key)
            if isinstance(o, type) and issubclass(o, BaseException):
                pyraise(o(key if o is merging.StateDictKeyError else self.name))
            return o
        return 0 if isinstance(visitor, recipe_nodes.ModelsCountVisitor) else self

    def __contains__(self, item):
        return item is self


KINDS = {"X": ("Parameter(Tensor)", torch.Tensor), "F": ("Parameter(float)", float), "T": ("Parameter(str)", str), "I": ("Parameter(int)", int),
         "B": ("Parameter(bool)", bool), "SD": ("Parameter(StateDict[Tensor])", torch.Tensor)}
SIGNATURES = [
    (("X",), "", ()), (("X", "X"), "", ()), (("X", "X", "F"), "", ()), (("X",), "X", ()), (("X", "T"), "", ("X", "F")), (("SD", "X"), "", ()),
    (("X", "SD"), "", ("SD",)), ((), "SD", ()), (("I", "B", "X"), "", ()), ((), "", ("X", "T", "X")), (("X",), "SD", ("X",)),
]
REC = []


def make(pos, var, kw, extra):
    ps = [f"p{i}: {KINDS[k][0]}" for i, k in enumerate(pos)]
    ps += [f"*rest: {KINDS[var][0]}"] if var else ["*"] if kw else []
    ps += [f"k{i}: {KINDS[k][0]}" for i, k in enumerate(kw)] + (["**kwargs"] if extra else [])
    name = "vc9_" + "_".join((*pos, "v", var, "k", *kw, "x" if extra else ""))
    got = "(" + "".join(f"p{i}, " for i in range(len(pos))) + ("*rest, " if var else "") + ")"
    kws = "{" + "".join(f"'k{i}': k{i}, " for i in range(len(kw))) + "}"
    body = f"    REC.append(({got}, {kws}, {'kwargs' if extra else '{}'}))\n    return REC[0]\n"
    return define_method(f"def {name}({', '.join(ps)}) -> Return(Tensor, 'weight'):\n{body}", name, dict(REC=REC), register=False)


def typed(name, t):
    from vc.values import SVal
    return lambda key: SVal(f"value of {name}", pytype=t)


def check_received(c, got, child, key, kind):
    """the parameter received the value of its argument, or a lazy view of it"""
    from vc.values import SVal
    if kind != "SD":
        c.prove("each parameter receives the value of its own argument under the same key", len(child.asked) == 1 and child.asked[0] is key and got is child.outcomes[key])
        return
    c.prove("state dict parameters are not evaluated eagerly", child.asked == [])
    other = SVal("other key", pytype=str)
    v = got[other]
    c.prove("a lazy lookup evaluates its own argument under the requested key", len(child.asked) == 1 and child.asked[0] is other and v is child.outcomes[other])
    c.prove("the state dict has the config of its argument", got.model_config is child.model_config)


def h_visit(fails, deep):
    def h(c):
        from vc.values import SVal
        sig = c.choose(SIGNATURES, "signature")
        pos, var, kw = sig
        extra = bool(c.choice(2, "key and cache are given"))
        m = make(pos, var, kw, extra)
        nvar = c.choice(3, "variadic") if var else 0
        kinds = [*pos, *([var] * nvar)]
        if not kinds and not kw:
            c.assume(False)
        key = SVal("key", pytype=str)
        nodes = [Child(c, f"a{i}", typed(f"a{i}", KINDS[k][1]), (None,) if k == "SD" else fails, merge_spaces.resolve("weight" if k in ("X", "SD") else "param")) for i, k in enumerate(kinds)]
        named = {f"k{i}": Child(c, f"k{i}", typed(f"k{i}", KINDS[k][1]), (None,) if k == "SD" else fails, merge_spaces.resolve("weight" if k in ("X", "SD") else "param")) for i, k in enumerate(kw)}
        if deep:
            for n in [*nodes, *named.values()]:
                n.depth = n.depth  # arbitrary: every relative order of the depths is explored
        else:
            import z3
            for i, n in enumerate([*nodes, *named.values()]):
                c.assume(n.depth == i % 2)
        node = MergeRecipeNode(m, tuple(nodes), named)
        node.cache = {} if c.choice(2, "cache") else None
        result = SVal("result", pytype=torch.Tensor)
        REC[:] = [result]
        err = None
        try:
            got = node.accept(merging.KeyMergeVisitor(key))
        except Exception as e:
            err = e
        eager = [n for n, k in zip([*nodes, *named.values()], [*kinds, *kw]) if k != "SD"]
        failed = [o for n in eager for o in n.outcomes.values() if isinstance(o, type)]
        if failed:
            others = [f for f in failed if f is not merging.StateDictKeyError]
            c.cover("failed")
            c.prove("a failing argument makes the node fail", err is not None)
            c.prove("a missing key is reported as such, and never hides another error", isinstance(err, merging.StateDictKeyError) if not others else any(type(err) is o for o in others))
            c.prove("a method with a failing argument is not called", len(REC) == 1)
            return
        c.cover("evaluated")
        c.prove("no error", err is None)
        c.prove("the value is what the method returns, called once", got is result and len(REC) == 2)
        args, kws, rest = REC[1]
        c.prove("every argument is passed on", len(args) == len(nodes) and list(kws) == list(named))
        for g, n, k in zip(args, nodes, kinds):
            check_received(c, g, n, key, k)
        for name, k in zip(kws, kw):
            check_received(c, kws[name], named[name], key, k)
        if extra:
            c.prove("the method is told the key and the cache of the node", set(rest) == {"key", "cache"} and rest["key"] is key and rest["cache"] is node.cache)
    return h


class Source(dict):
    """an opened state dict: any subset of the names is present"""


def arbitrary_state_dict(c, names, other):
    from vc.values import SVal
    state = {}
    for n in names:
        k = c.choice(3 if other else 2, f"{n} is present")
        state[n] = [SVal(f"value of {n}", pytype=torch.Tensor), KeyError, Boom][k]
    asked = []

    class Names(dict):
        close = lambda self: None

        def __getitem__(self, key):
            from vc.core import pyraise
            asked.append(key)
            v = state[key]
            if isinstance(v, type):
                pyraise(c.choose([Boom, RuntimeError, OSError, IndexError, TypeError], "error")(key) if v is Boom else (KeyError if c.choice(2, "exception") else merging.StateDictKeyError)(key))
            return v
    first = next(iter(names))
    return Names({first: torch.zeros(1)}), state, asked


def h_leaf(kind, n_aliases):
    def h(c):
        from vc.values import SVal
        n = c.choice(n_aliases + 1, "aliases")
        key = "the key"
        names = [key, *["beta", "delta", "alpha", "gamma"][:n]]
        sd, state, asked = arbitrary_state_dict(c, names, True)

        class Config:
            identifier = "vc09"
            aliases = lambda self: {"unrelated": ["the key"], **({key: names[1:]} if n or c.choice(2, "has an entry") else {})}
            keys = metadata = components = lambda self: {}
        if kind == "model":
            node = ModelRecipeNode(pathlib.Path("m.safetensors"), model_config=Config())
            node.state_dict = sd
        else:
            node = LiteralRecipeNode(sd, model_config=Config(), merge_space="weight")
        err = got = None
        try:
            got = node.accept(merging.KeyMergeVisitor(key))
        except Exception as e:
            err = e
        want = next((state[x] for x in names if state[x] is not KeyError), None)
        if want is None:
            c.prove("a key that is absent under all names is reported missing", isinstance(err, merging.StateDictKeyError))
        elif want is Boom:
            c.prove("an error while reading is not hidden", err is not None and not isinstance(err, KeyError))
        else:
            c.prove("the first present name determines the value", err is None and got is want)
        c.prove("the reported key is the requested one", err is None or want is not None or key in str(err))
    return h


def h_literal(c):
    """values, and dictionaries of recipes"""
    from vc.values import SVal
    key = SVal("key", pytype=str)
    k = c.choice(3, "literal")
    if k == 0:
        t = c.choose([torch.Tensor, int, float, str, bool], "type")
        v = SVal("v", pytype=t)
        node = LiteralRecipeNode(v)
        got = node.accept(merging.KeyMergeVisitor(key))
        c.prove("a literal evaluates to its value", got is v)
    else:
        names = ["a", "b"]
        ch = {n: Child(c, n, typed(n, torch.Tensor), (None, merging.StateDictKeyError, Boom)) for n in names}

        class Config:
            identifier = "vc09"
            aliases = lambda self: {"b": ["x", "a"]} if k == 2 else {}
            keys = metadata = components = lambda self: {}
        if k == 2:
            ch.pop("b")
        cfg = Config()
        for n in ch.values():
            n._config = cfg
        node = LiteralRecipeNode(dict(ch), model_config=cfg, merge_space="weight")
        err = got = None
        try:
            got = node.accept(merging.KeyMergeVisitor("b"))
        except Exception as e:
            err = e
        child = ch["b" if k == 1 else "a"]
        o = next(iter(child.outcomes.values()))
        c.prove("the recipe stored under the key is evaluated", len(child.asked) == 1 and child.asked[0] == "b" and all(x is child or not x.asked for x in ch.values()))
        c.prove("its outcome is the outcome", got is o if not isinstance(o, type) else type(err) is o)


ERRORS = [merging.StateDictKeyError, KeyError, RuntimeError, ValueError, TypeError, IndexError, Boom, MemoryError, OSError, StopIteration, KeyboardInterrupt]


def h_track(c):
    """only missing keys are skipped"""
    from vc.values import SVal
    from vc.core import pyraise
    key = SVal("key", pytype=str)
    res = SVal("result", pytype=object)
    e = c.choose([None, *ERRORS], "error")
    seen = []

    def fn(*args, **kwargs):
        seen.append((args, kwargs))
        if e is not None:
            pyraise(e("x"))
        return res
    out, err = [], None

    class Output:
        def __setitem__(self, k, v):
            out.append((k, v))
    try:
        merging._track_output(fn, Output(), key, c.choose([True, False], "check finite"))(1, a=2)
    except BaseException as x:
        if not isinstance(x, (Exception, KeyboardInterrupt)):
            raise
        err = x
    c.prove("the evaluation is called once", seen == [((1,), {"a": 2})])
    if e is None:
        c.prove("the value is stored under its key, unchanged", err is None and len(out) == 1 and out[0][0] is key and out[0][1] is res)
    else:
        c.prove("nothing is stored for a failed key", out == [])
        c.prove("exactly the missing keys are skipped", (err is None) if e is merging.StateDictKeyError else type(err) is e)


def h_merge(c):
    """through merge(): every key is evaluated by the whole graph; missing keys are skipped one by one; other errors abort"""
    keys = ["k0", "k1", "k2"]
    cfg = synthetic_config("vc09-m", {"m": {k: ([1], "float32", [], False) for k in keys}})
    kids = [Child(c, f"a{i}", lambda key, i=i: torch.tensor([float(10 * i + int(key[1:]))]), (None, merging.StateDictKeyError, Boom) if i == 0 else (None, merging.StateDictKeyError), config=cfg) for i in range(2)]
    for i, n in enumerate(kids):
        c.assume(n.depth == i)
    seen = []
    m = define_method("def vc9_pair(a: Parameter(Tensor), b: Parameter(Tensor), **kwargs) -> Return(Tensor):\n    return a * 100 + b\n", "vc9_pair", register=False)
    err = got = None
    try:
        got = sd_mecha.merge(m(*kids), threads=0, merge_device=None, merge_dtype=None, output_device=None, output_dtype=None, omit_extra_keys=True)
    except Exception as e:
        err = e
    boom = any(o is Boom for n in kids for o in n.outcomes.values())
    if boom:
        c.prove("an error other than a missing key aborts the merge", type(err) is Boom)
        return
    want = {}
    for k in keys:
        o = [n.outcomes.get(k) for n in kids]
        if not any(isinstance(x, type) for x in o):
            want[k] = o[0] * 100 + o[1]
    c.prove("no error", err is None)
    c.prove("each key is computed from its own inputs; only keys that miss an input are skipped", list(got) == list(want) and all(torch.equal(got[k], want[k]) for k in want))


def proofs():
    yield Proof("a node applies its method to the values of its arguments", h_visit((None,), True), kind="bounded", bound="11 signatures with up to 4 parameters, up to 2 variadic arguments, in every order of depths", max_paths=40000)
    yield Proof("failing arguments", h_visit((None, merging.StateDictKeyError, Boom), False), kind="bounded", bound="11 signatures with up to 4 parameters; failures in all combinations", max_paths=60000)
    yield Proof("a model yields the entry under the first present name", h_leaf("model", 4), kind="bounded", bound="up to 4 aliases", max_paths=40000)
    yield Proof("a dictionary yields the entry under the first present name", h_leaf("literal", 3), kind="bounded", bound="up to 3 aliases", max_paths=40000)
    yield Proof("literals", h_literal)
    yield Proof("only missing keys are skipped", h_track)
    yield Proof("merge evaluates every key", h_merge, kind="bounded", bound="3 keys, 2 arguments", max_paths=20000)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
class RefMissing(Exception):
    pass


WEIGHTS = [2.0, 3.0, 5.0, 7.0, 11.0, 13.0]


def method(npos, var, nkw, sd, key_used, shift):
    """a method that is sensitive to the place of every argument"""
    ps = [f"p{i}: Parameter({'StateDict[Tensor]' if i in sd else 'Tensor'})" for i in range(npos)]
    ps += ["*rest: Parameter(Tensor)"] if var else ["*"] if nkw else []
    ps += [f"k{i}: Parameter({'StateDict[Tensor]' if npos + i in sd else 'Tensor'})" for i in range(nkw)] + ["**kwargs"]
    name = f"vc9c_{npos}_{int(var)}_{nkw}_{'_'.join(map(str, sd))}_{int(key_used)}_{shift}"
    def lookups(x):
        two = [f"{x}[other]", f"{0.25} * {x}[kwargs['key']]"]
        return " + ".join(two if shift % 2 else two[::-1])
    terms = [f"{WEIGHTS[i]} * ({lookups(f'p{i}')})" if i in sd else f"{WEIGHTS[i]} * p{i}" for i in range(npos)]
    terms += [f"{WEIGHTS[npos + i]} * ({lookups(f'k{i}')})" if npos + i in sd else f"{WEIGHTS[npos + i]} * k{i}" for i in range(nkw)]
    if var:
        terms.append("sum((17.0 + i) * x for i, x in enumerate(rest))")
    if key_used:
        terms.append("1000.0 * int(kwargs['key'][1:])")
    body = f"    other = 'k' + str((int(kwargs['key'][1:]) + {shift}) % NK)\n    return ({' + '.join(terms) or '0.0'}) * torch.ones(1, dtype=torch.float64) / 64\n"
    return define_method(f"def {name}({', '.join(ps)}) -> Return(Tensor, 'weight'):\n{body}", name, dict(NK=6))


def source(cfg, n, shift):
    """a method without arguments: what it yields only depends on the key"""
    name = f"vc9s_{n}_{shift}"
    return define_method(f"def {name}({'' if n else '**kwargs'}) -> Return(Tensor, 'weight', CFG):\n    return torch.full((1,), {float(n)} or (float(kwargs['key'][1:]) + {shift}) / 8, dtype=torch.float64)\n", name, dict(CFG=cfg), fresh=True)


NK = 6
MAXCOST = 60   # evaluation is not shared between the uses of a node


def evaluate(node, key, spec, memo):
    """reference evaluator"""
    kind = node[0]
    if kind == "source":
        return torch.full((1,), float(node[1]) or (float(key[1:]) + node[2]) / 8, dtype=torch.float64)
    if kind == "leaf":
        sd, aliases = node[1], spec
        for n in [key, *aliases.get(key, [])]:
            if n in sd:
                return sd[n].double()
        raise RefMissing(key)
    if kind == "dict":
        for n in [key, *spec.get(key, [])]:
            if n in node[1]:
                return evaluate(node[1][n], key, spec, memo)
        raise RefMissing(key)
    _, (npos, var, nkw, sd, key_used, shift), args, kws = node
    m = (id(node), key)
    if m in memo:
        if memo[m] is None:
            raise RefMissing(key)
        return memo[m]
    memo[m] = None
    other = f"k{(int(key[1:]) + shift) % NK}"

    def val(n, i):
        if i in sd:
            return evaluate(n, other, spec, memo) + 0.25 * evaluate(n, key, spec, memo)
        return evaluate(n, key, spec, memo)
    total = torch.zeros(1, dtype=torch.float64)
    for i, a in enumerate(args):
        total = total + (WEIGHTS[i] * val(a, i) if i < npos else (17.0 + i - npos) * val(a, None))
    for i, a in enumerate(kws):
        total = total + WEIGHTS[npos + i] * val(a, npos + i)
    if key_used:
        total = total + 1000.0 * int(key[1:])
    memo[m] = total / 64
    return memo[m]


def config9(r):
    aliases = {f"k{i}": [f"x{i}_{(j + i) % 3}" for j in range(r.choice([0, 0, 1, 2, 3]))] for i in range(NK)}
    ident = "vc09c-" + "_".join(str(len(a)) for a in aliases.values())
    return synthetic_config(ident, {"m": {k: ([1], "float64", a, False) for k, a in aliases.items()}}), aliases


def case_graph(seed, threads=0):
    r = random.Random(seed)
    cfg, aliases = config9(r)
    with scratch() as d:
        nodes = []   # (spec, recipe, cost)
        for i in range(r.randrange(1, 4)):
            sd = {}
            for k in aliases:
                for n in [k, *aliases[k]]:
                    if r.random() < (0.8 if n == k and not aliases[k] else 0.45):
                        sd[n] = torch.tensor([float(r.randrange(1, 64))], dtype=torch.float64)
            if not sd:
                sd["k0"] = torch.tensor([1.0], dtype=torch.float64)
            if r.random() < 0.5:
                write_st(d / f"{i}.safetensors", sd)
                nodes.append((("leaf", sd), ModelRecipeNode(d / f"{i}.safetensors", model_config=cfg), 1))
            else:
                nodes.append((("leaf", sd), LiteralRecipeNode(dict(sd), model_config=cfg, merge_space="weight"), 1))
        if r.random() < 0.3:
            n, shift = r.choice([0, 0, 3]), r.randrange(1, 9)
            nodes.append((("source", n, shift), source(cfg, n, shift)(), 1))
        if r.random() < 0.15:
            nodes.append((("leaf", {}), LiteralRecipeNode({}, model_config=cfg, merge_space="weight"), 1))
        for _ in range(r.randrange(1, 9)):
            if r.random() < 0.12:
                ks = [n for k in aliases for n in [k, *aliases[k]] if r.random() < 0.5]
                picks = {k: r.choice(nodes) for k in ks}
                if picks:
                    try:
                        n = LiteralRecipeNode({k: v[1] for k, v in picks.items()}, model_config=cfg, merge_space="weight")
                    except ValueError:
                        continue
                    nodes.append((("dict", {k: v[0] for k, v in picks.items()}), n, 1 + max(p[2] for p in picks.values())))
                continue
            npos, nkw = r.randrange(0, 4), r.randrange(0, 3)
            var = r.random() < 0.3
            if not npos and not nkw:
                npos = 1
            sd = [i for i in range(npos + nkw) if r.random() < 0.2]
            p = (npos, var, nkw, tuple(sd), r.random() < 0.3, r.randrange(1, NK))
            m = method(*p)

            def pick():
                return nodes[-1] if r.random() < 0.35 else r.choice(nodes)
            args = [pick() for _ in range(npos + (r.randrange(0, 4) if var else 0))]
            kws = [pick() for _ in range(nkw)]
            cost = 1 + sum(a[2] * (2 if i in sd and i < npos else 1) for i, a in enumerate(args)) + sum(a[2] * (2 if npos + i in sd else 1) for i, a in enumerate(kws))
            if cost > MAXCOST:
                continue
            order = list(range(nkw))
            r.shuffle(order)
            nodes.append((("merge", p, [a[0] for a in args], [a[0] for a in kws]), m(*(a[1] for a in args), **{f"k{i}": kws[i][1] for i in order}), cost))
        spec, recipe, _ = nodes[-1]
        if recipe.model_config is None:
            return
        want = {}
        memo = {}
        for k in aliases:
            try:
                want[k] = evaluate(spec, k, aliases, memo)
            except RefMissing:
                pass
        got = sd_mecha.merge(recipe, threads=threads, total_buffer_size=r.choice([0, 64, 1 << 12]), output_dtype=torch.float64, merge_dtype=torch.float64)
        check(set(got) == set(want), "keys of the output", got=sorted(got), want=sorted(want), seed=seed)
        for k in want:
            check(torch.allclose(got[k], want[k], rtol=1e-12, atol=1e-9), "value of a key", key=k, got=got[k].item(), want=want[k].item(), seed=seed)


def case_any_key(seed):
    """state dict parameters look up any key, also ones that the config does not have, through any number of nodes"""
    r = random.Random(seed)
    cfg = synthetic_config("vc09y-x", {"m": {"k0": ([1], "float64", ["x0"], False), "k1": ([1], "float64", [], False)}})
    look = define_method("def vc9y_look(a: Parameter(StateDict[Tensor]), n: Parameter(str), b: Parameter(Tensor)) -> Return(Tensor):\n    return a[n] * 8 + b\n", "vc9y_look", {})
    pair = define_method("def vc9y_pair(a: Parameter(Tensor), b: Parameter(Tensor), **kwargs) -> Return(Tensor):\n    return a * 2 + b * 3 + len(kwargs['key']) * torch.ones(1, dtype=torch.float64)\n", "vc9y_pair", {})
    names = ["k0", "k1", "x0", "extra", "", "a.b"]
    with scratch() as d:
        leaves = []
        for i in range(2):
            sd = {n: torch.tensor([float(r.randrange(1, 50))], dtype=torch.float64) for n in names if n in ("k0", "k1") or r.random() < 0.7}
            if r.random() < 0.5 and "" not in sd:
                write_st(d / f"{i}.safetensors", sd)
                leaves.append((sd, ModelRecipeNode(d / f"{i}.safetensors", model_config=cfg)))
            else:
                leaves.append((sd, LiteralRecipeNode(dict(sd), model_config=cfg, merge_space="weight")))
        (sa, a), (sb, b) = leaves
        n = r.choice(names)
        deep = r.random() < 0.5
        got = sd_mecha.merge(look(pair(a, b) if deep else a, n, b), threads=0, output_dtype=torch.float64, total_buffer_size=r.choice([0, 4096]))
        present = n in sa and (not deep or n in sb)
        at = (2 * sa[n] + 3 * sb[n] + len(n) if deep else sa[n]) if present else None
        want = {k: at * 8 + sb[k] for k in ("k0", "k1")} if present else {}
        check(set(got) == set(want), "keys of the output", got=sorted(got), want=sorted(want), looked_up=n, deep=deep)
        for k in want:
            check(torch.equal(got[k], want[k]), "value of a key", key=k, looked_up=n, got=got[k].item(), want=want[k].item())


def case_empty(where):
    """a dictionary without entries lacks every key"""
    cfg = synthetic_config("vc09z-x", {"m": {"k0": ([1], "float64", [], False), "k1": ([1], "float64", [], False)}})
    a = LiteralRecipeNode({"k0": torch.ones(1, dtype=torch.float64), "k1": torch.ones(1, dtype=torch.float64)}, model_config=cfg, merge_space="weight")
    add = define_method("def vc9z_add(a: Parameter(Tensor, 'weight'), b: Parameter(Tensor, {'weight', 'param'})) -> Return(Tensor, 'weight'):\n    return a + b\n", "vc9z_add", {})
    b = {"node": lambda: LiteralRecipeNode({}, model_config=cfg, merge_space="weight"), "param": lambda: LiteralRecipeNode({}, model_config=cfg)}[where]()
    got = sd_mecha.merge(add(a, b), threads=0, output_dtype=torch.float64)
    check(not got, "a key that an input lacks was written", got=sorted(got), where=where)


def case_errors(seed):
    """missing keys skip one output key; any other error aborts, also next to missing keys, in every order of evaluation"""
    r = random.Random(seed)
    keys = [f"k{i}" for i in range(4)]
    cfg = synthetic_config("vc09e-x", {"m": {k: ([1], "float64", [], False) for k in keys}})
    raising = r.choice([None, *[e for e in ERRORS if e not in (KeyboardInterrupt, merging.StateDictKeyError)]])
    at = r.choice(keys)
    boom = define_method("def vc9_boom(a: Parameter(Tensor), n: Parameter(int), **kwargs) -> Return(Tensor):\n    return BOX[n](a, kwargs['key'])\n", "vc9_boom", dict(BOX=BOX))

    def fn(a, key):
        if raising is not None and key == at:
            raise raising("vc9")
        return a
    BOX[seed] = fn
    pair = define_method("def vc9_sum(*a: Parameter(Tensor)) -> Return(Tensor):\n    return sum(a)\n", "vc9_sum")
    try:
        leaves, sds = [], []
        for i in range(3):
            sd = {k: torch.tensor([float(r.randrange(1, 9))]) for k in keys if r.random() < 0.6}
            sd = sd or {"k0": torch.ones(1)}
            sds.append(sd)
            leaves.append(LiteralRecipeNode(sd, model_config=cfg, merge_space="weight"))
        full = LiteralRecipeNode({k: torch.ones(1) for k in keys}, model_config=cfg, merge_space="weight")
        b = boom(full, seed)
        for _ in range(r.randrange(0, 3)):
            b = pair(b)
        for i in range(3):
            for _ in range(r.randrange(0, 3)):
                leaves[i] = pair(leaves[i])
        parts = leaves + [b]
        r.shuffle(parts)
        err = got = None
        try:
            got = sd_mecha.merge(pair(*parts), threads=r.choice([0, 0, 2]), output_dtype=torch.float64)
        except Exception as e:
            err = e
        if raising is not None:
            check(type(err) is raising or type(err) is RuntimeError and raising is StopIteration, "an error must abort the merge", raising=raising.__name__, err=repr(err))
        else:
            want = {k: sum(s[k] for s in sds) + 1 for k in keys if all(k in s for s in sds)}
            check(err is None and set(got) == set(want), "keys", err=repr(err), got=got and sorted(got), want=sorted(want))
            check(all(torch.equal(got[k], want[k].double()) for k in want), "values")
    finally:
        del BOX[seed]


BOX = {}


def case_read_error(alias_present, fallback):
    """a tensor that cannot be read is not a missing key"""
    cfg = synthetic_config("vc09r-x", {"m": {"k0": ([4], "float32", ["x0"], False), "k1": ([4], "float32", [], False)}})
    ts = {"k1": torch.ones(4), **({"x0": torch.full((4,), 2.0)} if alias_present else {}), "k0": torch.full((4,), 3.0)}
    with scratch() as d:
        write_st(d / "a.safetensors", ts)
        b = (d / "a.safetensors").read_bytes()
        (d / "a.safetensors").write_bytes(b[:-1])
        node = ModelRecipeNode(d / "a.safetensors", model_config=cfg)
        if fallback:
            node = node | LiteralRecipeNode({"k0": torch.zeros(4)}, model_config=cfg, merge_space="weight")
        try:
            got = sd_mecha.merge(node, threads=0)
        except Exception:
            return
        check(False, "an unreadable tensor was replaced or skipped", got=got)


class Failing(dict):
    """a state dict some of whose entries cannot be read"""

    def __init__(self, entries, bad, error):
        super().__init__(entries)
        self.bad, self.error = bad, error

    def __getitem__(self, key):
        if key in self.bad:
            raise self.error("vc9")
        return super().__getitem__(key)


def case_failing_entry(error, seed):
    """an entry that is present but cannot be read aborts the merge, whatever else could stand in for it"""
    r = random.Random(seed)
    error = {e.__name__: e for e in ERRORS}[error]
    cfg = synthetic_config("vc09f-x", {"m": {"k0": ([1], "float32", ["z0", "a0", "m0"], False), "k1": ([1], "float32", [], False)}})
    order = ["k0", "z0", "a0", "m0"]
    first = r.randrange(4)
    present = [order[first], *(n for n in order[first + 1:] if r.random() < 0.7), "k1"]
    sd = {n: torch.tensor([float(i + 1)]) for i, n in enumerate(present)}
    order_in_dict = list(sd)
    r.shuffle(order_in_dict)
    sd = {n: sd[n] for n in order_in_dict}
    good = Failing(sd, [n for n in order[first + 1:] if n in sd], error)
    bad = Failing(sd, [order[first]], error)

    def leaf(x):
        n = LiteralRecipeNode(x, model_config=cfg, merge_space="weight")
        n = n if r.random() < 0.5 else n | LiteralRecipeNode({"k0": torch.zeros(1), "k1": torch.zeros(1)}, model_config=cfg, merge_space="weight")
        return n if r.random() < 0.5 else sd_mecha.n_average(n, n)
    got = sd_mecha.merge(leaf(good), threads=r.choice([0, 2]), merge_dtype=None, output_dtype=None, merge_device=None, output_device=None)
    check(set(got) == {"k0", "k1"} and torch.equal(got["k0"], sd[order[first]]), "the first present name determines the value", present=order_in_dict, got=got)
    try:
        got = sd_mecha.merge(leaf(bad), threads=r.choice([0, 2]), merge_dtype=None, output_dtype=None, merge_device=None, output_device=None)
    except BaseException as e:
        check(type(e) is error or error is StopIteration and type(e) is RuntimeError, "another error is raised", error=repr(e))
        return
    check(False, "an unreadable tensor was replaced or skipped", got=got, error=error.__name__)


def case_received(seed):
    """every argument reaches the parameter it was given for, also null and other false values"""
    r = random.Random(seed)
    kinds = {"int": [None, 0, 3, -1], "str": [None, "", "x", "k0"], "float": [None, 0.0, 1.5], "bool": [None, False, True], "Tensor": [None]}
    npos, nkw = r.randrange(1, 5), r.randrange(0, 4)
    types = [r.choice(list(kinds)) for _ in range(npos + nkw + 1)]
    var = r.random() < 0.4
    parts = ["base: Parameter(Tensor, 'weight')", *(f"p{i}: Parameter({types[i]}, 'param')" for i in range(npos))]
    parts += [f"*rest: Parameter({types[-1]}, 'param')"] if var else ["*"] if nkw else []
    parts += [f"k{i}: Parameter({types[npos + i]}, 'param')" for i in range(nkw)]
    seen = []
    name = "vc9_received"
    m = define_method(f"def {name}({', '.join(parts)}) -> Return(Tensor, 'weight'):\n    seen.append(([{', '.join(f'p{i}' for i in range(npos))}{', *rest' if var else ''}], [{', '.join(f'k{i}' for i in range(nkw))}]))\n    return base\n", name, dict(seen=seen), register=False, fresh=True)
    cfg = synthetic_config("vc09d-x", {"m": {"k0": ([1], "float64", [], False)}})
    base = LiteralRecipeNode({"k0": torch.ones(1)}, model_config=cfg, merge_space="weight")
    args = [r.choice(kinds[types[i]]) for i in range(npos)] + [r.choice(kinds[types[-1]]) for _ in range(r.randrange(0, 4) if var else 0)]
    kws = [r.choice(kinds[types[npos + i]]) for i in range(nkw)]
    sd_mecha.merge(m(base, *args, **{f"k{i}": v for i, v in enumerate(kws)}), threads=0)
    check(len(seen) == 1 and same_value(seen[0], (args, kws)), "what the method received", got=seen, want=(args, kws))


def case_deep(depth, side):
    """very unbalanced graphs"""
    cfg = synthetic_config("vc09d-x", {"m": {"k0": ([1], "float64", [], False)}})
    m = define_method("def vc9_dig(a: Parameter(Tensor), b: Parameter(Tensor)) -> Return(Tensor):\n    return (a * 3 + b * 5) % 1009\n", "vc9_dig")
    leaf = lambda x: LiteralRecipeNode({"k0": torch.tensor([float(x)])}, model_config=cfg, merge_space="weight")
    node, val = leaf(1), 1
    for i in range(depth):
        x = 2 + i % 7
        node, val = (m(node, leaf(x)), (val * 3 + x * 5) % 1009) if side == "left" or side == "both" and i % 2 else (m(leaf(x), node), (x * 3 + val * 5) % 1009)
    got = sd_mecha.merge(node, threads=0, output_dtype=torch.float64)
    check(got["k0"].item() == val, "value of a deep graph", got=got["k0"].item(), want=val)


CASES = {f.__name__[5:]: f for f in (case_graph, case_errors, case_deep, case_read_error, case_failing_entry, case_received, case_any_key, case_empty)}


def suite(S):
    r = S.rng
    for a in (False, True):
        for f in (False, True):
            S.run("read_error", alias_present=a, fallback=f)
    for e in ERRORS:
        if not issubclass(e, (KeyError, KeyboardInterrupt)):
            for _ in range(3):
                S.run("failing_entry", error=e.__name__, seed=r.randrange(10**9))
    for where in ("node", "param"):
        S.run("empty", where=where)
    for _ in range(40):
        S.run("any_key", seed=r.randrange(10**9))
    for _ in range(30):
        S.run("received", seed=r.randrange(10**9))
    for depth in (1, 2, 5, 9):
        for side in ("left", "right", "both"):
            S.run("deep", depth=depth, side=side)
    while S.more():
        S.run("graph", seed=r.randrange(10**9), threads=0 if r.random() < 0.9 else 3)
        if r.random() < 0.1:
            S.run("any_key", seed=r.randrange(10**9))
        if r.random() < 0.5:
            S.run("errors", seed=r.randrange(10**9))
