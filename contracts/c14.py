"""C14 Model conversion uses a shortest chain of registered conversions, or fails"""
import collections
import functools
import itertools
from vc.report import Proof
from vc import core, graphs
from vc.core import PathEnd, Unsupported, pyraise
from vc.values import *
from .common import *
from sd_mecha import conversion

ID = "C14"
LEVEL = "proof"
TRUSTED = [
    "the registry of conversions is what merge_methods.get_all_converters returns",
    "the config of a recipe is its model_config after its inputs are opened (property C17)",
    "models of heapq.heappush, heapq.heappop and functools.reduce (vc/graphs.py); the distance of a config is axiomatised as that of the last step of a shortest chain plus 1",
    "get_input_configs and get_return_config by their contract (property C07)",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["a chain is a sequence of conversions in which every conversion takes the config that the previous one returns; merge spaces are not searched"]
NOTE = ("Proved for graphs of any size (any number of configs and conversions, parallel ones and loops included): the body of dijkstra under the invariant of its queue, distances and predecessors, "
        "the listing of the conversions, and the application of the chain; partial correctness of the search loop (its termination is only executed), reconstruction of the path with a variant. "
        "For the builtin registry, every pair of configs is decided. Besides, bounded and without contracts for the loops: every registry of up to 2 (quick) or 3 conversions (with parallel ones, loops and every order) among 3 configs, "
        "and every set of conversions among 3 configs (quick) or 4 configs (thorough), compared with an independent breadth-first search. Random larger registries are executed and merged concretely.")
PROOF_BUDGET = 60
SUITE_BUDGET = 8

NAMES = [["vc14-a", "vc14-b", "vc14-c", "vc14-d"], ["vc14-d", "vc14-b", "vc14-a", "vc14-c"]]
_cfg = {}


def config(name):
    if name not in _cfg:
        _cfg[name] = synthetic_config(name, {"c": {f"{name}.k": ([1], "float32", [], False)}}, register=True)
    return _cfg[name]


def converter(src, tgt, i=0, space=None, ret=None, register=False, add=0.0):
    config(src), config(tgt)
    name = f"vc14_{src}_{tgt}_{i}".replace("-", "_")
    sp = f", {space!r}" if space else ""
    rsp = f"{ret!r}, " if ret else ""
    src_key, tgt_key = f"{src}.k", f"{tgt}.k"
    code = (f"def {name}(a: Parameter(StateDict[Tensor]{sp}, model_config={src!r}), **kwargs) -> Return(Tensor, {rsp}model_config={tgt!r}):\n"
            f"    return a[{src_key!r}] + {add}\n")
    kw = dict(register=True, is_conversion=True) if register else dict(register=False)
    return define_method(code, name, **kw)


def chain_length(edges, start, goal):
    """breadth-first search over (source, target) pairs"""
    dist = {start: 0}
    q = collections.deque([start])
    while q:
        x = q.popleft()
        for s, t in edges:
            if s == x and t not in dist:
                dist[t] = dist[x] + 1
                q.append(t)
    return dist.get(goal)


def chain_of(node, recipe):
    """the conversions applied to the recipe, first one first; None if the result is not made of conversions of the recipe"""
    out = []
    while node is not recipe:
        if not isinstance(node, MergeRecipeNode) or len(node.args) != 1 or len(out) > 50:
            return None
        if any(not isinstance(v, LiteralRecipeNode) for v in node.kwargs.values()):
            return None
        out.append(node.merge_method)
        node = node.args[0]
    return out[::-1]


def ends(m):
    (src,) = m.get_input_configs().args_varargs(1)
    return src.identifier, m.get_return_config([src], {}).identifier


# ----------------------------------------------------------------- contracts
_memo = {}


def signatures(c):
    """the input and return configs of a conversion depend on the conversion only (contract, property C07)"""
    def inputs(m):
        if (m, 0) not in _memo:
            with_body = c.overrides.pop(merge_methods.MergeMethod.get_input_configs)
            _memo[m, 0] = m.get_input_configs()
            c.overrides[merge_methods.MergeMethod.get_input_configs] = with_body
        return _memo[m, 0]

    def returns(m, args, kwargs):
        k = m, 1, tuple(getattr(a, "identifier", None) for a in args), tuple((n, getattr(a, "identifier", None)) for n, a in kwargs.items())
        if k not in _memo:
            with_body = c.overrides.pop(merge_methods.MergeMethod.get_return_config)
            _memo[k] = m.get_return_config(args, kwargs)
            c.overrides[merge_methods.MergeMethod.get_return_config] = with_body
        return _memo[k]
    c.overrides[merge_methods.MergeMethod.get_input_configs] = inputs
    c.overrides[merge_methods.MergeMethod.get_return_config] = returns


def verify(c, edges, methods, recipe, start, goal, target, result):
    want = chain_length(edges, start, goal)
    if isinstance(result, ValueError):
        c.cover("no chain")
        c.prove("ValueError only if no chain exists", want is None)
        return
    c.prove("ValueError if no chain exists", want is not None)
    if want is None:
        return
    chain = chain_of(result, recipe)
    c.prove("the result applies conversions to the recipe and nothing else", chain is not None)
    if chain is None:
        return
    c.cover("converted" if chain else "same config")
    c.prove("only registered conversions are used", all(any(m is x for x in methods) for m in chain))
    at = start
    for m in chain:
        s, t = ends(m)
        c.prove("each conversion takes the config of the previous step", s == at)
        at = t
    c.prove("the chain ends at the target config", at == goal)
    c.prove("the chain has the least number of steps", len(chain) == want)


def run(recipe, target):
    try:
        return sd_mecha.convert(recipe, target)
    except ValueError as e:
        return e
    except TypeError as e:
        # a recipe of an unfitting merge space
        return ValueError(str(e)) if "merge space" in str(e) else e


def literal(name, space="weight"):
    return LiteralRecipeNode({f"{name}.k": torch.zeros(1)}, model_config=config(name), merge_space=space)


def h_registry(pick):
    def h(c):
        names = c.choose(NAMES, "names")
        edges = [(names[s], names[t]) for s, t in pick(c)]
        count = collections.Counter()
        methods = []
        for e in edges:
            methods.append(converter(*e, i=count[e]))
            count[e] += 1
        c.overrides[merge_methods.get_all_converters] = lambda: list(methods)
        signatures(c)
        start, goal = names[0], c.choose([names[0], names[1]], "goal")
        recipe = literal(start)
        target = ["identifier", "config", "recipe"][(len(edges) + sum(ord(x[-1]) for e in edges for x in e)) % 3]
        t = {"identifier": goal, "config": config(goal), "recipe": literal(goal)}[target]
        verify(c, edges, methods, recipe, start, goal, t, run(recipe, t))
    return h


def pick_sequences(n, m):
    """every sequence of up to m conversions among n configs, loops and parallel conversions included"""
    pairs = list(itertools.product(range(n), repeat=2))

    def pick(c):
        return [c.choose(pairs, "conversion") for _ in range(c.choice(m + 1, "number of conversions"))]
    return pick


def pick_sets(n):
    """every set of conversions between different configs, in both orders of registration"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]

    def pick(c):
        s = [p for p in pairs if c.choice(2, f"{p[0]} to {p[1]}")]
        return s[::-1] if c.choice(2, "reversed") else s
    return pick


def h_builtin(c):
    """every pair of builtin configs, with the actual registry"""
    configs = [x for x in model_configs.get_all() if not x.identifier.startswith("vc")]
    methods = [m for m in merge_methods.get_all_converters() if not m.get_identifier().startswith("vc")]
    c.overrides[merge_methods.get_all_converters] = lambda: list(methods)
    signatures(c)
    # a declared config is kept (property C17), so opening the inputs changes nothing here
    c.overrides[merging.open_input_dicts] = lambda recipe, *a, **k: contextlib.nullcontext(recipe)
    edges = [ends(m) for m in methods]
    src = c.choose(configs, "source")
    recipe = LiteralRecipeNode({"k": torch.zeros(1)}, model_config=src, merge_space="weight")
    for tgt in configs:
        target = tgt is configs[0]
        t = tgt if target else tgt.identifier
        verify(c, edges, methods, recipe, src.identifier, tgt.identifier, t, run(recipe, t))
    c.prove("an unknown target is refused", isinstance(run(recipe, "nope-nope"), ValueError))


def h_dictionaries(c):
    """dictionaries: of recipes, the config of these recipes; of tensors, the first inferred config with a chain"""
    names = NAMES[0]
    methods = [converter(names[0], names[1]), converter(names[1], names[2])]
    edges = [ends(m) for m in methods]
    c.overrides[merge_methods.get_all_converters] = lambda: list(methods)
    goal = c.choose(names[:3], "goal")
    from sd_mecha import merging as mg
    groups = c.choose([[], [{3}], [{0}], [{3}, {1}], [{1}, {0}], [{2}, {0}]], "configs inferred from the keys")
    c.overrides[mg.infer_model_configs] = lambda keys, *a, **kw: [{config(names[i]) for i in g} for g in groups]
    kind = c.choose(["tensors", "recipes"], "values")
    if kind == "tensors":
        recipe = {"k": torch.zeros(1)}
        res = run(recipe, goal)
        want = next(((names[i], chain_length(edges, names[i], goal)) for g in groups for i in g if chain_length(edges, names[i], goal) is not None), None)
        if isinstance(res, ValueError):
            c.prove("ValueError only if no inferred config has a chain", want is None)
            return
        c.prove("ValueError if no inferred config has a chain", want is not None)
        if want is None:
            return
        n = res
        chain = []
        while isinstance(n, MergeRecipeNode):
            chain.insert(0, ends(n.merge_method))
            n = n.args[0]
        c.prove("the dictionary is what is converted", isinstance(n, LiteralRecipeNode) and n.value is recipe)
        c.prove("the chain starts at the best inferred config that has one and has the least number of steps", len(chain) == want[1] and (not chain or chain[0][0] == want[0]))
        c.prove("the chain ends at the target", not chain or chain[-1][1] == goal)
    else:
        own = c.choose(names[:3], "config of the recipes")
        recipe = {"k": literal(own)}
        res = run(recipe, goal)
        want = chain_length(edges, own, goal)
        c.prove("ValueError exactly if the config of the recipes has no chain", isinstance(res, ValueError) == (want is None))
        if want is None or isinstance(res, ValueError):
            return
        n, chain = res, []
        while isinstance(n, MergeRecipeNode):
            chain.insert(0, ends(n.merge_method))
            n = n.args[0]
        c.prove("the chain starts at the config of the recipes", len(chain) == want and (not chain or chain[0][0] == own and chain[-1][1] == goal))
        c.prove("the dictionary is what is converted", isinstance(n, LiteralRecipeNode) and n.value is recipe)


def h_special(c):
    """recipes without config, structural recipes, conversions that take any number of inputs, ill-fitting merge spaces"""
    names = NAMES[0]
    kind = c.choose(["number", "structural", "target without config", "variadic", "space"], "kind")
    vname = "vc14_variadic"
    var = define_method(f"def {vname}(*a: Parameter(StateDict[Tensor], model_config='vc14-a'), **kwargs) -> Return(Tensor, model_config='vc14-b'):\n    return a[0]['vc14-a.k']\n", vname, register=False) if config("vc14-a") and config("vc14-b") else None
    plain = converter("vc14-b", "vc14-c")
    delta = converter("vc14-a", "vc14-d", space="delta", ret="delta")
    methods = [var, plain, delta]
    c.overrides[merge_methods.get_all_converters] = lambda: list(methods)
    if kind == "number":
        v = c.choose([0.5, "text", True, None], "value")
        c.prove("a recipe without config is refused with ValueError", isinstance(run(v, "vc14-b"), ValueError))
    elif kind == "structural":
        s = LiteralRecipeNode({"k": torch.zeros(1)}, model_config=model_configs.StructuralModelConfig({}) if hasattr(model_configs, "StructuralModelConfig") else None)
        c.prove("a structural recipe is refused with ValueError", isinstance(run(s, "vc14-b"), ValueError))
    elif kind == "target without config":
        c.prove("a target recipe without config is refused with ValueError", isinstance(run(literal("vc14-a"), LiteralRecipeNode(0.5)), ValueError))
    elif kind == "variadic":
        r = literal("vc14-a")
        verify(c, [ends(m) for m in methods], methods, r, "vc14-a", "vc14-c", None, run(r, "vc14-c"))
    else:
        r = literal("vc14-a", c.choose(["weight", "delta"], "space"))
        res = run(r, "vc14-d")
        if r.merge_space == merge_spaces.resolve("delta"):
            c.prove("a chain that fits the merge space is used", chain_of(res, r) == [delta])
        else:
            c.prove("a chain that does not fit the merge space is refused", isinstance(res, ValueError))


def h_register(c):
    """a conversion can be registered only if it applies to one recipe of a known config"""
    forms = {
        "a: Parameter(StateDict[Tensor], model_config='vc14-a')": True, "*a: Parameter(StateDict[Tensor], model_config='vc14-a')": True,
        "a: Parameter(StateDict[Tensor], model_config='vc14-a'), *, k: Parameter(float) = 1.0": True,
        "a: Parameter(StateDict[Tensor])": False, "*a: Parameter(StateDict[Tensor])": False,
        "a: Parameter(StateDict[Tensor], model_config='vc14-a'), b: Parameter(StateDict[Tensor], model_config='vc14-a')": False,
        "a: Parameter(StateDict[Tensor], model_config='vc14-a'), *, k: Parameter(float)": False,
    }
    config("vc14-a"), config("vc14-b")
    f = c.choose(list(forms), "parameters")
    name = "vc14_register"
    saved = dict(merge_methods._merge_methods_registry), dict(merge_methods._conversion_registry)
    try:
        m = define_method(f"def {name}({f}, **kwargs) -> Return(Tensor, model_config='vc14-b'):\n    return 0\n", name, fresh=True, is_conversion=True)
        ok = True
    except (AssertionError, TypeError, ValueError):
        ok = False
    registered = [m.get_identifier() for m in merge_methods.get_all_converters()]
    for reg, s in zip((merge_methods._merge_methods_registry, merge_methods._conversion_registry), saved):
        reg.clear()
        reg.update(s)
    c.prove("exactly the applicable conversions can be registered", ok == forms[f])
    c.prove("a rejected conversion is not registered", (name in registered) == ok)


# ----------------------------------------------------------------- graphs of any size
class Search:
    """loop contracts of a shortest-path search in an arbitrary graph: the invariant of its queue, distances and predecessors"""

    def __init__(self, c, edges, start):
        self.c, self.edges, self.start = c, edges, start
        self.fin, self.dl, self.before = edges.distance(c, start)
        c.is_edge = self.is_edge
        c.while_loop, c.successor_loop = self.which, self.successors

    def is_edge(self, e):
        return self.edges.has(e)

    def which(self, info):
        used = info[4]
        if {"heap", "distances", "predecessors", "edge_used"} <= set(used):
            return self.search
        if {"predecessors", "edge_used", "node"} <= set(used):
            return self.path
        raise Unsupported(f"{info[1]}: a `while` statement at line {info[2]} without contract")

    # the state of the search
    def known(self, v):
        return z3.And(self.D.dom(v), z3.Not(self.D.spec(v)))

    def good(self, v):
        """the value of a node that was reached, other than the start, is explained by its predecessor"""
        e, u = self.E.val(v), self.P.val(v)
        return z3.And(self.P.dom(v), self.E.dom(v), z3.Not(self.P.spec(v)), z3.Not(self.E.spec(v)), self.is_edge(e), graphs.target(e) == v, graphs.source(e) == u,
                      self.known(u), self.D.val(u) + 1 <= self.D.val(v))

    def relaxed(self, v, n=None):
        j = z3.Int("j")
        e = self.edges.conv(j)
        t = graphs.target(e)
        return z3.ForAll([j], z3.Implies(z3.And(self.edges.inside(j, n), graphs.source(e) == v), z3.And(self.known(t), self.D.val(t) <= self.D.val(v) + 1)), patterns=[e])

    def invariant(self, at=None, upto=None):
        """parts of the invariant; while the edges of the node `at` are relaxed, those below `upto` are"""
        v, d = z3.Const("v", graphs.V), z3.Int("d")
        todo = z3.Or(self.H.has(self.D.val(v), v), self.relaxed(v))
        if at is not None:
            todo = z3.If(v == at, self.relaxed(v, upto), todo)
        yield "the start is at distance 0", z3.And(self.known(self.start), self.D.val(self.start) == 0)
        yield "every listed node is known", z3.ForAll([v], z3.Implies(self.edges.key(v), self.D.dom(v)), patterns=[self.edges.key(v)])
        yield "distances are not negative", z3.ForAll([v], z3.Implies(self.known(v), self.D.val(v) >= 0))
        yield "a reached node has a predecessor that is nearer by at least 1", z3.ForAll([v], z3.Implies(z3.And(self.known(v), v != self.start), self.good(v)))
        yield "queued nodes were reached, at no greater distance", z3.ForAll([d, v], z3.Implies(self.H.has(d, v), z3.And(self.known(v), d >= self.D.val(v))))
        yield "the edges of every reached node are relaxed, or it is queued at its distance", z3.ForAll([v], z3.Implies(self.known(v), todo))

    def minimum(self, d):
        """lemma, by induction over the distance: with nothing queued below d, all nodes at distances below d are known at theirs"""
        c, v = self.c, z3.Const("v", graphs.V)
        low = (lambda x: z3.BoolVal(True)) if d is None else lambda x: self.dl(x) < d
        claim = lambda x: z3.Implies(z3.And(self.fin(x), low(x)), z3.And(self.known(x), self.D.val(x) <= self.dl(x)))
        x = z3.Const(c.name("x"), graphs.V)
        u = self.before(x)
        c.prove("lemma: below everything that is queued, the distances are right", z3.Implies(z3.Implies(x != self.start, claim(u)), claim(x)))
        c.assume(z3.ForAll([v], claim(v), patterns=[self.fin(v)]))

    def state(self, loop):
        loc = loop.locals()
        self.D, self.P, self.E = loc["distances"], loc["predecessors"], loc["edge_used"]
        if not all(type(x) is graphs.NodeMap for x in (self.D, self.P, self.E)) or self.D.special is None or self.P.special is not None or self.E.special is not None:
            raise Unsupported("other kinds of distances or predecessors")
        for x in (self.D, self.P, self.E):
            x.val = (lambda y, x=x: x.default()) if x.val is None else x.val
        heap = loc["heap"]
        if type(heap) is list:
            items = [(zint(a), graphs.node(b)) for a, b in heap]
            heap = graphs.Heap(lambda d, v: z3.Or([z3.And(d == a, v == b) for a, b in items]))
        if type(heap) is not graphs.Heap:
            raise Unsupported("another kind of queue")
        self.H = heap
        return loc

    def havoc(self):
        self.D.havoc(self.c, "D"), self.P.havoc(self.c, "P"), self.E.havoc(self.c, "E")
        f = self.c.fun("H", z3.IntSort(), graphs.V, z3.BoolSort())
        self.H.has, self.H.on_min = (lambda d, v: f(d, v)), self.minimum

    def search(self, loop):
        self.state(loop)
        for name, p in self.invariant():
            self.c.prove(f"before the search: {name}", p)
        self.havoc()
        for _, p in self.invariant():
            self.c.assume(p)
        keep = {"heap", "distances", "predecessors", "edge_used"}
        loop.vars = {**graphs.forget(loop, keep), "heap": self.H}
        self.c.cover("search")
        yield
        self.state(loop)
        for name, p in self.invariant():
            self.c.prove(f"after a step of the search: {name}", p)

    def successors(self, loop, succ):
        self.state(loop)
        c, at = self.c, succ.at
        d0 = self.D.val(at)
        for name, p in self.invariant(at, 0):
            c.prove(f"before the edges of a node: {name}", p)
        c.prove("before the edges of a node: it was reached", self.known(at))
        self.havoc()
        i = c.int("i", lo=0)
        done = c.choice(2, "all edges of the node are relaxed") == 1
        c.assume(i == self.edges.n if done else i < self.edges.n)
        for _, p in self.invariant(at, i):
            c.assume(p)
        c.assume(z3.And(self.known(at), self.D.val(at) == d0))
        keep = {"heap", "distances", "predecessors", "edge_used"}
        loop.vars = {**graphs.forget(loop, keep), "heap": self.H}
        if done:
            return
        e = self.edges.conv(i)
        c.assume(graphs.source(e) == at)        # the edges in between do not start here
        yield SVal(e=graphs.target(e), pytype=str), succ.g.wrap(e)
        self.state(loop)
        for name, p in self.invariant(at, i + 1):
            c.prove(f"after relaxing an edge: {name}", p)
        c.prove("after relaxing an edge: the distance of its source is the same", z3.And(self.known(at), self.D.val(at) == d0))
        raise PathEnd()

    def path(self, loop):
        """the path so far leads from a reached node to the goal, in as many steps as that node is nearer"""
        c, loc = self.c, loop.locals()
        lists = [n for n in loop.used if type(loc.get(n)) is list]
        if len(lists) != 1 or loc[lists[0]] != [] or type(loc.get("node")) is not SVal or (loc["predecessors"], loc["edge_used"]) != (self.P, self.E):
            raise Unsupported("another way to collect the path")
        name, goal = lists[0], loc["node"].e
        c.prove("collecting the path: its end was reached", self.known(goal))
        at = z3.Const(c.name("at"), graphs.V)
        k = c.int("steps", lo=0)
        ch = graphs.Chain(at, goal, k, z3.BoolVal(True))
        c.assume(z3.And(self.known(at), self.D.val(at) + k <= self.D.val(goal)))
        loop.vars = {**graphs.forget(loop, {name, "node"}), name: ch, "node": SVal(e=at, pytype=str)}
        c.cover("path")
        yield
        loc = loop.locals()
        c.prove("a step of the path: the same list", loc[name] is ch)
        n = graphs.node(loc["node"])
        c.prove("a step of the path: it is a chain of edges", ch.valid)
        c.prove("a step of the path: from the node to the goal", z3.And(ch.first == n, ch.last == goal))
        c.prove("a step of the path: as long as the node is nearer", z3.And(self.known(n), self.D.val(n) + ch.length <= self.D.val(goal)))
        c.prove("a step of the path: it terminates", z3.And(self.D.val(n) < self.D.val(at), self.D.val(n) >= 0))


def search_graph(c):
    c.solver.set("timeout", 150)     # satisfiable quantified conditions are not decided: both branches are explored
    edges = graphs.Edges(c)
    j = z3.Int("j")
    e = edges.conv(j)
    c.assume(z3.ForAll([j], z3.Implies(edges.inside(j), z3.And(edges.key(graphs.source(e)), edges.key(graphs.target(e)))), patterns=[e]))
    return edges


def h_dijkstra(c):
    """the body of dijkstra, for every graph"""
    edges = search_graph(c)
    start, goal = SVal("start", str), SVal("goal", str)
    s = Search(c, edges, start.e)
    res = conversion.dijkstra(graphs.Graph(edges), start, goal)
    if res is None:
        c.cover("no chain")
        c.prove("None only if no chain exists", z3.Not(s.fin(goal.e)))
        return
    if type(res) is list:
        res = graphs.Chain(goal.e, goal.e, len(res), z3.BoolVal(res == []), False)
    c.prove("the result is a list of edges in order", type(res) is graphs.Chain and not res.backwards)
    c.cover("chain")
    c.prove("the result is a chain of edges", res.valid)
    c.prove("the chain leads from the start to the goal", z3.And(res.first == start.e, res.last == goal.e))
    c.prove("no chain is shorter", z3.Implies(s.fin(goal.e), res.length <= s.dl(goal.e)))


def h_walks(c):
    """lemma, by induction over its steps: a chain from the start is at least as long as the distance of its end"""
    edges = search_graph(c)
    start, k, i = z3.Const("start", graphs.V), c.int("k", lo=0), c.int("i", lo=0)
    fin, dl, _ = edges.distance(c, start)
    c.prove("a chain without conversions", z3.And(fin(start), dl(start) <= 0))
    e = edges.conv(i)
    u, v = graphs.source(e), graphs.target(e)
    c.assume(z3.And(edges.inside(i), fin(u), dl(u) <= k))
    c.prove("one more conversion", z3.And(fin(v), dl(v) <= k + 1))


class Config(Model):
    pytype = model_configs.ModelConfig

    def __init__(self, e):
        self.identifier = SVal(e=e, pytype=str)


class Applied(Model):
    """a conversion applied to a recipe"""
    pytype = MergeRecipeNode

    def __init__(self, method, arg):
        self.method, self.arg = method, arg


class Conversion(Model):
    """a registered conversion: by contract (property C07) its input and return configs depend on it only"""
    pytype = merge_methods.MergeMethod

    def __init__(self, e):
        self.e = e

    def get_input_configs(self):
        return self

    def args_varargs(self, n=0):
        if n > 1:
            raise Unsupported("more than one input of a conversion")
        return [Config(graphs.source(self.e))]

    @property
    def args(self):
        raise Unsupported("fixed parameters of a conversion")

    kwargs = {}

    def get_return_config(self, args, kwargs):
        (cfg,) = args
        core.ctx().prove("the return config is asked for the input config", z3.And(graphs.source(self.e) == cfg.identifier.e) if type(cfg) is Config else False)
        return Config(graphs.target(self.e))

    def __call__(self, *args, **kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported("a conversion with other arguments")
        return Applied(self, args[0])

    def __eq__(self, o):
        return self is o or type(o) is Conversion and mkbool(self.e == o.e)

    __hash__ = object.__hash__


class Registry(Model):
    """all conversions"""
    pytype = list

    def __init__(self, edges):
        self.edges = edges

    def __iter__(self):
        from vc.rt import iter_symbolic
        return iter_symbolic(self)

    def vc_loop(self, loop):
        """the dictionary that is built lists the conversions so far by the config they take"""
        c, loc, edges = core.ctx(), loop.locals(), self.edges
        dicts = [n for n in loop.used if isinstance(loc.get(n), dict) and not is_sym(loc[n])]
        if len(dicts) != 1 or len(loc[dicts[0]]):
            raise Unsupported("another way to list the conversions")
        name = dicts[0]
        rest = graphs.forget(loop, {name})
        if c.choice(2, "all conversions are listed"):
            loop.vars = {**rest, name: graphs.Graph(edges, wrap=Conversion)}
            return
        i = c.int("conversion", lo=0)
        c.assume(i < edges.n)
        b = Building(edges, i)
        loop.vars = {**rest, name: b}
        m = Conversion(edges.conv(i))
        c.cover("listing")
        yield m
        s, t = graphs.source(m.e), graphs.target(m.e)
        ok = loop.locals()[name] is b and len(b.added) == 1 and type(b.added[0][1]) is tuple and len(b.added[0][1]) == 2
        c.prove("listing a conversion: one entry", ok)
        if ok:
            k, (tgt, conv) = b.added[0]
            c.prove("listing a conversion: under the config it takes", k == s)
            c.prove("listing a conversion: with the config it returns", graphs.node(tgt) == t)
            c.prove("listing a conversion: the conversion itself", type(conv) is Conversion and conv.e == m.e)
        v = z3.Const("v", graphs.V)
        c.prove("listing a conversion: both configs are listed, and no others are", z3.ForAll([v], b.dom(v) == z3.Or(b.before(v), v == s, v == t)))
        raise PathEnd()


class Building(Model):
    """the dictionary of the first n conversions, to which entries are added"""
    pytype = dict

    def __init__(self, edges, n):
        self.before = core.ctx().fun("listed", graphs.V, z3.BoolSort())
        self.keys, self.added = [], []
        j = z3.Int("j")
        e = edges.conv(j)
        core.ctx().assume(z3.ForAll([j], z3.Implies(edges.inside(j, n), z3.And(self.before(graphs.source(e)), self.before(graphs.target(e)))), patterns=[e]))

    def dom(self, v):
        return z3.Or(self.before(v), *(v == k for k in self.keys))

    def __contains__(self, k):
        return core.ctx().branch(self.dom(graphs.node(k)), "listed config")

    def setdefault(self, k, default=None):
        if not (isinstance(default, list) and len(default) == 0):
            raise Unsupported("another default than an empty list")
        self.keys.append(graphs.node(k))
        return Entry(self, graphs.node(k))

    def __getitem__(self, k):
        if k not in self:
            pyraise(KeyError(k))
        return Entry(self, graphs.node(k))

    def __setitem__(self, k, v):
        if k in self or not (isinstance(v, list) and len(v) == 0):
            raise Unsupported("entries that are replaced")
        self.keys.append(graphs.node(k))

    def __iter__(self):
        from vc.rt import iter_symbolic
        return iter_symbolic(self)


class Entry(Model):
    pytype = list

    def __init__(self, b, k):
        self.b, self.k = b, k

    def append(self, x):
        self.b.added.append((self.k, x))

    def __iter__(self):
        from vc.rt import iter_symbolic
        return iter_symbolic(self)


class Source(Model):
    """a recipe of an arbitrary config, or with some conversions applied"""
    pytype = LiteralRecipeNode

    def __init__(self, config=None, chain=None):
        self.model_config, self.chain = config, chain

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def h_convert(c):
    """the body of convert and create_conversion_recipe, for any number of conversions between any configs; dijkstra by its contract"""
    edges = graphs.Edges(c)
    src, goal = z3.Const("src", graphs.V), z3.Const("goal", graphs.V)
    recipe = Source(Config(src))
    exists, k = c.bool("a chain exists"), c.int("steps", lo=0)
    chain = graphs.Chain(src, goal, k, z3.BoolVal(True), False)
    c.overrides[merge_methods.get_all_converters] = lambda: Registry(edges)
    c.overrides[conversion.open_input_dicts] = lambda recipe, *a, **kw: contextlib.nullcontext(recipe)

    def search(graph, start, end):
        c.prove("the search is given all conversions", type(graph) is graphs.Graph and graph.edges is edges)
        c.prove("the search starts at the config of the recipe", graphs.node(start) == src)
        c.prove("the search ends at the target config", graphs.node(end) == goal)
        return chain if c.branch(exists, "a chain exists") else None
    c.overrides[conversion.dijkstra] = search

    def reduce(f, path, init):
        c.prove("the path is applied to the recipe", path is chain and init is recipe)
        some, e = Source(chain="some of the conversions"), z3.Const(c.name("e"), graphs.V)
        m = Conversion(e)
        r = f(some, m)
        c.prove("each conversion is applied to the result of the previous ones", type(r) is Applied and r.method is m and r.arg is some)
        return Source(chain=path)
    c.chain_reduce = reduce

    def loop(loop, path):
        """for conversion in path: x = conversion(x)"""
        loc = loop.locals()
        names = [n for n in loop.assigned if loc.get(n) is recipe]
        if len(names) != 1:
            raise Unsupported("another way to apply the conversions")
        rest = graphs.forget(loop, set(names))
        c.prove("the path is applied to the recipe", path is chain)
        if c.choice(2, "all conversions are applied"):
            loop.vars = {**rest, names[0]: Source(chain=path)}
            return
        some, m = Source(chain="some of the conversions"), Conversion(z3.Const(c.name("e"), graphs.V))
        loop.vars = {**rest, names[0]: some}
        yield m
        r = loop.locals()[names[0]]
        c.prove("each conversion is applied to the result of the previous ones", type(r) is Applied and r.method is m and r.arg is some)
        raise PathEnd()
    c.chain_loop = loop
    structural = src == graphs.node("structural")
    form = c.choose(["identifier", "config", "recipe"], "target")
    target = SVal(e=goal, pytype=str) if form == "identifier" else Config(goal) if form == "config" else Source(Config(goal))
    try:
        res = conversion.convert(recipe, target)
    except ValueError:
        c.cover("refused")
        c.prove("ValueError only if no chain exists, or the recipe is structural", z3.Or(z3.Not(exists), structural))
        return
    c.cover("converted")
    c.prove("ValueError if no chain exists", exists)
    c.prove("the result is the recipe with all conversions of the chain applied in order", type(res) is Source and res.chain is chain)


def proofs():
    return [
        Proof("dijkstra: every graph", h_dijkstra, budget=40, witness="dense"),
        Proof("dijkstra: chains and distances", h_walks, witness="dense"),
        Proof("convert: any number of conversions", h_convert, budget=20, witness="registry"),
        Proof("convert: the builtin registry", h_builtin, witness="builtin"),
        Proof("convert: every sequence of conversions", h_registry(pick_sequences(3, 2)), kind="bounded", bound="3 configs, up to 2 conversions in every order", budget=25, max_paths=10000, witness="registry"),
        Proof("convert: every set of conversions", h_registry(pick_sets(3)), kind="bounded", bound="3 configs", budget=25, max_paths=10000, witness="registry"),
        Proof("convert: every sequence of 3 conversions", h_registry(pick_sequences(3, 3)), kind="bounded", bound="3 configs, up to 3 conversions", budget=60, max_paths=60000, witness="registry", thorough_only=True),
        Proof("convert: every set of conversions among 4 configs", h_registry(pick_sets(4)), kind="bounded", bound="4 configs", budget=150, max_paths=100000, witness="registry", thorough_only=True),
        Proof("convert: dictionaries", h_dictionaries, kind="bounded", bound="up to 2 groups of inferred configs", witness="registry"),
        Proof("convert: special recipes", h_special, witness="special"),
        Proof("merge_method(is_conversion=True)", h_register, witness="special"),
    ]


# ----------------------------------------------------------------- concrete cross-check
_n = [0]


def forgotten(case):
    """what a case registers is forgotten after most of the cases: conversions take longer the more of them there are"""
    @functools.wraps(case)
    def run(seed):
        regs = (merge_methods._merge_methods_registry, merge_methods._conversion_registry, model_configs._model_configs_registry_base, model_configs._model_configs_registry_aux)
        saved = [dict(x) for x in regs]
        try:
            return case(seed)
        finally:
            if seed % 8:
                for reg, s in zip(regs, saved):
                    for k in [k for k in reg if k not in s and "vc14" in k.replace("_", "")]:
                        del reg[k]
    return run


@forgotten
def case_registry(seed):
    rng = random.Random(seed)
    _n[0] += 1
    n = rng.randint(2, 7)
    names = [f"vc14s{seed}x{_n[0]}-{x}" for x in rng.sample("abcdefghijk", n)]
    for i, x in enumerate(names):
        config(x)
    edges, add = [], {}
    for _ in range(rng.randint(0, 12)):
        s, t = rng.choice(names), rng.choice(names)
        add[len(edges)] = rng.randint(1, 9)
        m = converter(s, t, i=len(edges), register=True, add=float(add[len(edges)]))
        edges.append((s, t, m))
    methods = merge_methods.get_all_converters()
    check(all(any(m is x for x in methods) for *_, m in edges), "a registered conversion is not listed")
    for _ in range(4):
        start, goal = rng.choice(names), rng.choice(names)
        form = rng.choice(["literal", "literal", "dict of recipes", "file", "dict"])
        want = chain_length([e[:2] for e in edges], start, goal)
        with scratch() as d:
            value = {f"{start}.k": torch.tensor([0.0])}
            if form == "literal":
                recipe = LiteralRecipeNode(value, model_config=start, merge_space="weight")
            elif form == "dict of recipes":
                recipe = {f"{start}.k": LiteralRecipeNode(value, model_config=start, merge_space="weight")}
            elif form == "dict":
                recipe = value
            else:
                write_st(d / "m.safetensors", value)
                recipe = sd_mecha.model(d / "m.safetensors", start if rng.random() < 0.5 else None)
            target = rng.choice([goal, config(goal), LiteralRecipeNode({f"{goal}.k": torch.zeros(1)}, model_config=goal)])
            try:
                res = sd_mecha.convert(recipe, target)
            except ValueError:
                check(want is None, "a conversion was refused although a chain exists", start=start, goal=goal, form=form, edges=[e[:2] for e in edges])
                continue
            check(want is not None, "a conversion was made although no chain exists", start=start, goal=goal, form=form)
            chain, node = [], res
            while isinstance(node, MergeRecipeNode):
                chain.insert(0, node.merge_method)
                node = node.args[0]
            check(node is recipe or isinstance(recipe, dict) and node.value is recipe, "something else than the recipe was converted")
            check(all(any(m is e[2] for e in edges) for m in chain), "a conversion that is not registered was used")
            at = start
            for m in chain:
                e = next(e for e in edges if e[2] is m)
                check(e[0] == at, "the chain does not fit", chain=[m.get_identifier() for m in chain], start=start)
                at = e[1]
            check(at == goal, "the chain does not end at the target", chain=[m.get_identifier() for m in chain], goal=goal)
            check(len(chain) == want, "the chain is not a shortest one", chain=[m.get_identifier() for m in chain], shortest=want)
            check(bool(chain) or res is recipe or isinstance(recipe, dict), "converting to the same config added something")
            out = sd_mecha.merge(res, merge_device=None, output_device=None, merge_dtype=torch.float64, output_dtype=torch.float64, threads=0, strict_weight_space=False)
            total = sum(add[[e[2] for e in edges].index(m)] for m in chain)
            check(set(out) == {f"{goal}.k"} and float(out[f"{goal}.k"]) == total, "the converted model has other values", out={k: v.tolist() for k, v in out.items()}, expected=total)


@forgotten
def case_chains(seed):
    """several chains of different lengths between the same configs, registered in any order"""
    rng = random.Random(seed)
    _n[0] += 1
    lengths = rng.sample(range(2, 6), rng.randint(2, 3)) if rng.random() < 0.5 else rng.choice([[3, 4], [4, 3], [2, 3], [4, 5], [5, 4]])
    names = [f"vc14l{seed}x{_n[0]}-{x}" for x in rng.sample("abcdefghijklmnop", 2 + sum(n - 1 for n in lengths))]
    for x in names:
        config(x)
    rest, start, goal = names[2:], *names[:2]
    edges = []
    for n in lengths:
        nodes = [start, *rest[:n - 1], goal]
        rest = rest[n - 1:]
        edges += list(zip(nodes, nodes[1:]))
    edges += [tuple(rng.sample(names[1:], 2)) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.4:      # the configs of one of the chains have many other conversions
        last = 2 + sum(n - 1 for n in lengths[:-1])
        which = names[last:last + lengths[-1] - 1] if rng.random() < 0.5 else names[2:2 + lengths[0] - 1]
        sinks = [f"{start}y{i}" for i in range(rng.randint(3, 6))]
        edges += [(x, s) for x in which for s in sinks]
    rng.shuffle(edges)
    for i, (s, t) in enumerate(edges):
        converter(s, t, i=i, register=True, add=1.0)
    recipe = LiteralRecipeNode({"k": torch.zeros(1)}, model_config=start, merge_space="weight")
    for t in [goal, *rng.sample(names[2:], 2)]:
        want = chain_length(edges, start, t)
        chain = chain_of(sd_mecha.convert(recipe, t), recipe)
        check(chain is not None and len(chain) == want, "the chain is not a shortest one", conversions=[(s.split("-")[1], t.split("-")[1]) for s, t in edges],
              source=start.split("-")[1], target=t.split("-")[1], got=chain and len(chain), want=want)


@forgotten
def case_dense(seed):
    """many conversions from every config, and long chains"""
    rng = random.Random(seed)
    _n[0] += 1
    n = rng.randint(6, 13)
    names = [f"vc14w{seed}x{_n[0]}-{x}" for x in rng.sample("abcdefghijklmnop", n)]
    for x in names:
        config(x)
    edges = list(zip(names, names[1:]))     # one long chain, and many conversions that do not shorten it, or do by little
    back = rng.random() < 0.5
    for _ in range(rng.choice([0, 10, 40])):
        i, j = rng.randrange(n), rng.randrange(n)
        if j <= i + (1 if back else 2):
            edges.append((names[i], names[j]))
    rng.shuffle(edges)
    add = {}
    for i, (s, t) in enumerate(edges):
        add[i] = rng.randint(1, 9)
        converter(s, t, i=i, register=True, add=float(add[i]))
    methods = {m.get_identifier(): m for m in merge_methods.get_all_converters()}
    recipe = LiteralRecipeNode({f"{names[0]}.k": torch.zeros(1)}, model_config=names[0], merge_space="weight")
    for t in {names[-1], names[-2], rng.choice(names)}:
        want = chain_length(edges, names[0], t)
        res = sd_mecha.convert(recipe, t)
        chain = chain_of(res, recipe)
        info = dict(conversions=[(s.split("-")[1], t.split("-")[1]) for s, t in edges], source=names[0].split("-")[1], target=t.split("-")[1])
        check(chain is not None and len(chain) == want, "the chain is not a shortest one", got=chain and len(chain), want=want, **info)
        at = names[0]
        for m in chain:
            s, nxt = ends(m)
            check(s == at, "the chain does not fit", **info)
            at = nxt
        check(at == t, "the chain does not end at the target", **info)


def case_space(space, wrap):
    """recipes in other merge spaces than weight: a shortest chain, or ValueError if there is none"""
    _n[0] += 1
    a, b, d = (f"vc14p{_n[0]}-{x}" for x in "abd")
    for x in (a, b, d):
        config(x)
    m = converter(a, d, i=0, register=True, add=1.0, space=space, ret=space)
    r = LiteralRecipeNode({f"{a}.k": torch.zeros(1)}, model_config=a, merge_space=space)
    if wrap and space == "delta":
        w = LiteralRecipeNode({f"{a}.k": torch.zeros(1)}, model_config=a, merge_space="weight")
        r = sd_mecha.subtract(w, w)
    check(chain_of(sd_mecha.convert(r, d), r) == [m], "a chain that fits the merge space is not used", space=space)
    check(sd_mecha.convert(r, a) is r, "converting to the same config added something", space=space)
    for src, t in ((r, b), (LiteralRecipeNode({f"{b}.k": torch.zeros(1)}, model_config=b, merge_space=space), d)):
        try:
            sd_mecha.convert(src, t)
        except ValueError:
            continue
        check(False, "converted although no chain exists", space=space, target=t)


def case_builtin(src):
    methods = [m for m in merge_methods.get_all_converters() if not m.get_identifier().startswith("vc")]
    edges = [ends(m) for m in methods]
    configs = [x for x in model_configs.get_all() if not x.identifier.startswith("vc")]
    recipe = LiteralRecipeNode({"k": torch.zeros(1)}, model_config=src, merge_space="weight")
    for t in configs:
        want = chain_length(edges, src, t.identifier)
        try:
            res = sd_mecha.convert(recipe, t)
        except ValueError:
            check(want is None, "a conversion was refused although a chain exists", target=t.identifier)
            continue
        check(want is not None, "a conversion was made although no chain exists", target=t.identifier)
        chain = chain_of(res, recipe)
        check(chain is not None and len(chain) == want, "the chain is not a shortest one", target=t.identifier)
        at = src
        for m in chain:
            s, nxt = ends(m)
            check(s == at, "the chain does not fit", target=t.identifier)
            at = nxt
        check(at == t.identifier, "the chain does not end at the target", target=t.identifier)


def case_special():
    config("vc14-a"), config("vc14-b")
    for v in (0.5, "text", True, LiteralRecipeNode(1.0)):
        for t in ("vc14-a", "sd1-ldm"):
            try:
                r = sd_mecha.convert(v, t)
            except ValueError:
                continue
            check(False, "a recipe without config was converted", value=v)
    for t in ("nope-nope", "vc14-a"):
        try:
            sd_mecha.convert(LiteralRecipeNode({"k": torch.zeros(1)}, model_config="sd1-ldm", merge_space="weight"), t)
        except ValueError:
            continue
        check(False, "converted although no chain exists", target=t)


@forgotten
def case_dictionary(seed):
    """a dictionary of tensors is converted from the config that shares most keys with it"""
    rng = random.Random(seed)
    _n[0] += 1
    tag = f"vc14d{seed}x{_n[0]}"
    big, small, goal = (f"{tag}-{x}" for x in rng.sample("abcdef", 3))
    keys = [f"{tag}.{i}" for i in range(6)]
    for name, ks in ((big, keys), (small, keys[:4]), (goal, [f"{tag}.g"])):
        synthetic_config(name, {"c": {k: ([1], "float32", [], False) for k in ks}}, register=True)
    for src, v in ((big, 1.0), (small, 2.0)):
        name = f"vc14_{src}".replace("-", "_")
        define_method(f"def {name}(a: Parameter(StateDict[Tensor], model_config={src!r}), **kwargs) -> Return(Tensor, model_config={goal!r}):\n    return a[{keys[0]!r}] + {v}\n", name,
                      register=True, is_conversion=True)
    for ks, v in ((keys, 1.0), (keys[:4], 2.0) if rng.random() < 0.5 else (keys[:5], 1.0)):
        d = {k: torch.zeros(1) for k in ks}
        res = sd_mecha.convert(d, goal)
        out = sd_mecha.merge(res, merge_device=None, output_device=None, merge_dtype=None, output_dtype=None, threads=0, strict_weight_space=False, check_mandatory_keys=False)
        want = {1.0, 2.0} if ks == keys[:4] else {v}
        check(float(out[f"{tag}.g"]) in want, "a dictionary was converted from another config than the one that shares most keys with it", keys=len(ks), got=float(out[f"{tag}.g"]))


CASES = {"dense": case_dense, "space": case_space, "chains": case_chains, "dictionary": case_dictionary, "registry": case_registry, "builtin": case_builtin, "special": case_special}


def suite(S):
    S.run("special")
    for space in ("weight", "delta", "param"):
        for wrap in (False, True):
            S.run("space", space=space, wrap=wrap)
    for x in model_configs.get_all():
        if not x.identifier.startswith("vc"):
            S.run("builtin", src=x.identifier)
    i = 0
    while S.more() and i < (400 if not S.thorough else 1500):
        S.run("registry", seed=S.rng.randrange(10**6))
        S.run("chains", seed=S.rng.randrange(10**6))
        if i % 3 == 0:
            S.run("dense", seed=S.rng.randrange(10**6))
        if i % 4 == 0:
            S.run("dictionary", seed=S.rng.randrange(10**6))
        i += 1
