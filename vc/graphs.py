"""
Directed graphs of any size, and the `while` loops and containers of a shortest-path search over them.

A graph has n edges conv(0..n-1) (n arbitrary); an edge e leads from source(e) to target(e).  The distance from a start node is axiomatised:
0 at the start, at most one more across an edge, and attained by some last edge wherever it is finite.
"""
import functools
import heapq
import math
import z3
from . import core
from .core import Unsupported, PathEnd, pyraise
from .values import *
from . import rt

V = val_sort()
source, target = z3.Function("source", V, V), z3.Function("target", V, V)


def node(v):
    if type(v) is SVal:
        return v.e
    if type(v) is str:
        return lit(v)
    raise Unsupported(f"{type(v).__name__} as a node of an arbitrary graph")


class Stale(Model):
    """a local that a loop contract says nothing about"""


def _stale(*a):
    raise Unsupported("a local that the loop contract says nothing about")


for _n in "bool eq ne lt le gt ge add radd sub rsub getitem setitem contains iter len call getattr hash".split():
    setattr(Stale, f"__{_n}__", _stale)


def forget(loop, keep):
    """everything the loop may have changed and that its contract does not describe must not be relied on"""
    loc = loop.locals()
    for n in loop.used:
        if n not in keep and isinstance(loc.get(n), (list, dict, set)) and not is_sym(loc[n]):
            raise Unsupported(f"{loop.func}: the loop at line {loop.line} may change {n}, which its contract does not describe")
    return {n: Stale() for n in loop.assigned if n not in keep}


class Edges:
    """the edges of an arbitrary graph, in an arbitrary order, parallel edges and loops included"""

    def __init__(self, c, name="edges"):
        self.n = c.int(f"{name}.n", lo=0)
        self.conv = c.fun(f"{name}.conv", z3.IntSort(), V)
        j = z3.Int("j")
        self.has = lambda e, n=None: z3.Exists([j], z3.And(0 <= j, j < (self.n if n is None else n), self.conv(j) == e))
        self.key = c.fun(f"{name}.key", V, z3.BoolSort())       # nodes that are listed (possibly without edges)

    def inside(self, j, n=None):
        return z3.And(0 <= j, j < (self.n if n is None else n))

    def distance(self, c, start):
        """the distance from the start: finite(v), length(v)"""
        fin, dl, last = c.fun("finite", V, z3.BoolSort()), c.fun("length", V, z3.IntSort()), c.fun("last", V, z3.IntSort())
        j, v = z3.Int("j"), z3.Const("v", V)
        s, t = source(self.conv(j)), target(self.conv(j))
        c.assume(z3.And(fin(start), dl(start) == 0))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(self.inside(j), fin(s)), z3.And(fin(t), dl(t) <= dl(s) + 1)), patterns=[self.conv(j)]))
        e = self.conv(last(v))
        c.assume(z3.ForAll([v], z3.Implies(fin(v), z3.And(dl(v) >= 0, z3.Implies(v != start, z3.And(self.inside(last(v)), target(e) == v, fin(source(e)), dl(source(e)) + 1 == dl(v))))), patterns=[fin(v)]))
        return fin, dl, lambda v: source(self.conv(last(v)))


class Graph(Model):
    """{node: [(target, edge), ...]} of the first n edges"""
    pytype = dict

    def __init__(self, edges, n=None, wrap=lambda e: SVal(e=e)):
        self.edges, self.n, self.wrap = edges, edges.n if n is None else n, wrap

    def dom(self, v):
        return self.edges.key(v)

    def __contains__(self, k):
        return core.ctx().branch(self.dom(node(k)), "listed node")

    def __getitem__(self, k):
        if k not in self:
            pyraise(KeyError(k))
        return Successors(self, node(k))

    def get(self, k, default=None):
        return Successors(self, node(k)) if k in self else default

    def vc_comp(self, kind, fn):
        if kind != "dict":
            raise Unsupported("list or set of the nodes of an arbitrary graph")
        k = SVal("node", str)
        out = list(fn(iter([k])))
        if len(out) != 1 or out[0][0] is not k or not (out[0][1] is None or out[0][1] == math.inf):
            raise Unsupported("a dictionary of the nodes of an arbitrary graph with values other than None or inf")
        return NodeMap(self.dom, lambda v: z3.BoolVal(True), None, out[0][1])

    def __iter__(self):
        return rt.iter_symbolic(self)


class Successors(Model):
    pytype = list

    def __init__(self, g, at):
        self.g, self.at = g, at

    def __iter__(self):
        return rt.iter_symbolic(self)

    def vc_loop(self, loop):
        contract = core.ctx().__dict__.get("successor_loop")
        if contract is None:
            raise Unsupported(f"loop over the successors of an arbitrary node at {loop.func}:{loop.line}")
        return contract(loop, self)


class NodeMap(Model):
    """a dictionary from nodes to numbers or inf (special=inf), or to nodes or edges or None (special=None)"""
    pytype = dict

    def __init__(self, dom, spec, val, special):
        self.dom, self.spec, self.val, self.special = dom, spec, val, special

    def havoc(self, c, name):
        sort = z3.IntSort() if self.special is not None else V
        self.dom, self.spec, self.val = c.fun(f"{name}.dom", V, z3.BoolSort()), c.fun(f"{name}.special", V, z3.BoolSort()), c.fun(name, V, sort)

    def default(self):
        return z3.IntVal(0) if self.special is not None else z3.Const("novalue", V)

    def __contains__(self, k):
        return core.ctx().branch(self.dom(node(k)), "known node")

    def _read(self, x):
        if self.val is None or core.ctx().branch(self.spec(x), "no value yet"):
            return self.special
        return mkint(self.val(x)) if self.special is not None else SVal(e=self.val(x), pytype=str)

    def __getitem__(self, k):
        if k not in self:
            pyraise(KeyError(k))
        return self._read(node(k))

    def get(self, k, default=None):
        return self._read(node(k)) if k in self else default

    def __setitem__(self, k, v):
        x, old = node(k), self.__dict__.copy()
        oval = (lambda y: self.default()) if old["val"] is None else old["val"]
        self.dom = lambda y: z3.Or(y == x, old["dom"](y))
        if v is None and self.special is None or type(v) is float and v == self.special:
            self.spec = lambda y: z3.Or(y == x, old["spec"](y))
            return
        e = zint(v) if self.special is not None else v.e if getattr(v, "e", None) is not None else node(v)
        self.spec = lambda y: z3.And(y != x, old["spec"](y))
        self.val = lambda y: z3.If(y == x, e, oval(y))

    def __iter__(self):
        return rt.iter_symbolic(self)


class Heap(Model):
    """a priority queue of (number, node): which pairs are in it"""
    pytype = list

    def __init__(self, has, on_min=None):
        self.has, self.on_min = has, on_min

    def __bool__(self):
        c = core.ctx()
        d, v = z3.Int("d"), z3.Const("v", V)
        if c.choice(2, "the queue is empty") == 0:
            d0, v0 = c.int("some.d"), z3.Const(c.name("some.v"), V)
            c.assume(self.has(d0, v0))
            if not c.feasible():
                raise PathEnd()
            return True
        c.assume(z3.ForAll([d, v], z3.Not(self.has(d, v))))
        if not c.feasible():
            raise PathEnd()
        if self.on_min:
            self.on_min(None)
        return False

    def __iter__(self):
        return rt.iter_symbolic(self)


@rt.handler(heapq.heappop)
def _heappop(args, kwargs):
    h, = args
    if type(h) is not Heap:
        return NotImplemented
    c = core.ctx()
    d, v = z3.Int("d"), z3.Const("v", V)
    dm, vm, keep, has = c.int("min.d"), z3.Const(c.name("min.v"), V), z3.Bool(c.name("duplicate")), h.has
    c.assume(has(dm, vm))       # non-emptiness is the obligation of the caller
    c.assume(z3.ForAll([d, v], z3.Implies(has(d, v), d >= dm)))
    if h.on_min:
        h.on_min(dm)
    h.has = lambda d, v: z3.And(has(d, v), z3.Or(d != dm, v != vm, keep))
    return mkint(dm), SVal(e=vm, pytype=str)


@rt.handler(heapq.heappush)
def _heappush(args, kwargs):
    h, item = args
    if type(h) is not Heap:
        return NotImplemented
    if type(item) is not tuple or len(item) != 2:
        raise Unsupported("another kind of entry in a priority queue")
    x, y, has = zint(item[0]), node(item[1]), h.has
    h.has = lambda d, v: z3.Or(has(d, v), z3.And(d == x, v == y))


class Chain(Model):
    """a list of edges; in order (or in reverse order) they lead from the node `first` to the node `last` if `valid`"""
    pytype = list

    def __init__(self, first, last, length, valid, backwards=True):
        self.first, self.last, self.length, self.valid, self.backwards = first, last, length, valid, backwards

    def _prepend(self, edge):
        e = edge.e
        self.valid = z3.And(self.valid, core.ctx().is_edge(e), target(e) == self.first)
        self.first, self.length = source(e), self.length + 1

    def append(self, edge):
        if not self.backwards:
            raise Unsupported("append to a chain in order")
        self._prepend(edge)

    def insert(self, i, edge):
        if self.backwards or i != 0:
            raise Unsupported("insert into a chain")
        self._prepend(edge)

    def reverse(self):
        self.backwards = not self.backwards

    def vc_len(self):
        return mkint(self.length)

    def __getitem__(self, i):
        if type(i) is slice and i == slice(None, None, -1):
            return Chain(self.first, self.last, self.length, self.valid, not self.backwards)
        raise Unsupported("item of an arbitrary chain")

    def __iter__(self):
        return rt.iter_symbolic(self)

    def vc_loop(self, loop):
        contract = core.ctx().__dict__.get("chain_loop")
        if contract is None:
            raise Unsupported(f"loop over an arbitrary chain at {loop.func}:{loop.line}")
        return contract(loop, self)


@rt.handler(functools.reduce)
def _reduce(args, kwargs):
    contract = core.ctx().__dict__.get("chain_reduce")
    if len(args) != 3 or type(args[1]) is not Chain or contract is None:
        return NotImplemented
    return contract(*args)
