"""C18 Model configs survive a YAML round trip"""
import collections
from collections import OrderedDict
import yaml
from vc import rt
from vc.report import Proof
from vc.core import pyraise, Unsupported
from vc.values import Model, SInt, mkint
from vc.strings import any_string, SStr
from .common import *

ID = "C18"
LEVEL = "proof"
TRUSTED = [
    "PyYAML: reading what safe_dump wrote gives plain data (dicts in their order, lists, strings, numbers, booleans, null) back unchanged (cross-checked with unusual strings)",
    "dataclasses.fields, is_dataclass; torch's dtype names and torch.Size",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = [
    "an arbitrary mapping or list is seen through one arbitrary entry: its loops and comprehensions treat every entry separately (what they read of earlier entries is refused)",
    "concurrent calls of to_yaml are not considered (it sets PyYAML's global representers while it writes)",
]
NOTE = ("Proved for configs with any number of components, keys and aliases, with any names and shapes and every torch dtype, over PyYAML's round trip of plain data. "
        "PyYAML itself, all builtin configs and unusual strings: concrete cases.")
PROOF_BUDGET = 60
SUITE_BUDGET = 11
mc = model_configs


# ----------------------------------------------------------------- collections of any size, seen through one arbitrary entry
class Base:
    """an arbitrary sequence; what is derived from it entry by entry has the same length and order"""
    def __init__(self, c, name):
        self.c, self.name, self._nonempty = c, name, None

    def nonempty(self):
        if self._nonempty is None:
            self._nonempty = bool(self.c.choice(2, f"{self.name} has entries"))
        return self._nonempty


class Map(Model):
    pytype = dict

    def __init__(self, base, key, value, pytype=dict, source=None):
        self.base, self.key, self.value, self.pytype = base, key, value, pytype
        self.source = key if source is None else source

    @property
    def __class__(self):
        return self.pytype

    def __bool__(self):
        return self.base.nonempty()

    def items(self):
        return Entries(self.base, (self.key, self.value))

    def keys(self):
        return Entries(self.base, self.key)

    def values(self):
        return Entries(self.base, self.value)

    def __contains__(self, k):
        return bool(self.base.c.choice(2, f"{k!r} among the names of {self.base.name}"))

    def vc_loop(self, loop):
        return self.keys().vc_loop(loop)

    def vc_comp(self, kind, fn):
        return self.keys().vc_comp(kind, fn)

    def copy(self):
        return Map(self.base, self.key, self.value, self.pytype)

    def __hash__(self):
        return id(self)

    def __getattr__(self, n):
        raise AttributeError(n)


class Entries(Model):
    """an iterable of any length: a list, a tuple, a Size, or a view or generator"""
    def __init__(self, base, entry, pytype=collections.abc.Iterable):
        self.base, self.entry, self._type = base, entry, pytype

    @property
    def __class__(self):
        t = self._type
        return type(x for x in ()) if t is collections.abc.Iterable else t

    def __bool__(self):
        return self.base.nonempty()

    def vc_comp(self, kind, fn):
        out = list(fn(iter([self.entry])))
        self.base.c.prove("every entry is carried over", len(out) == 1)
        if kind == "dict":
            return Map(self.base, *out[0])
        return Entries(self.base, out[0], {"list": list, "set": set}.get(kind, collections.abc.Iterable))

    def vc_loop(self, loop):
        fresh = {n: v for n, v in loop.locals().items() if type(v) in (dict, OrderedDict, list) and not v and n in mutated(loop)}
        recs = {n: Recorder(type(v)) for n, v in fresh.items()}
        loop.vars = dict(recs)
        yield self.entry
        loop.vars = {}
        for n, r in recs.items():
            if r.pairs is None:
                loop.vars[n] = fresh[n]
                continue
            self.base.c.prove("every entry is carried over", len(r.pairs) == 1)
            x = r.pairs[0]
            loop.vars[n] = Map(self.base, *x, pytype=r.kind) if r.kind is not list else Entries(self.base, x, list)

    def vc_list(self, pytype):
        return Entries(self.base, self.entry, pytype)

    def vc_dict(self, pytype):
        return Map(self.base, *self.entry, pytype=pytype)

    def __hash__(self):
        return id(self)

    def __getattr__(self, n):
        raise AttributeError(n)


def mutated(loop):
    return set(loop.locals())


class Recorder(Model):
    """the collection that a loop fills: only additions are allowed"""
    def __init__(self, kind):
        self.kind, self.pairs = kind, None

    @property
    def __class__(self):
        return self.kind

    def __setitem__(self, k, v):
        self.pairs = (self.pairs or []) + [(k, v)]

    def append(self, v):
        self.pairs = (self.pairs or []) + [v]

    def __hash__(self):
        return id(self)


def as_list(kind):
    def h(a, k):
        if len(a) == 1 and isinstance(a[0], Entries) and type(a[0]) is Entries:
            return a[0].vc_list(kind)
        return NotImplemented
    return h


def as_dict(kind):
    def h(a, k):
        if len(a) == 1 and not k and type(a[0]) is Entries:
            return a[0].vc_dict(kind)
        if len(a) == 1 and not k and type(a[0]) is Map:
            return Map(a[0].base, a[0].key, a[0].value, kind)
        return NotImplemented
    return h


for _t in (list, tuple, torch.Size):
    _old = rt.HANDLERS.get(_t)
    rt.HANDLERS[_t] = (lambda f, old: lambda a, k: r if (r := f(a, k)) is not NotImplemented or old is None else old(a, k))(as_list(_t), _old)
for _t in (dict, OrderedDict):
    _old = rt.HANDLERS.get(_t)
    rt.HANDLERS[_t] = (lambda f, old: lambda a, k: r if (r := f(a, k)) is not NotImplemented or old is None else old(a, k))(as_dict(_t), _old)


# ----------------------------------------------------------------- PyYAML
class Text(Model):
    """what safe_dump wrote: the plain data it stands for"""
    pytype = str

    def __init__(self, data):
        self.data = data

    def __hash__(self):
        return id(self)


class Dumper:
    """records the nodes that the representers make"""
    ignore_aliases = staticmethod(lambda data: True)

    def represent_sequence(self, tag, data, flow_style=None):
        return "seq", tag, data

    def represent_mapping(self, tag, data, flow_style=None):
        return "map", tag, data

    represent_list = represent_dict = None


def stock(kind):
    return yaml.representer.SafeRepresenter.yaml_representers[kind]


class Pyyaml:
    def __init__(self, c, faults=False):
        self.c, self.faults = c, faults
        c.overrides[yaml.safe_dump] = self.safe_dump
        c.overrides[yaml.dump] = self.dump
        c.overrides[yaml.load] = lambda text, Loader=None, **k: self.load(text)
        c.overrides[yaml.safe_load] = lambda text: self.load(text)
        self.order = True

    def safe_dump(self, data, stream=None, **kw):
        return self.dump(data, stream, **kw)

    def dump(self, data, stream=None, Dumper=None, sort_keys=True, **kw):
        if stream is not None:
            raise Unsupported("writing to a stream")
        if self.faults and self.c.choice(2, "writing fails"):
            pyraise(yaml.YAMLError("vc18"))
        self.order = not sort_keys
        return Text(self.node(data))

    def node(self, data):
        c = self.c
        kind = data.__class__
        if kind in (dict, list):
            rep = yaml.SafeDumper.yaml_representers.get(kind)
            if rep is not None and rep is not stock(kind):
                n = rep(Dumper(), data)
                want = ("seq", "tag:yaml.org,2002:seq") if kind is list else ("map", "tag:yaml.org,2002:map")
                c.prove("collections are written as what they are", isinstance(n, tuple) and n[:2] == want and n[2] is data)
        if type(data) is Map:
            c.prove("the names are written as strings", data.key.__class__ is str)
            return Map(data.base, data.key, self.node(data.value))
        if type(data) is Entries and kind is list:
            return Entries(data.base, self.node(data.entry), list)
        if type(data) is dict:
            c.prove("the names are written as strings", all(k.__class__ is str for k in data))
            return {k: self.node(v) for k, v in data.items()}
        if type(data) is list:
            return [self.node(v) for v in data]
        c.prove("only plain data are written", data is None or type(data) in (str, int, bool, float, SStr, SInt), detail=f"{type(data).__name__} {kind.__name__} {str(data)[:80]}")
        return data

    def load(self, text):
        if type(text) is not Text:
            raise Unsupported("YAML text of unknown origin")
        return text.data




# ----------------------------------------------------------------- contracts
DTYPES = sorted({v for v in vars(torch).values() if isinstance(v, torch.dtype)}, key=str)


def an_identifier(c):
    return "vc18.any+1-impl_2"


def any_metadata(c, full):
    if not full:
        return mc.KeyMetadata(Entries(Base(c, "the dimensions"), mkint(c.int("dim")), list), "float16", Entries(Base(c, "the aliases"), any_string("alias"), list), True)
    nal = Base(c, "the aliases")
    how = c.choose(["tuple", "list"], "aliases given as")
    aliases = c.choose(["none", "any"], "aliases")
    aliases = () if aliases == "none" else Entries(nal, any_string("alias"), tuple if how == "tuple" else list)
    given = c.choose(["list", "Size", "tuple", "absent"], "shape given as")
    dims = Base(c, "the dimensions")
    shape = None if given == "absent" else Entries(dims, mkint(c.int("dim", lo=0)), {"list": list, "Size": torch.Size, "tuple": tuple}[given])
    dtype = None if given == "absent" else c.choose(["float32", "bfloat16"], "dtype")
    if dtype is not None and c.choice(2, "dtype object"):
        dtype = getattr(torch, dtype)
    optional = bool(c.choice(2, "optional"))
    return mc.KeyMetadata(shape, dtype, aliases, optional)


def same_seq(c, what, a, b):
    """two sequences of any length, entry by entry"""
    if type(a) is Entries and type(b) is Entries and a.base is b.base:
        c.prove(f"the {what} are the same", a.entry is b.entry or a.entry == b.entry)
    elif type(a) is Entries and not a or type(b) is Entries and not b:
        o = b if type(a) is Entries else a
        c.prove(f"the {what} are the same", type(o) is Entries and not o or type(o) in (tuple, list, torch.Size) and len(o) == 0)
    else:
        c.prove(f"the {what} are the same", type(a) is not Entries and type(b) is not Entries and list(a) == list(b), detail=f"{a} {b}")


def same_metadata(c, a, b):
    c.prove("an entry is metadata of a key", type(b) is mc.KeyMetadata)
    if a.shape is None or b.shape is None:
        c.prove("the shape is the same", a.shape is None and b.shape is None)
    else:
        same_seq(c, "dimensions", a.shape, b.shape)
        c.prove("the shape is a shape", isinstance(b.shape, torch.Size))
    c.prove("the dtype is the same", a.dtype is b.dtype, detail=f"{a.dtype} {b.dtype}")
    same_seq(c, "aliases", a.aliases, b.aliases)
    c.prove("the optional flag is the same", a.optional is b.optional)


class Lazy(mc.LazyModelConfigBase):
    def __init__(self, config):
        super().__init__()
        self.vc_config = config

    @property
    def identifier(self):
        return self.vc_config.identifier

    def create_config(self):
        return self.vc_config


def h_round_trip(c):
    """an arbitrary config: every way to give its entries, then every way to give its collections"""
    full = c.choose(["entries", "collections"], "varied")
    faults = full != "entries" and c.choice(2, "faults") == 1
    y = Pyyaml(c, faults)
    before = dict(yaml.SafeDumper.yaml_representers)
    ncomp, nkeys = Base(c, "the components"), Base(c, "the keys")
    md = any_metadata(c, full == "entries")
    kname, cname = any_string("key"), any_string("component")
    keys = Map(nkeys, kname, md, c.choose([dict, OrderedDict], "keys given as") if full != "entries" else dict)
    comp = keys if full == "entries" or c.choice(2, "component given as its keys") else mc.ModelComponent(keys)
    how = c.choose(["impl", "keywords", "lazy", "lazy lazy"], "config") if full != "entries" else "impl"
    comps = Map(ncomp, cname, comp)
    ident = an_identifier(c)
    config = mc.ModelConfigImpl(ident, comps) if how != "keywords" else mc.ModelConfigImpl(identifier=ident, components=comps)
    for _ in range(how.count("lazy")):
        config = Lazy(config)
    try:
        text = mc.to_yaml(config)
    except yaml.YAMLError:
        c.prove("a failed write leaves PyYAML as it was", dict(yaml.SafeDumper.yaml_representers) == before)
        c.cover("failed")
        return
    c.prove("writing leaves PyYAML as it was", dict(yaml.SafeDumper.yaml_representers) == before)
    got = mc.from_yaml(text)
    c.cover("read back")
    c.prove("the identifier is the same", got.identifier == ident and got.get_architecture_identifier() == "vc18.any+1" and got.get_implementation_identifier() == "impl_2")
    c.prove("the order of components and keys is kept", y.order)
    gc = got.components()
    c.prove("the components are the same, in their order", type(gc) is Map and gc.base is ncomp and same_name(gc.key, cname))
    c.prove("a component is a component", type(gc.value) is mc.ModelComponent)
    gk = gc.value.keys()
    c.prove("the keys are the same, in their order", type(gk) is Map and gk.base is nkeys and same_name(gk.key, kname))
    same_metadata(c, md, gk.value)


def same_name(a, b):
    return a is b or bool(a == b)


def h_small(c):
    """every small config through the real PyYAML contract, without the abstraction of arbitrary collections"""
    Pyyaml(c)
    n = c.choice(3, "components")
    comps = {}
    flat = []
    for i in range(n):
        ks = {}
        for j in range(c.choice(3, f"keys of component {i}")):
            name = c.choose([any_string(f"k{i}{j}"), "shape", "dtype"][: 3 if j == 0 and i == 0 else 1], "name")
            if isinstance(name, SStr):
                name = f"key{i}{j}"
            md = mc.KeyMetadata(c.choose([[], [2], [3, 4]] if i + j == 0 else [[2]], "shape"), "float16", c.choose([(), ("a",), ["b", "a"]] if i + j == 0 else [()], "aliases"), bool(j % 2))
            ks[name] = md
            flat.append((i, name, md))
        if c.choice(2, "dtype too") and "shape" in ks:
            ks["dtype"] = mc.KeyMetadata([1], "float32")
            flat.append((i, "dtype", ks["dtype"]))
        comps[f"comp{i}"] = ks
    config = mc.ModelConfigImpl("vc18-small", comps)
    if c.choice(2, "keys read before"):
        config.keys(), config.metadata(), config.aliases()
    got = mc.from_yaml(mc.to_yaml(config))
    c.cover("read back")
    c.prove("same components in the same order", list(got.components()) == list(comps))
    c.prove("same keys in the same order", [(i, k) for i, x in enumerate(got.components().values()) for k in x.keys()] == [(i, k) for i, k, _ in flat])
    c.prove("same metadata", all((g.shape, g.dtype, list(g.aliases), g.optional) == (m.shape, m.dtype, list(m.aliases), m.optional)
                                 for (_, _, m), g in zip(flat, [v for x in got.components().values() for v in x.keys().values()])))
    c.prove("the same view of all keys", list(got.keys()) == list(config.keys()) and list(got.metadata()) == list(config.metadata()) and list(got.aliases()) == list(config.aliases()))


def h_dtype(c):
    """every dtype that torch has, and its name"""
    Pyyaml(c)
    d = c.choose(DTYPES, "dtype")
    config = mc.ModelConfigImpl("vc18-dtype", {"c": {"k": mc.KeyMetadata([1], d)}})
    got = mc.from_yaml(mc.to_yaml(config))
    c.cover("read back")
    c.prove("the dtype is the same", got.keys()["k"].dtype is d and got.metadata()["k"].dtype is d, detail=str(d))


def proofs():
    return [
        Proof("to_yaml, from_yaml: configs of any size", h_round_trip, budget=40, max_paths=20000),
        Proof("to_yaml, from_yaml: every small config", h_small, kind="bounded", bound="2 components, 2 keys", budget=30, max_paths=20000),
        Proof("to_yaml, from_yaml: every dtype", h_dtype, budget=20),
    ]


# ----------------------------------------------------------------- concrete cross-check
SPECIAL = ["null", "~", "yes", "no", "true", "False", "1", "0x10", "1e3", "1_000", "0o7", ".5", ".inf", ".nan", "2001-01-01", "2001-01-01 10:00:00", "<<", "=", "", " ", "  two", "trailing ", "a: b", "a:b", "a #b", "#c", "- x",
           "-", "?", "? x", "!tag", "&anchor", "*alias", "%dir", "@at", "`tick", "'single'", '"double"', "{x}", "[x]", "a,b", "a\nb", "\n", "a\n\nb", "\ttab", "a\tb", "\r", "a\r\nb", "\\", "\\n", "é", "日本", "🙂", "\x85", "\u2028", "\u2029",
           "\ufeff", "\x00", "\x07", "\x1b", "\x7f", "shape", "dtype", "aliases", "optional", "keys", "identifier", "components", "---", "...", "x" * 200, "y" * 1500, "a " * 80, "a\n " * 60, "1:30", "12:30:45", "|", ">", "a\n b", " a\nb", "N", "Off", "é\n x"]


def same_config(a, b, **info):
    check(a.identifier == b.identifier, "another identifier", got=a.identifier, expected=b.identifier, **info)
    ca, cb = a.components(), b.components()
    check(list(ca) == list(cb), "other components or another order of them", got=list(ca)[:6], expected=list(cb)[:6], **info)
    for n in cb:
        ka, kb = ca[n].keys(), cb[n].keys()
        check(list(ka) == list(kb), "other keys or another order of them", component=n, got=list(ka)[:6], expected=list(kb)[:6], **info)
        for k in kb:
            x, y = ka[k], kb[k]
            check((None if y.shape is None else tuple(y.shape)) == (None if x.shape is None else tuple(x.shape)), "another shape", key=k, got=str(x.shape), expected=str(y.shape), **info)
            check(x.shape is None or isinstance(x.shape, torch.Size), "a shape that is no shape", key=k, **info)
            check(x.dtype is y.dtype, "another dtype", key=k, got=str(x.dtype), expected=str(y.dtype), **info)
            check(list(x.aliases) == list(y.aliases), "other aliases", key=k, got=list(x.aliases), expected=list(y.aliases), **info)
            check(bool(x.optional) == bool(y.optional), "another optional flag", key=k, got=x.optional, expected=y.optional, **info)
    check(list(a.keys()) == list(b.keys()) and list(a.metadata()) == list(b.metadata()) and list(a.aliases()) == list(b.aliases()), "another list of all keys", **info)


def a_name(rng, used):
    while True:
        r = rng.random()
        if r < 0.5:
            n = rng.choice(SPECIAL)
        elif r < 0.75:
            n = "".join(rng.choice(SPECIAL + ["a", "b.", "_"])[:3] for _ in range(rng.randint(1, 4)))
        else:
            n = "".join(rng.choice("abc.-_0123 :'\"\n#[]{},&*!|>%@`\\é🙂") for _ in range(rng.randint(1, 30)))
        if n not in used:
            used.add(n)
            return n


def case_random(seed):
    rng = random.Random(seed)
    used = set()
    comps = OrderedDict()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ks = OrderedDict()
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            shape = None if rng.random() < 0.05 else [rng.choice([0, 1, 2, 320, 2**31]) for _ in range(rng.randint(0, 4))]
            if shape is not None and rng.random() < 0.3:
                shape = torch.Size(shape)
            dtype = None if rng.random() < 0.05 else rng.choice(DTYPES)
            if dtype is not None and rng.random() < 0.5:
                dtype = str(dtype).split(".")[1]
            al = [a_name(rng, used) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            ks[a_name(rng, used)] = mc.KeyMetadata(shape, dtype, rng.choice([list, tuple])(al), rng.random() < 0.4)
        comps[a_name(rng, used)] = mc.ModelComponent(ks) if rng.random() < 0.5 else ks
    ident = "".join(rng.choice("abc019._+") for _ in range(rng.randint(1, 6))) + "-" + "".join(rng.choice("abc019._+") for _ in range(rng.randint(1, 6)))
    config = mc.ModelConfigImpl(ident, comps)
    given = config
    if rng.random() < 0.3:
        given = Lazy(config)
    before = yaml.safe_dump({"b": [1, 2], "a": {"shape": 1, "dtype": 2}})
    got = mc.from_yaml(mc.to_yaml(given))
    check(yaml.safe_dump({"b": [1, 2], "a": {"shape": 1, "dtype": 2}}) == before, "writing a config changed how PyYAML writes other data")
    same_config(got, config)
    same_config(mc.from_yaml(mc.to_yaml(got)), config, pass_="second")


def case_file(seed):
    """a config file next to the user's other files: YamlModelConfig reads what to_yaml wrote"""
    rng = random.Random(seed)
    with scratch() as d:
        ident = f"vc18.{rng.randrange(10**6)}-file_{rng.randrange(10)}"
        config = mc.ModelConfigImpl(ident, {"c": {f"k{i}": mc.KeyMetadata([i], "float16", [f"a{i}", "yes"][: rng.randint(0, 2)], rng.random() < 0.5) for i in range(rng.randint(0, 5))}, "d": {}})
        p = d / f"{ident}.yaml"
        p.write_text(mc.to_yaml(config))
        lazy = mc.YamlModelConfig(p)
        check(lazy.identifier == ident, "a config file has another identifier than its name", got=lazy.identifier)
        same_config(lazy, config)
        same_config(mc.from_yaml(mc.to_yaml(lazy)), config)


def case_identifier(name):
    found = [c for c in mc.get_all() if c.identifier == name]
    check(len(found) == 1 and mc.resolve(name) is found[0], "a builtin config is not found under its identifier", identifier=name)
    c = found[0]
    while hasattr(c, "underlying_config"):
        c._ensure_config()
        c = c.underlying_config
        check(c.identifier == name, "a builtin config has another identifier than it is registered under", registered=name, identifier=c.identifier)
    check(f"{c.get_architecture_identifier()}-{c.get_implementation_identifier()}" == name, "architecture and implementation do not make up the identifier", identifier=name)


def case_builtin(name):
    c = mc.resolve(name)
    got = mc.from_yaml(mc.to_yaml(c))
    same_config(got, c)


CASES = {"random": case_random, "file": case_file, "identifier": case_identifier, "builtin": case_builtin}


def suite(S):
    names = [c.identifier for c in mc.get_all()]
    for n in names:
        S.run("identifier", name=n)
    small = [n for n in names if "blocks" in n]
    for n in small + S.rng.sample([n for n in names if n not in small], 4 if not S.thorough else len(names) - len(small)):
        S.run("builtin", name=n)
    i = 0
    while S.more() and i < (1500 if not S.thorough else 20000):
        S.run("random", seed=S.rng.randrange(10**6))
        if i % 10 == 0:
            S.run("file", seed=S.rng.randrange(10**6))
        i += 1
