"""C04 Serializing a recipe and deserializing it back gives the same recipe"""
from vc.report import Proof
from .common import *

ID = "C04"
LEVEL = "proof"
TRUSTED = [
    "str(int)/str(float) consist of the characters 0-9 - (and . + e for floats) and int()/float() invert them; str(float) contains '.' or 'e'",
    "pathlib.Path(str(p)) == p",
    "str.replace of a single character is a homomorphism of strings",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py, vc/strings.py; z3, cvc5",
]
ASSUMPTIONS = ["floats are finite in the contracts (inf and nan are executed by the bounded cross-check)",
               "recipe shapes are bounded in the contracts (stated per contract); the texts, numbers and paths in them are arbitrary"]
PROOF_BUDGET = 60
SUITE_BUDGET = 6


# ----------------------------------------------------------------- contracts
def compare(c, a, b, path="root"):
    """proof obligations: b is the same recipe as a (symbolic leaves)"""
    from vc import rt
    from vc.values import SBool, is_sym

    def eq(name, x, y):
        r = (x == y)
        c.prove(name, r if type(r) is bool else r.e)

    def value(x, y, path):
        c.prove(f"{path}: the type of the literal is kept", (x.__class__ if is_sym(x) else type(x)) is (y.__class__ if is_sym(y) else type(y)))
        if isinstance(x, RecipeNode):
            return compare(c, x, y, path)
        if type(x) is dict:
            c.prove(f"{path}: the number of dictionary entries is kept", len(x) == len(y))
            for n, ((k1, v1), (k2, v2)) in enumerate(zip(x.items(), y.items())):
                eq(f"{path}: dictionary key {n} is kept", k1, k2)
                value(v1, v2, f"{path}[{n}]")
            return
        eq(f"{path}: the literal value is kept", x, y)

    if not isinstance(a, RecipeNode):
        return value(a, b, path)
    c.prove(f"{path}: the kind of node is kept", type(a) is type(b))
    if type(a) is not type(b):
        return
    if isinstance(a, LiteralRecipeNode):
        value(a.value, b.value, path)
    if isinstance(a, ModelRecipeNode):
        eq(f"{path}: the path is kept", a.path, b.path)
    if isinstance(a, (LiteralRecipeNode, ModelRecipeNode)):
        c.prove(f"{path}: the model config is kept", config_id(a.model_config) == config_id(b.model_config))
    if isinstance(a, MergeRecipeNode):
        c.prove(f"{path}: the merge method is kept", a.merge_method is b.merge_method)
        c.prove(f"{path}: the number of arguments is kept", len(a.args) == len(b.args) and list(a.kwargs) == list(b.kwargs))
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            compare(c, x, y, f"{path}.{i}")
        for k in a.kwargs:
            if k in b.kwargs:
                compare(c, a.kwargs[k], b.kwargs[k], f"{path}.{k}")
    c.prove(f"{path}: the merge space is kept", a.merge_space == b.merge_space)


def roundtrip(c, node):
    text = serialization.serialize(node)
    c.cover("serialized")
    back = serialization.deserialize(text)
    c.cover("deserialized")
    compare(c, node, back)
    again = serialization.serialize(back)
    r = (text == again)
    c.prove("serializing the deserialized recipe gives the same text", r if type(r) is bool else r.e)


def leaf(c, kind, name):
    from vc.strings import any_string
    from vc.values import SInt, SReal
    if kind == "text":
        return any_string(name)
    if kind == "int":
        return SInt(c.int(name))
    if kind == "float":
        return SReal(c.real(name))
    return {"true": True, "false": False, "null": None}[kind]


def methods():
    src = "def vc_pair(a: Parameter(T), b: Parameter(T) = 1, *, c: Parameter(T) = 2, d: Parameter(T) = None) -> Return(T, 'weight'): pass"
    src = ("@merge_method\ndef vc_pair(a: Parameter(object_, SP), *rest: Parameter(object_, SP), flag: Parameter(object_, SP)) -> Return(object_, 'weight'):\n    return a\n")
    env = dict(object_=merge_methods.T, SP={"weight", "param", "delta"})
    return define_method(src.replace("@merge_method\n", ""), "vc_pair", env)


def h_literal(kind):
    def h(c):
        roundtrip(c, LiteralRecipeNode(leaf(c, kind, "x")))
    return h


def h_explicit_literal(c):
    kind = c.choose(["text", "int", "float", "true", "null"], "kind")
    space = c.choose(["weight", "delta"], "space")
    roundtrip(c, LiteralRecipeNode(leaf(c, kind, "x"), model_config=c.choose([None, "sd1-ldm"], "config"), merge_space=space))


def h_model(c):
    from vc.models import SPath
    from vc.strings import any_string
    node = ModelRecipeNode(SPath(any_string("path", nonempty=True)), model_config=c.choose([None, "sdxl-sgm"], "config"),
                           merge_space=c.choose(["weight", "delta", "param"], "space"))
    roundtrip(c, node)


def h_dict(kinds, n):
    def h(c):
        from vc.strings import any_string
        from vc.rt import vc_setitem
        d = {}
        ks = [c.choose(kinds, "kind") for _ in range(n)]
        for i in range(n):
            vc_setitem(leaf(c, ks[i], f"v{i}"), d, any_string(f"k{i}"))
        roundtrip(c, LiteralRecipeNode(d))
    return h


def h_merge(c):
    from vc.models import SPath
    from vc.strings import any_string
    m = methods()
    model = ModelRecipeNode(SPath(any_string("path", nonempty=True)), model_config=None, merge_space="weight")
    kind = c.choose(["text", "int", "float", "true", "null"], "kind")
    shape = c.choice(3, "shape")
    if shape == 0:
        node = m(model, leaf(c, kind, "x"), flag=leaf(c, "text", "flag"))
    elif shape == 1:
        inner = m(model, flag=leaf(c, kind, "x"))
        node = m(inner, model, inner, flag=inner)
    else:
        node = m(leaf(c, kind, "x"), m(model, model, flag=1), leaf(c, "int", "y"), flag=model)
    roundtrip(c, node)


def h_shared(c):
    """a node that occurs several times is written once"""
    from vc.models import SPath
    from vc.strings import any_string
    m = methods()
    model = ModelRecipeNode(SPath(any_string("path", nonempty=True)), model_config=None, merge_space="weight")
    inner = m(model, leaf(c, "int", "x"), flag=leaf(c, "null", "f"))
    s = serialization.SerializerVisitor()
    s.visit_root(m(inner, inner, flag=inner))
    c.prove("every distinct node is one instruction", len(s.instructions) == 3)


def proofs():
    yield Proof("round trip of an arbitrary text literal", h_literal("text"))
    yield Proof("round trip of an arbitrary integer literal", h_literal("int"))
    yield Proof("round trip of an arbitrary float literal", h_literal("float"))
    for k in ("true", "false", "null"):
        yield Proof(f"round trip of the literal {k}", h_literal(k))
    yield Proof("round trip of a literal with explicit space and config", h_explicit_literal)
    yield Proof("round trip of a model with arbitrary path", h_model)
    yield Proof("round trip of a dictionary with one arbitrary key", h_dict(["text", "int", "float", "true", "null"], 1), kind="bounded", bound="1 entry")
    yield Proof("round trip of a dictionary with two arbitrary keys", h_dict(["text", "int"], 2), kind="bounded", bound="2 entries")
    yield Proof("round trip of merge graphs", h_merge, kind="bounded", bound="3 graph shapes, depth 2, arbitrary leaves")
    yield Proof("shared nodes are written once", h_shared, kind="bounded", bound="1 graph shape, arbitrary leaves")


# ----------------------------------------------------------------- bounded cross-check on the untouched code
ALPHABET = ["a", "b", "Z", "0", "9", " ", "  ", "=", '"', "\\", "\n", "\r", "\t", "&", "&0", "#", ".", "e", "null", "true", "inf", "-", "+", "1", "\u2028", "\x0b", "\x85",
            "\u00e9", "\U0001f600", "n", "r", "\\n", '\\"', "'", "{", "}", "[", ",", ":", "dict", "literal", "merge", "model", "version 0.1.0", "\x00", "\u3000", "(", ")"]
SPECIAL_TEXT = ["", " ", '"', "\\", "\\\\", '\\"', "\n", "\r\n", "\\n", "a=b", "&0", "# comment", "null", "true", "1", "1.5", "ends with \\", "  spaces  ", '""', "\t", "nan", 'a"b"c', "=",
                "/models/a b/c=d.safetensors", "C:\\models\\x"]
NUMBERS = [0, 1, -1, 10**30, -10**18, 255, 0.0, -0.0, 1.0, -2.0, 1e300, 1e-300, 5e-324, 1.7976931348623157e308, 0.1, -0.1, 1e16, 1e22, 123456789.123, float("inf"), float("-inf"), float("nan"), 2.0**-1074, 1e5, 1e-5]


def T_():
    return merge_methods.T


def many():
    src = ("def vc_many(a: Parameter(T, SP), b: Parameter(T, SP), *rest: Parameter(T, SP), k1: Parameter(T, SP), k2: Parameter(T, {'param'}) = 3) -> Return(T, 'weight'):\n    return a\n")
    return define_method(src, "vc_many", dict(T=merge_methods.T, SP={"weight", "param", "delta"}))


def opt():
    src = "def vc_opt(a: Parameter(T, SP), x: Parameter(T) = 1.0, y: Parameter(T) = None, *, z: Parameter(T) = True, w: Parameter(T) = 'q') -> Return(T, 'weight'):\n    return a\n"
    return define_method(src, "vc_opt", dict(T=merge_methods.T, SP={"weight", "param", "delta"}))


def rand_text(r):
    k = r.random()
    if k < 0.25:
        return r.choice(SPECIAL_TEXT)
    return "".join(r.choice(ALPHABET) for _ in range(r.randrange(0, 7)))


def rand_number(r):
    k = r.random()
    if k < 0.4:
        return r.choice(NUMBERS)
    if k < 0.7:
        return r.randrange(-10**r.randrange(1, 25), 10**r.randrange(1, 25))
    return r.choice([r.uniform(-1, 1), r.gauss(0, 1) * 10.0**r.randrange(-300, 300), float(r.randrange(-1000, 1000))])


def rand_leaf(r):
    k = r.random()
    if k < 0.35:
        return rand_text(r)
    if k < 0.75:
        return rand_number(r)
    return r.choice([True, False, None])


def rand_graph(seed, size):
    r = random.Random(seed)
    pool = []

    def model():
        return ModelRecipeNode(pathlib.Path(rand_text(r) or "x"), model_config=r.choice([None, "sd1-ldm", "sdxl-sgm", "sd1-kohya"]), merge_space=r.choice(["weight", "delta", "param"]))

    def literal():
        k = r.random()
        if k < 0.2:
            return LiteralRecipeNode({rand_text(r): rand_number(r) for _ in range(r.randrange(0, 4))})
        if k < 0.35:
            return LiteralRecipeNode(rand_leaf(r), model_config=r.choice([None, "sd1-ldm"]), merge_space=r.choice(["weight", "delta", "param"]))
        if k < 0.45:
            node = model()
            same = [node] + [ModelRecipeNode(pathlib.Path(rand_text(r) or "y"), model_config=node.model_config, merge_space=node.merge_space) for _ in range(r.randrange(0, 2))]
            return LiteralRecipeNode({rand_text(r) + str(i): n for i, n in enumerate(same)})
        return rand_leaf(r)

    def arg():
        if pool and r.random() < 0.5:
            return r.choice(pool)
        return model() if r.random() < 0.4 else literal()

    def compatible(x):
        return x if not isinstance(x, RecipeNode) or x.model_config is None else LiteralRecipeNode(1.5)

    for _ in range(size):
        if r.random() < 0.6:
            a = [compatible(arg()) for _ in range(r.randrange(2, 6))]
            kw = dict(k1=compatible(arg()))
            if r.random() < 0.5:
                kw["k2"] = rand_leaf(r)
            pool.append(many()(*a, **kw))
        else:
            kw = {k: rand_leaf(r) for k in r.sample(["x", "y", "z", "w"], r.randrange(0, 4))}
            pool.append(opt()(arg(), **kw))
    if not pool or r.random() < 0.15:
        n = arg()
        return n if isinstance(n, RecipeNode) else LiteralRecipeNode(n)
    return pool[-1]


def check_roundtrip(node):
    text = sd_mecha.serialize(node)
    check(text == sd_mecha.serialize(node), "serializing twice gives different texts")
    check(len(text.split("\n")) >= 2 and text.split("\n")[0] == "version 0.1.0", "version line", text=text)
    back = sd_mecha.deserialize(text)
    d = node_diff(node, back)
    check(d is None, "the deserialized recipe differs", diff=d, text=text)
    again = sd_mecha.serialize(back)
    check(again == text, "the text changed", text=text, again=again)
    d = node_diff(node, sd_mecha.deserialize(text.split("\n")))
    check(d is None, "the recipe deserialized from lines differs", diff=d)
    return text


def case_graph(seed, size):
    check_roundtrip(rand_graph(seed, size))


def case_literal(value, space, config):
    kw = {}
    if space:
        kw["merge_space"] = space
    check_roundtrip(LiteralRecipeNode(decode(value), model_config=config, **kw))


def decode(v):
    if isinstance(v, dict) and "float" in v:
        return float(v["float"])
    return v


def encode(v):
    return {"float": repr(v)} if isinstance(v, float) else v


def case_key(key, value):
    check_roundtrip(LiteralRecipeNode({key: decode(value), key + "x": 1}))


def case_path(path):
    check_roundtrip(ModelRecipeNode(pathlib.Path(path)))
    check_roundtrip(opt()(ModelRecipeNode(pathlib.Path(path)), w=path))


def case_kwargs(value, where):
    v = decode(value)
    node = {"x": lambda: opt()(LiteralRecipeNode(1), v), "z": lambda: opt()(LiteralRecipeNode(1), z=v), "a": lambda: opt()(v), "rest": lambda: many()(1, v, v, 2, v, k1=v)}[where]()
    check_roundtrip(node)


def case_shared(seed):
    """n distinct nodes give n instructions"""
    r = random.Random(seed)
    leafs = [ModelRecipeNode(pathlib.Path(f"m{i}")) for i in range(3)]
    level = list(leafs)
    distinct = {id(n) for n in leafs}
    nodes = list(leafs)
    for d in range(8):
        a, b = r.choice(nodes), r.choice(nodes)
        n = many()(a, b, a, k1=b, k2=d)
        nodes.append(n)
    root = nodes[-1]
    reach = {}

    def walk(n):
        if isinstance(n, LiteralRecipeNode) or id(n) in reach:
            return
        reach[id(n)] = n
        if isinstance(n, MergeRecipeNode):
            for x in (*n.args, *n.kwargs.values()):
                walk(x)
    walk(root)
    text = check_roundtrip(root)
    check(len(text.split("\n")) - 1 == len(reach), "a shared node is not written exactly once", lines=len(text.split("\n")) - 1, nodes=len(reach))


def case_deep(depth):
    n = ModelRecipeNode(pathlib.Path("m"))
    for i in range(depth):
        n = opt()(n, float(i))
    check_roundtrip(n)
    n = LiteralRecipeNode(0)
    for i in range(4):
        n = many()(n, n, n, k1=n)
    text = check_roundtrip(n)


def case_builtin(seed):
    """every builtin merge method keeps its arguments"""
    r = random.Random(seed)
    models = [sd_mecha.model(f"m{i}.safetensors", "sd1-ldm") for i in range(3)]
    deltas = [sd_mecha.subtract(m, models[0]) for m in models[1:]]
    k = r.randrange(6)
    x = rand_number(r)
    node = [lambda: sd_mecha.weighted_sum(models[0], models[1], alpha=x),
            lambda: sd_mecha.add_difference(models[0], deltas[0], alpha=x),
            lambda: sd_mecha.n_average(*models),
            lambda: sd_mecha.slerp(models[0], models[1], alpha=x),
            lambda: sd_mecha.ties_sum(*deltas, k=x),
            lambda: sd_mecha.fallback(models[0], models[1])][k]()
    check_roundtrip(node)


def case_dict_of_recipes(seed):
    r = random.Random(seed)
    ms = {f"{rand_text(r)}{i}": ModelRecipeNode(pathlib.Path(f"p{i}"), model_config="sd1-ldm", merge_space="delta") for i in range(r.randrange(1, 4))}
    check_roundtrip(LiteralRecipeNode(ms))
    nested = LiteralRecipeNode({"x y=": LiteralRecipeNode({"k": 1.5}), "": LiteralRecipeNode({})})
    check_roundtrip(nested)


def case_file(seed):
    with scratch() as d:
        node = LiteralRecipeNode({"k": rand_text(random.Random(seed)), "unicode": "\u00e9", "r": "a\rb\r\nc"})
        p = d / "r.mecha"
        text = sd_mecha.serialize(node, output=p)
        check(p.exists(), "no file written")
        back = sd_mecha.deserialize_path(p) if hasattr(sd_mecha, "deserialize_path") else serialization.deserialize_path(p)
        dd = node_diff(node, back)
        check(dd is None, "the recipe read from the file differs", diff=dd)
        sd_mecha.serialize(node, output=str(d / "s.mecha"))
        check((d / "s.mecha").read_text() == p.read_text(), "path given as text")


SIMILAR = [["a", "A"], ["a b", "a  b", "ab", " a", "a "], [1, 1.0, "1", True, "true"], [0, 0.0, -0.0, None, False, ""], [10, "10", 10.0, "1e1"], ["\u00e9", "e\u0301"], ["a\\", "a\\\\"], ["a\"", "a'"], ["&0", "&1"], ["x=1", "x =1"],
           [float("inf"), float("-inf"), "inf"], ["null", None], ["a\n", "a", "a\\n", "a\r", "a\t"], ["#", ""], [0.1, 0.1 + 2**-56, 0.10000000000000002], [2**53, 2**53 + 1, float(2**53)]]


def case_similar(seed):
    """nodes that are almost the same stay apart, with their own dependents"""
    r = random.Random(seed)
    vs = list(SIMILAR[seed % len(SIMILAR)]) * r.randrange(1, 3)
    r.shuffle(vs)
    kind = r.randrange(5)
    if seed % 3 == 2:  # the difference is at the end, or in the middle, of long text
        fill = "".join(r.choice("abc \\\"=") for _ in range(r.choice([50, 200, 2000])))
        vs = [fill + str(v) + r.choice(["", fill]) for v in vs]
    make = {
        0: lambda v: opt()(LiteralRecipeNode(1), w=v),
        1: lambda v: opt()(v, 2.5),
        2: lambda v: ModelRecipeNode(pathlib.Path(str(v) or "y")),
        3: lambda v: LiteralRecipeNode({f"k{v}": opt()(LiteralRecipeNode(v), z=1)}),
        4: lambda v: opt()(LiteralRecipeNode({str(v): v})),
    }[kind]
    nodes = [make(v) for v in vs]
    check_roundtrip(many()(*nodes, *reversed(nodes), k1=nodes[0]) if len(nodes) > 1 else nodes[0])
    check_roundtrip(LiteralRecipeNode({str(i): opt()(n, float(i)) for i, n in enumerate(nodes)}))


def case_repeated(n, kind):
    """the same node, or equal ones, given several times to one method"""
    m = [ModelRecipeNode(pathlib.Path("m")) for _ in range(2)]
    v = {"same": [m[0]] * n, "equal": (m * n)[:n], "literal": [1.5] * n, "alternating": ([m[0], ModelRecipeNode(pathlib.Path("o"))] * n)[:n],
         "merged": [sd_mecha.subtract(m[0], m[1])] * n, "text": [0.1] * (n - 1) + [0.2]}[kind]
    check_roundtrip(sd_mecha.n_average(*v))
    check_roundtrip(many()(1, 2, *v, k1=v[0], k2=0.5))
    check_roundtrip(sd_mecha.n_average(sd_mecha.n_average(*v), *v))
    check_roundtrip(LiteralRecipeNode({f"k{i}": x if isinstance(x, RecipeNode) else LiteralRecipeNode(x) for i, x in enumerate(v)}))


CASES = {f.__name__[5:]: f for f in (case_repeated, case_similar, case_graph, case_literal, case_key, case_path, case_kwargs, case_shared, case_deep, case_builtin, case_dict_of_recipes, case_file)}


def suite(S):
    r = S.rng
    S.run("deep", depth=60)
    for n in (1, 2, 3, 5, 12):
        for kind in ("same", "equal", "literal", "alternating", "merged", "text"):
            S.run("repeated", n=n, kind=kind)
    for t in SPECIAL_TEXT:
        S.run("literal", value=t, space=None, config=None)
        S.run("key", key=t, value=1)
        S.run("kwargs", value=t, where="z")
        if t:
            S.run("path", path=t)
    for n in NUMBERS:
        S.run("literal", value=encode(n), space=None, config=None)
        for where in ("x", "z", "a", "rest"):
            S.run("kwargs", value=encode(n), where=where)
        S.run("key", key="k", value=encode(n))
    for v in (True, False, None):
        for where in ("x", "z", "a", "rest"):
            S.run("kwargs", value=v, where=where)
        S.run("literal", value=v, space=None, config=None)
    for space in ("weight", "delta", "param", None):
        for config in (None, "sd1-ldm"):
            for v in (1, encode(1.0), "t", True, None):
                S.run("literal", value=v, space=space, config=config)
    for s in range(4):
        S.run("file", seed=s)
        S.run("dict_of_recipes", seed=s)
    for s in range(12):
        S.run("shared", seed=s)
    for s in range(6 * len(SIMILAR)):
        S.run("similar", seed=s)
    i = 0
    while S.more():
        i += 1
        S.run("graph", seed=r.randrange(10**9), size=r.choice([1, 2, 3, 5, 8]))
        if i % 3 == 0:
            S.run("literal", value=rand_text(r), space=None, config=None)
            S.run("key", key=rand_text(r), value=encode(rand_number(r)))
            S.run("kwargs", value=encode(rand_leaf(r)), where=r.choice(["x", "z", "a", "rest"]))
        if i % 7 == 0:
            S.run("builtin", seed=r.randrange(10**9))
            S.run("shared", seed=r.randrange(10**9))
            S.run("dict_of_recipes", seed=r.randrange(10**9))
