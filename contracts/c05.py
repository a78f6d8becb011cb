"""C05 Malformed recipe text is rejected instead of being misread"""
import fuzzywuzzy.process
from vc.report import Proof
from .common import *
from . import c04

ID = "C05"
LEVEL = "proof"
TRUSTED = [
    "int() of the decimal rendering of an integer is that integer; str.rstrip(chars) is a function of the text",
    "fuzzywuzzy.process.extractOne returns some text and never fails",
    "the rewriting of vc/instrument.py and the symbolic values of vc/values.py, vc/strings.py; z3, cvc5",
]
ASSUMPTIONS = ["the number of lines before the checked line is bounded in the contracts on references (0 to 3 instructions, 0 to 2 comments); the referenced number is any integer"]
PROOF_BUDGET = 60
SUITE_BUDGET = 6


# ----------------------------------------------------------------- contracts
def suggestion(c):
    def extract_one(query, choices, *a, **k):
        return ("suggestion", 0)
    c.overrides[fuzzywuzzy.process.extractOne] = extract_one


def expect_reject(c, fn, must_reject, accepted, names=None):
    """fn() returns only when must_reject does not hold; `accepted` checks the value returned"""
    from vc.values import zbool
    try:
        out = fn()
    except (ValueError, RuntimeError, TypeError, IndexError, KeyError) as e:
        c.prove("rejected only what is malformed", must_reject)
        if names is not None:
            text = str(e.args[0]) if e.args else ""
            c.prove("the error names the offending line", f"line {names}:" in text)
        c.cover("rejected")
        return
    c.cover("accepted")
    accepted(out)


def h_reference(c):
    import z3
    from vc.values import SInt
    n = c.choice(4, "instructions before")
    comments = [c.choose([[], ["# &9 \"x"]], f"comment before {i}") for i in range(n + 1)] if n < 3 else [[], [" # c"], [], ["# d", "#"]]
    lines = ["version 0.1.0"]
    for i in range(n):
        lines += comments[i] + [f'model "m{i}"']
    lines += comments[n]
    i = c.int("index")
    where = c.choice(3, "argument")
    m = c04.methods()
    ident = m.get_identifier()
    from vc.rt import vc_fstr
    ref = ref_text(i)
    known = 'model "k"'
    line = join([f'merge "{ident}" ', ref, " flag=1"]) if where == 0 else join([f'merge "{ident}" 1 flag=', ref]) if where == 1 else join([f'merge "{ident}" 1 2 ', ref, " flag=3"])
    lines.append(line)

    def accepted(node):
        got = node.args[0] if where == 0 else node.kwargs["flag"] if where == 1 else node.args[2]
        c.prove("the reference is in bounds", z3.And(0 <= i, i < n))
        for j in range(n):
            c.prove("the reference denotes the referenced instruction", z3.Implies(i == j, z3.BoolVal(isinstance(got, ModelRecipeNode) and got.path == pathlib.Path(f"m{j}"))))
    expect_reject(c, lambda: serialization.deserialize(lines), z3.Or(i < 0, i >= n), accepted, names=len(lines))


def ref_text(i):
    from vc.strings import SStr, Atom
    return SStr(["&", Atom("int", i)])


def join(parts):
    from vc.strings import join as j
    return j("", parts)


def h_version(c):
    from vc.strings import any_string
    import z3
    from vc.values import lit, val_sort
    line = any_string("version")

    rstripped = z3.Function(f"rstrip[{chr(13) + chr(10)!r}]", val_sort(), val_sort())(line.parts[0].var)
    starts = z3.Function("startswith[version]", val_sort(), z3.BoolSort())(line.parts[0].var)
    ok = z3.And(starts, rstripped == lit("version 0.1.0"))

    def accepted(node):
        c.prove("only the known version line is accepted", ok)
    expect_reject(c, lambda: serialization.deserialize([line, "literal 1"]), z3.Not(ok), accepted)


def quoted(text):
    """the text as the serializer writes it"""
    from vc.strings import SStr
    t = text
    for old, new in (("\\", "\\\\"), ('"', '\\"'), ("\n", "\\n"), ("\r", "\\r")):
        t = t.replace(old, new)
    return t


def h_name(template, what, registry, observed):
    """an arbitrary name: accepted only if registered, and then resolved to what is registered"""
    def h(c):
        from vc.strings import any_string
        import z3
        from vc.values import zbool, lit
        suggestion(c)
        name = any_string("name")
        line = join([template[0], '"', quoted(name), '"', template[1]])
        known = registry()
        some = z3.Or([name.parts[0].var == lit(k) for k in known])

        def accepted(node):
            got = observed(node)
            c.prove(f"the {what} is registered", some)
            c.prove(f"the {what} is the one named", name.parts[0].var == lit(got))
        expect_reject(c, lambda: serialization.deserialize(["version 0.1.0", "# c", line]), z3.Not(some), accepted)
    return h


def h_method_name(c):
    """an arbitrary merge method name"""
    from vc.strings import any_string
    import z3
    from vc.values import lit
    suggestion(c)
    name = any_string("name")
    line = join(['merge "', quoted(name), '"'])
    known = [m.identifier for m in merge_methods.get_all()]
    called = []

    def call(self, *args, **kwargs):
        called.append(self)
        return LiteralRecipeNode(1)
    c.overrides[merge_methods.MergeMethod.create_recipe] = call
    some = z3.Or([name.parts[0].var == lit(k) for k in known])

    def accepted(node):
        c.prove("one merge method was called", len(called) == 1)
        c.prove("the merge method is the one named", name.parts[0].var == lit(called[0].identifier))
    expect_reject(c, lambda: serialization.deserialize(["version 0.1.0", line]), z3.Not(some), accepted)


def h_open_quote(c):
    """text whose quote is never closed"""
    from vc.strings import any_string
    text = quoted(any_string("text"))
    line = c.choose([lambda: join(['literal "', text, "x"]), lambda: join(['model "a" model_config="', text, "."]), lambda: join(['literal "', text, '" "']), lambda: join(['dict k="', text, "="])], "line")()

    def accepted(node):
        c.prove("mismatched quotes are rejected", False)
    import z3
    expect_reject(c, lambda: serialization.deserialize(["version 0.1.0", line]), True, accepted, names=2)


def h_duplicate(c):
    """a keyword given twice"""
    from vc.strings import SStr, Atom
    x, y = SStr([Atom("int", c.int("x"))]), SStr([Atom("int", c.int("y"))])
    line = c.choose([lambda: join(["dict a=", x, " a=", y]), lambda: join(['merge "', c04.methods().get_identifier(), '" 1 flag=', x, " flag=", y])], "line")()

    def accepted(node):
        c.prove("a repeated keyword is rejected", False)
    expect_reject(c, lambda: serialization.deserialize(["version 0.1.0", line]), True, accepted, names=2)


def proofs():
    yield Proof("references are bounds-checked and denote the referenced instruction", h_reference)
    yield Proof("an arbitrary version line", h_version)
    yield Proof("an arbitrary merge method name", h_method_name)
    yield Proof("an arbitrary model config name", h_name(("literal 1 model_config=", ""), "model config", lambda: [m.identifier for m in model_configs.get_all()] + [model_configs.INFER.identifier],
                                                      lambda n: n.model_config.identifier))
    yield Proof("an arbitrary merge space name", h_name(("literal 1 merge_space=", ""), "merge space", lambda: [s.identifier for s in merge_spaces.get_all()],
                                                     lambda n: n.merge_space.identifier))
    yield Proof("an arbitrary merge space name of a model", h_name(('model "p" merge_space=', ""), "merge space", lambda: [s.identifier for s in merge_spaces.get_all()],
                                                     lambda n: n.merge_space.identifier))
    yield Proof("mismatched quotes around arbitrary text", h_open_quote)
    yield Proof("repeated keywords", h_duplicate)


# ----------------------------------------------------------------- bounded cross-check on the untouched code
METHOD_LINES = ['merge "vc_many" {a} {b} k1={c}', 'merge "vc_many" {a} {b} {c} k1={a} k2=3', 'merge "vc_opt" {a}', 'merge "vc_opt" {a} 1.5 z=null w="a b=c"', 'merge "vc_opt" {a} y="x" z=2']
BAD_VALUES = ["abc", "1.2.3", "--1", "0x10", "1e", "e", ".", "True", "None", "NULL", "&x", "&", "&-1", "&1.0", "& 0", "nul", "1,2", "[]", "{}", "'a'", "&&0", "1&", "infinite1", "-", "+", "1-", "nan1", "&0&", "1.0f",
              "tru", "weight", "&0x0", "&1e0", "- 1", "&999999999999999999999", "**2", "1+1", "1j", "0b1", "$0", '\\"abc', 'abc\\"', 'a\\"b', '"a"b', 'a"b"', "&\u00b2"]


def declare():
    c04.many()
    c04.opt()


def valid_recipe(r, n):
    """lines with arguments and the graph they denote"""
    lines, nodes = [], []
    m, o = c04.many(), c04.opt()
    for i in range(n):
        k = r.random()
        refs = [j for j in range(len(nodes))]

        def arg():
            if refs and r.random() < 0.7:
                j = r.choice(refs)
                return f"&{j}", nodes[j]
            return r.choice([("1", 1), ("-2.5", -2.5), ('"t"', "t"), ("null", None), ("true", True)])
        if k < 0.3 or not refs:
            p = f"m{i} x.safetensors"
            lines.append(f'model "{p}"')
            nodes.append(ModelRecipeNode(pathlib.Path(p)))
        elif k < 0.45:
            lines.append(f"literal {i}.5 merge_space=\"delta\"")
            nodes.append(LiteralRecipeNode(i + 0.5, merge_space="delta"))
        else:
            (ta, a), (tb, b), (tc, c_) = arg(), arg(), arg()
            if r.random() < 0.5:
                lines.append(f'merge "vc_many" {ta} {tb} {tc} k1={ta}')
                nodes.append(m(a, b, c_, k1=a))
            else:
                lines.append(f'merge  "vc_opt" {ta}   w="q{i}" ')
                nodes.append(o(a, w=f"q{i}"))
    return lines, nodes


def with_comments(r, lines):
    """text lines and, for every instruction, its line number"""
    out, where = ["version 0.1.0"], []
    for l in lines:
        while r.random() < 0.3:
            out.append(r.choice(["# comment", "#", '# &0 "x', "   # indented = \\", "#merge", "#literal 1", "##", '#model "a"', "\t#", "#" + r.choice("!@$%&*-=:;/.,|~^+?<>[]{}()_'\"0a") + r.choice(["", " 1", "x", " literal 1"])]))
        out.append(r.choice(["", "", " ", "  "]) + l)
        where.append(len(out))
    while r.random() < 0.2:
        out.append("# end")
    return out, where


def rejects(lines, line=None, form=0):
    text = "\n".join(lines) if form == 0 else lines if form == 1 else [l + "\n" for l in lines]
    try:
        node = sd_mecha.deserialize(text)
    except Exception as e:
        if line is not None:
            check(f"line {line}:" in str(e) or f"line {line}." in str(e), "the error does not name the offending line", error=str(e), line=line, lines=lines)
        return e
    check(False, "malformed text was accepted", lines=lines, got=repr(type(node)))


def case_valid(seed):
    declare()
    r = random.Random(seed)
    lines, nodes = valid_recipe(r, r.randrange(1, 9))
    text, _ = with_comments(r, lines)
    for form in range(3):
        t = "\n".join(text) if form == 0 else text if form == 1 else [l + "\n" for l in text[:-1]] + text[-1:]
        d = node_diff(nodes[-1], sd_mecha.deserialize(t))
        check(d is None, "a reference or argument was misread", diff=d, text=text)


def case_version(line):
    rejects([line, "literal 1"], form=0)
    rejects([line, "literal 1"], form=1)
    if not line.startswith("version 0.1.0"):
        rejects(["literal 1"])
        rejects([""])


def case_command(line):
    declare()
    rejects(["version 0.1.0", 'model "m"', line])
    rejects(["version 0.1.0", line])


def case_bad_value(value, template, seed):
    declare()
    r = random.Random(seed)
    pre, _ = with_comments(r, ['model "m"'] * r.randrange(0, 4))
    lines = pre + [template.replace("@", value)]
    name = len(lines)
    post = [] if seed % 2 else ["literal 1"]
    rejects(lines + post, None if " " in value or '"' in value else name, form=seed % 3)


def case_reference(seed, offset):
    """references at or after the own line, negative ones, and into comments"""
    declare()
    r = random.Random(seed)
    n = r.randrange(0, 5)
    lines, nodes = valid_recipe(r, n) if n else ([], [])
    target = n + offset if offset >= 0 else offset
    bad = r.choice(['merge "vc_opt" &%d', 'merge "vc_opt" 1 z=&%d', 'merge "vc_many" 1 2 3 &%d k1=1', "dict a=&%d", 'merge "vc_many" 1 1 k1=&%d']) % target
    more = ['model "later"'] * r.randrange(0, 4)
    text, where = with_comments(r, lines + [bad] + more)
    rejects(text, where[n], form=r.randrange(3))


def case_signature(line):
    declare()
    rejects(["version 0.1.0", 'model "m"', line])


def case_quotes(seed):
    """removing one quote of a valid line, or adding one"""
    declare()
    r = random.Random(seed)
    line = r.choice(['literal "a b"', 'model "p q" model_config="sd1-ldm"', 'merge "vc_opt" 1 w="x y"', 'literal 1 merge_space="delta"', 'merge "vc_opt" "a" "b"', 'dict k="v" l="w"', 'literal "a\\"b"', 'literal "a\\\\"'])
    pos = [i for i, ch in enumerate(line) if ch == '"' and (i < 2 or line[i - 1] != "\\" or line[i - 2] == "\\")]
    k = r.choice(pos)
    bad = line[:k] + line[k + 1:] if r.random() < 0.7 else line[:k] + '"' + line[k:]
    pre, _ = with_comments(r, ['model "m"'] * r.randrange(0, 3))
    rejects(pre + [bad] + (["literal 1"] if r.random() < 0.5 else []), len(pre) + 1)


def case_names(kind, text):
    declare()
    line = {"config": f'model "m" model_config="{text}"', "space": f'model "m" merge_space="{text}"', "lspace": f'literal 1 merge_space="{text}"', "lconfig": f'literal 1 model_config="{text}"',
            "method": f'merge "{text}" 1 2'}[kind]
    rejects(["version 0.1.0", 'model "m"', line])
    rejects(["version 0.1.0", line, 'model "m"'])


def case_file(seed):
    declare()
    r = random.Random(seed)
    with scratch() as d:
        try:
            sd_mecha.deserialize_path(d / "missing.mecha")
            check(False, "a missing file was accepted")
        except ValueError:
            pass
        p = d / "r.txt"
        p.write_text("version 0.1.0\nliteral 1")
        try:
            sd_mecha.deserialize_path(p)
            check(False, "an unknown extension was accepted")
        except ValueError:
            pass
        p = d / "r.mecha"
        p.write_text("version 0.1.0\nliteral 1\nliteral &7")
        try:
            sd_mecha.deserialize_path(p)
            check(False, "a bad file was accepted")
        except ValueError as e:
            check("line 3" in str(e), "line number", e=str(e))


CASES = {f.__name__[5:]: f for f in (case_valid, case_version, case_command, case_bad_value, case_reference, case_signature, case_quotes, case_names, case_file)}
VERSIONS = ["", "version", "version 0.1.1", "version 0.1.0.0", "version 0.1", "version  0.1.0", "Version 0.1.0", "version 0.1.0 x", "v0.1.0", "versions 0.1.0", "version 1.0.0", "#version 0.1.0", "version: 0.1.0", "version 00.1.0",
            "literal 1", "version 0.1.0a", "version0.1.0", "version 0.2.0", "version 0.1.00"]
COMMANDS = ["=literal 1", "=model \"m\"", "= literal 1", "=\"literal\" 1", "==literal 1", "mrge \"vc_opt\" 1", "Literal 1", "literals 1", "lit 1", "\"literal\" 1", "= 1", "literal=1", "model=1 2", "1", "&0", "merge", "modeldict 1", "recipe 1", "x=literal 1", "literal\t1", "dict1 a=1", "version 0.1.0", "",
            "merge\"vc_opt\" 1"]
SIGNATURES = ['merge "vc_opt" 1 z= 2', 'merge "vc_opt" 1 z= w="a"', 'merge "vc_opt" 1 z=', "dict a= 1", "dict a= b=1", "literal = 1", 'literal 1 merge_space= "delta"', 'model "a" model_config= ', 'merge "vc_opt" 1 ="a"',
              'merge "vc_opt"', 'merge "vc_opt" 1 2 3 4', 'merge "vc_opt" 1 q=2', 'merge "vc_opt" 1 a=2', 'merge "vc_opt" z=1', 'merge "vc_many" 1 2', 'merge "vc_many" 1 k1=1', 'merge "vc_many" 1 2 k1=1 k3=1', 'merge "vc_many" k1=1',
              'merge "vc_opt" 1 z=1 z=2', 'merge "vc_opt" 1 x=1 x=1', 'merge "vc_opt" 1 2 x=3', "dict 1", "dict &0", 'literal 1 2', 'literal', 'literal value=1 2', 'literal 1 foo=2', 'model "a" "b"', 'model 5', 'model', 'model "a" foo=1',
              'model "a" merge_space="weight" merge_space="delta"', "dict a=1 a=2", 'literal 1 merge_space="delta" merge_space="delta"', 'model null', 'merge null 1', 'merge 5 1', 'merge "vc_opt" 1 w="a" w="b"', 'literal 1 model_config=5',
              'merge "weighted_sum" 1', 'merge "weighted_sum" "m" "n" alpha=1 beta=2', 'merge identifier="vc_opt" 1', 'model "a" model_config=null merge_space=null x=null']


def suite(S):
    r = S.rng
    declare()
    for v in VERSIONS:
        S.run("version", line=v)
    for cmd in COMMANDS:
        S.run("command", line=cmd)
    for s in SIGNATURES:
        S.run("signature", line=s)
    vs = ["null", "false", "0", "0.0", '""', "1", '"a"']
    for i, v in enumerate(vs):
        for w in (v, vs[(i + 1) % len(vs)]):
            for l in ('merge "vc_opt" 1 z=%s z=%s', "dict a=%s a=%s", 'merge "vc_many" 1 2 k1=%s k1=%s', 'literal 1 merge_space=%s merge_space=%s', 'merge "vc_opt" 1 w=%s z=1 w=%s'):
                S.run("signature", line=l % (v, w))
    templates = ["literal @", 'merge "vc_opt" @', 'merge "vc_opt" 1 @', 'merge "vc_opt" 1 z=@', 'merge "vc_many" 1 2 3 @ k1=1', "dict k=@", 'merge "vc_many" 1 2 k1=@ k2=2']
    for i, v in enumerate(BAD_VALUES):
        for j, t in enumerate(templates):
            if v == "- 1" and j == 4 or " " in v and "vc_many" in t:
                continue
            S.run("bad_value", value=v, template=t, seed=i + 3 * j)
    names = {"config": ["sd1", "sd1-ldmx", "", "SD1-LDM", "sd1-ldm ", "structural", "null"], "space": ["", "Weight", "weights", "delta ", "params", "*"],
             "method": ["", "vc_op", "weighted_su", "Weighted_sum", "vc_opt ", "sd_mecha.weighted_sum"]}
    names["lconfig"], names["lspace"] = names["config"], names["space"]
    for kind, ns in names.items():
        for n in ns:
            S.run("names", kind=kind, text=n)
    for off in (0, 1, 2, 7, -1, -2, 10**30):
        for s in range(6):
            S.run("reference", seed=s, offset=off)
    S.run("file", seed=1)
    while S.more():
        S.run("valid", seed=r.randrange(10**9))
        S.run("quotes", seed=r.randrange(10**9))
        S.run("reference", seed=r.randrange(10**9), offset=r.choice([0, 0, 0, 1, 2, -1, -2, -3]))
        S.run("bad_value", value=r.choice(BAD_VALUES), template=r.choice(templates[:4]), seed=r.randrange(10**6))
