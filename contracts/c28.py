"""C28 Each model of a recipe is read from the file its path names"""
import itertools
import os
import z3
from vc import core
from vc.core import Unsupported, pyraise
from vc.values import Model
from vc.graphs import Stale
from vc.report import Proof
from .common import *
from sd_mecha.extensions import model_formats
from sd_mecha.streaming import InSafetensorsDict

ID = "C28"
LEVEL = "proof"
TRUSTED = [
    "pathlib: joining, existence and resolution of paths (two paths name the same file iff they resolve to the same one)",
    "the rewriting of vc/instrument.py; z3, cvc5",
]
ASSUMPTIONS = ["the file system does not change while a recipe is opened"]
NOTE = ("The search through any number of model directories is proved with the invariant of its loop; up to 2 formats and 3 nodes (bounded). The output path and real files in the suite.")
PROOF_BUDGET = 30
SUITE_BUDGET = 5


# ----------------------------------------------------------------- contracts
class Dirs(Model):
    """any number of directories; invariant of a search through them: the ones before have no such file, and nothing has changed"""
    pytype = list

    def __init__(self, c, without, first):
        self.c, self.without, self.first, self.empty = c, without, first, c.choice(2, "any model directory has the file") == 0

    def __iter__(self):
        from vc import rt
        return rt.iter_symbolic(self)

    def vc_loop(self, loop):
        c = self.c
        before = loop.locals()
        if c.choice(2, "a directory before has not"):
            c.cover("a directory without the file")
            yield self.without
            after = loop.locals()
            changed = [k for k, v in before.items() if after.get(k) is not v]
            if any(not isinstance(after.get(k), pathlib.PurePath) for k in changed):
                raise Unsupported(f"a loop that changes {changed}")
            c.prove("a directory without the file does not count", not changed, detail=changed)
            loop.vars = {k: Stale() for k in after if k not in before}
        if self.empty:
            return
        yield self.first
        raise Unsupported("a search that does not end at the first match")


class Opened(dict):
    def __init__(self, path):
        super().__init__(k=torch.zeros(1))
        self.path = path

    def metadata(self):
        from sd_mecha import streaming
        return [("k", streaming.TensorMetadata(torch.Size([1]), torch.float32))]

    def close(self):
        pass


class Format:
    def __init__(self, identifier, ok):
        self.identifier, self.ok, self.opened = identifier, ok, []

    def matches(self, path):
        return self.ok

    def get_read_dict(self, path, size):
        self.opened.append((path, size))
        return Opened(path)


def opening(c, dirs, formats, size=0):
    """what opens the inputs of a recipe"""
    c.overrides[model_formats.get_all] = lambda: list(formats)
    if not hasattr(merging, "LoadInputDictsVisitor"):
        raise Unsupported("opening of inputs")
    return merging.LoadInputDictsVisitor(dirs, size, True, False)


def config():
    return synthetic_config("vc28-x", {"m": {"k": ([1], "float32", [], False)}})


def same(a, b):
    return os.path.realpath(a) == os.path.realpath(b)


def h_search(c):
    with scratch() as root:
        root = pathlib.Path(root).resolve()
        without, first = root / "without", root / "first"
        for d in (without / "sub", first / "sub"):
            d.mkdir(parents=True)
        name = c.choose(["vc28-name.x", "sub/vc28-name.x"], "name")
        (first / name).touch()
        dirs = Dirs(c, without, first)
        absolute = c.choice(2, "absolute path") == 1
        p = root / "elsewhere.x" if absolute else pathlib.Path(name)
        node = ModelRecipeNode(p, model_config=config())
        f = Format("f", True)
        size = c.choose([0, 77], "buffer")
        node.accept(opening(c, dirs, [Format("other", False), f], size))
        got, given = f.opened[0]
        c.cover("opened")
        c.prove("one file is opened, with the buffer size that was given", len(f.opened) == 1 and given == size)
        c.prove("its state dict is the node's", type(node.state_dict) is Opened and node.state_dict.path is got)
        if absolute or dirs.empty:
            c.prove("an absolute path, or one that is in no model directory, is opened as it is", same(got, p), detail=str(got))
        else:
            c.prove("the file in the first directory that has it is opened", same(got, first / name), detail=str(got))


def h_formats(c):
    fs = [Format(f"f{i}", c.choice(2, f"format {i} matches") == 1) for i in range(c.choice(3, "formats"))]
    node = ModelRecipeNode(pathlib.Path("/vc28/name.x"), model_config=config())
    err = None
    try:
        node.accept(opening(c, [], fs))
    except Exception as e:
        err = e
    good = [f for f in fs if f.ok]
    c.cover("formats")
    c.prove("a file is opened iff exactly one format matches it", (err is None) == (len(good) == 1))
    if len(good) == 1:
        c.prove("in this format", [len(f.opened) for f in fs] == [int(f.ok) for f in fs])
    else:
        c.prove("else nothing is opened", not any(f.opened for f in fs) and node.state_dict is None)


def h_shared(c):
    """nodes share a state dict iff they name the same file"""
    with scratch() as root:
        root = pathlib.Path(root).resolve()
        (root / "d").mkdir()
        (root / "link").symlink_to(root)
        shared(c, root)


def shared(c, root):
    n = 2 + c.choice(2, "nodes")
    files = [c.choice(i + 1, f"file of node {i}") for i in range(n)]
    f = Format("f", True)
    given = Opened("given")
    visitor = opening(c, [], [f])
    nodes = []
    for i, x in enumerate(files):
        spelled = root / c.choose(["", "d/..", "link"], f"spelling of node {i}") / f"{x}" / "file.x"
        nodes.append(ModelRecipeNode(spelled, model_config=config()))
    mine = c.choice(2, "the first node is open already") == 1
    if mine:
        nodes[0].state_dict = given
    for node in nodes:
        node.accept(visitor)
    c.cover("shared")
    if mine:
        c.prove("a node that is open keeps its state dict", nodes[0].state_dict is given)
    rest = list(zip(files, nodes))[int(mine):]
    for (x, a), (y, b) in itertools.combinations(rest, 2):
        c.prove("two nodes share their state dict iff they name the same file", (a.state_dict is b.state_dict) == (x == y))
    c.prove("each file is opened once", len(f.opened) == len({x for x, _ in rest}))


def proofs():
    return [
        Proof("search through the model directories", h_search, budget=10),
        Proof("choice of the format", h_formats, kind="bounded", bound="2 formats", budget=10),
        Proof("sharing of opened files", h_shared, kind="bounded", bound="3 nodes", budget=10),
    ]


# ----------------------------------------------------------------- concrete cross-check
def m_sum():
    return define_method("def vc28_sum(*models: Parameter(Tensor)) -> Return(Tensor):\n    return sum(m * 16. ** i for i, m in enumerate(models))\n", "vc28_sum", register=False)


def case_paths(seed):
    r = random.Random(seed)
    cfg = config()
    with scratch() as root:
        root = pathlib.Path(root).resolve()
        cwd = root / "cwd"
        dirs = [r.choice([root, root, cwd]) / r.choice([f"m{i}", f"z{9 - i}"]) for i in range(r.randrange(0, 5))]
        where = {}
        names = ["a.safetensors", "b.safetensors", "sub/a.safetensors"]
        value = itertools.count(1)
        files = [d / n for d in [cwd, *dirs] for n in names]
        # directories in directories
        files += [d / e.name / n for d in [cwd, *dirs] for e in dirs for n in names[:2] if r.random() < 0.5]
        for d in [cwd, *dirs]:
            (d / "sub").mkdir(parents=True, exist_ok=True)
        for f in dict.fromkeys(files):
            if r.random() < 0.45:
                f.parent.mkdir(parents=True, exist_ok=True)
                if where and r.random() < 0.2:
                    target = r.choice(list(where))
                    f.symlink_to(target)
                    where[f] = where[target]
                else:
                    where[f] = v = float(next(value) % 16)
                    write_st(f, {"k": torch.tensor([v])})
        link = root / "link.safetensors"
        if where and r.random() < 0.5:
            target = r.choice(list(where))
            link.symlink_to(target)
            where[link] = where[target]
        nodes, want, info = [], [], []
        for _ in range(r.randrange(1, 5)):
            if where and r.random() < 0.3:
                p = r.choice(list(where))
                hit = p
            else:
                n = r.choice([*names, *(f"{d.name}/{names[0]}" for d in dirs)])
                hit = next((d / n for d in [*dirs, cwd] if d / n in where), None)
                p = pathlib.Path(n) if r.random() < 0.7 else pathlib.Path("sub") / ".." / n
            nodes.append(ModelRecipeNode(p, model_config=cfg))
            want.append(None if hit is None else where[hit])
            info.append(str(p))
        out = r.choice([None, "o.safetensors", "sub/o.safetensors", str(root / "o.safetensors")])
        given = [pathlib.Path(d if r.random() < 0.5 else os.path.relpath(d, cwd)) for d in dirs]
        form = r.choice([list, tuple, iter])
        opened = []
        fmt = model_formats.resolve("single_file")
        original = type(fmt).get_read_dict
        old = os.getcwd()
        os.chdir(cwd)
        err = got = None
        try:
            type(fmt).get_read_dict = lambda self, p, *a, **k: opened.append(str(pathlib.Path(p).resolve())) or original(self, p, *a, **k)
            how = r.randrange(4)
            loose = given if how else [r.choice([str, pathlib.Path])(x) for x in given]
            loose = loose[0] if len(loose) == 1 and r.random() < 0.5 else form(loose)
            call, opts = ((sd_mecha.merge, dict(model_dirs=form(given))) if how > 1 else (sd_mecha.Defaults(model_dirs=loose).merge, {}) if how else
                          (sd_mecha.Defaults(model_dirs=[root / "unused"]).merge, dict(model_dirs=loose)))
            got = call(m_sum()(*nodes), threads=0, output_dtype=torch.float64, total_buffer_size=4096, **opts, **({} if out is None else dict(output=r.choice([str, pathlib.Path])(out))))
        except Exception as e:
            err = e
        finally:
            type(fmt).get_read_dict = original
            os.chdir(old)
        info = dict(models=info, model_dirs=[d.name for d in dirs], files=sorted(str(p.relative_to(root)) for p in where), output=out, error=repr(err))
        if None in want:
            check(err is not None, "a model that does not exist was merged", **info)
            return
        check(err is None, "a merge of existing files failed", **info)
        if out is not None:
            o = root / "o.safetensors" if out.startswith("/") else (dirs[0] if dirs else cwd) / out
            check(o.exists(), "the output is not where its path says", there=[str(p.relative_to(root)) for p in root.rglob("o.safetensors")], **info)
            check(len(list(root.rglob("o.safetensors"))) == 1, "several outputs", **info)
            got = read_st(o)[1]
        total = sum(w * 16.0 ** i for i, w in enumerate(want))
        check(got["k"].item() == total, "a model was read from another file", got=got["k"].item(), want=total, **info)
        check(len(opened) == len(set(opened)), "a file was opened twice", opened=len(opened), **info)


def case_format(name, good):
    cfg = config()
    with scratch() as d:
        p = pathlib.Path(d) / "x.safetensors"
        write_st(p, {"k": torch.tensor([3.0])})
        q = pathlib.Path(d) / name
        if q != p:
            q.write_bytes(p.read_bytes())
        err = None
        try:
            got = sd_mecha.merge(ModelRecipeNode(q, model_config=cfg), threads=0)
        except Exception as e:
            err = e
        check((err is None) == good, "formats are told by the suffix of the file", name=name, error=repr(err))
        check(err is not None or got["k"].item() == 3.0, "content", name=name)


def case_ambiguous(which):
    cfg = config()
    fmt = model_formats.resolve("single_file")

    class Also(type(fmt)):
        identifier = "vc28-also"

    also = Also()
    original = model_formats.get_all
    with scratch() as d:
        p = pathlib.Path(d) / "x.safetensors"
        write_st(p, {"k": torch.tensor([3.0])})
        err = None
        try:
            model_formats.get_all = lambda: [*original(), also] if which else [also, *original()]
            sd_mecha.merge(ModelRecipeNode(p, model_config=cfg), threads=0)
        except Exception as e:
            err = e
        finally:
            model_formats.get_all = original
        check(err is not None, "a file that two formats match was merged")


def case_given(form):
    """a model that is open already keeps its state dict"""
    cfg = config()
    with scratch() as d:
        p = pathlib.Path(d) / "x.safetensors"
        write_st(p, {"k": torch.tensor([3.0])})
        n = ModelRecipeNode(p, model_config=cfg)
        m = ModelRecipeNode(pathlib.Path(d) / "." / "x.safetensors", model_config=cfg)
        q = pathlib.Path(d) / "y.safetensors"
        write_st(q, {"k": torch.tensor([5.0])})
        n.state_dict = InSafetensorsDict(q, 4096)
        got = sd_mecha.merge(m_sum()(*([n, m] if form else [m, n])), threads=0, output_dtype=torch.float64)
        check(got["k"].item() == (53.0 if form else 83.0), "a model that is open already", got=got["k"].item())


CASES = {"paths": case_paths, "format": case_format, "ambiguous": case_ambiguous, "given": case_given}


def suite(S):
    for n, g in (("x.safetensors", True), ("x.y.safetensors", True), ("x.ckpt", False), ("safetensors", False), ("x.safetensors.bak", False), ("x.safetensors.y", False)):
        S.run("format", name=n, good=g)
    for i in range(2):
        S.run("ambiguous", which=i)
        S.run("given", form=i)
    i = 0
    while S.more() and i < (400 if not S.thorough else 20000):
        S.run("paths", seed=S.rng.randrange(10**9))
        i += 1
