"""
Mechanical extraction.  The source of every module of sd_mecha is re-read from /repo, rewritten as described below, and
compiled; the code objects then replace those of the live functions, so that the real functions run natively on
symbolic values.  What the rewriting changes (and nothing else):
  - a call `f(a)` becomes `__vc_call__(f, a)`: contracts and models of dependencies are consulted there;
  - an f-string becomes `__vc_fstr__(...)`: symbolic text can be formatted;
  - `k in m`, `m[k]` and `m[k] = v` with a computed key become calls: symbolic keys are compared instead of hashed;
  - a `for` statement and a comprehension get their iterable from `__vc_loop__` / `__vc_comp__`: symbolic containers are
    traversed under a loop contract (establish, arbitrary step, exit), everything else natively;
  - a `while` statement announces itself, so that its loop contract (invariant) can be applied; otherwise it runs natively;
  - exception handlers and `finally` blocks ignore the signals of the engine;
  - the object whose attribute or item is stored or deleted passes through `__vc_w__` (frame conditions), `x += y` and stores to
    global variables announce themselves;
  - functions report that they were entered.
Nothing is dropped: control flow, closures, generators, classes, name mangling and exceptions are those of CPython.
"""
import ast
import builtins
import gc
import os
import sys
import types

REPO_PKG = os.path.realpath(os.environ.get("VC_REPO", "/repo")) + "/sd_mecha"
NO_WRAP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


def _name(n):
    return ast.Name(n, ast.Load())


def _call(f, *args):
    return ast.Call(_name(f), list(args), [])


def _targets(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
    return out


def _assigned(stmts):
    """names that a block may assign in the enclosing function's scope"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

    for s in stmts:
        V().visit(s)
    return out


def _mutated(stmts):
    """names whose value the block may change in place (receiver of a method call, subscript store, augmented assignment)"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.add(n.id)
    return out


class Transformer(ast.NodeTransformer):
    def __init__(self, filename):
        self.filename = filename
        self.scope = ["module"]
        self.qual = []
        self.n_loops = 0
        self.no_havoc = [set()]
        self.local_names = [set()]
        self.globals = [set()]
        self.classes = []

    # ----- scopes
    def _function(self, node):
        self.scope.append("function")
        self.qual.append(node.name)
        decl = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                decl |= set(n.names)
        self.no_havoc.append(decl)
        self.globals.append({x for n in ast.walk(node) if isinstance(n, ast.Global) for x in n.names})
        a = node.args
        params = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, *filter(None, [a.vararg, a.kwarg])]}
        self.local_names.append((_assigned(node.body) | params) - decl)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        enter = ast.Expr(_call("__vc_enter__", ast.Constant(self.filename), ast.Constant(".".join(self.qual)),
                               ast.Constant(node.lineno)))
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        body.insert(at, enter)
        node.body = body
        self.scope.pop()
        self.qual.pop()
        self.no_havoc.pop()
        self.local_names.pop()
        self.globals.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append("class")
        self.classes.append(node.name)
        self.qual.append(node.name)
        body = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                r = self.visit(s)
                body.extend(r if isinstance(r, list) else [r])
            else:
                body.append(s)
        node.body = body
        self.classes.pop()
        self.scope.pop()
        self.qual.pop()
        return node

    def visit_Lambda(self, node):
        self.scope.append("function")
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def in_function(self):
        return self.scope[-1] == "function"

    # ----- expressions
    def visit_Call(self, node):
        if not self.in_function():
            return node
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP:
            return node
        self.generic_visit(node)
        if any(k.arg is None for k in node.keywords):
            kws = [ast.Dict([ast.Constant(k.arg)], [k.value]) if k.arg is not None else k.value for k in node.keywords]
            return _call("__vc_callkw__", node.func, ast.Tuple(node.args, ast.Load()), *kws)
        return ast.Call(_name("__vc_call__"), [node.func, *node.args], node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.in_function() and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _call("__vc_in__", node.left, node.comparators[0])
            return ast.UnaryOp(ast.Not(), r) if isinstance(node.ops[0], ast.NotIn) else r
        if self.in_function() and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = _call("__vc_is__", node.left, node.comparators[0])
            return ast.UnaryOp(ast.Not(), r) if isinstance(node.ops[0], ast.IsNot) else r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.in_function() and isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return _call("__vc_getitem__", node.value, node.slice)
        if self.in_function() and not isinstance(node.ctx, ast.Load) and not getattr(node, "vc_hooked", False):
            node.value = _call("__vc_w__", node.value)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.in_function() and not isinstance(node.ctx, ast.Load):
            node.value = _call("__vc_w__", node.value, *([ast.Constant("field")] if getattr(node, "vc_field", False) else []))
        return node

    def _global_stores(self, node, targets):
        names = {n.id for t in targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} & self.globals[-1]
        return [ast.Expr(_call("__vc_global__", ast.Constant(n))) for n in sorted(names)]

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not self.in_function():
            return node
        pre = self._global_stores(node, [node.target])
        if isinstance(node.target, ast.Name):
            pre.append(ast.Expr(_call("__vc_aug__", _name(node.target.id))))
        return [*pre, node] if pre else node

    def visit_Assign(self, node):
        if self.in_function() and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, (ast.Slice, ast.Constant)):
            node.targets[0].vc_hooked = True      # __vc_setitem__ checks the frame
        if self.in_function() and len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute) and isinstance(node.targets[0].value, ast.Name):
            t = node.targets[0]
            t.vc_field, base = True, t.value.id
            attr = t.attr
            if attr.startswith("__") and not attr.endswith("__") and self.classes:
                attr = f"_{self.classes[-1].lstrip('_')}{attr}"
            return [self._assign(node), ast.Expr(_call("__vc_stored__", _name(base), ast.Constant(attr)))]
        if self.globals[-1]:
            pre = self._global_stores(node, node.targets)
            r = self._assign(node)
            return [*pre, r] if pre else r
        return self._assign(node)

    def _assign(self, node):
        self.generic_visit(node)
        if self.in_function() and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, (ast.Slice, ast.Constant)):
            t = node.targets[0]
            # the value is evaluated before the container and the key, as in an assignment
            return ast.Expr(_call("__vc_setitem__", node.value, t.value, t.slice))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        if not self.in_function():
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is not None:
                    spec = self.visit(spec)
                else:
                    spec = ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return _call("__vc_fstr__", *parts)

    def _comp(self, node, kind, elts):
        if not self.in_function() or any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            return self.generic_visit(node)
        # every nested comprehension is rewritten too
        self.scope.append("function")
        first, *rest = node.generators
        src = self.visit(first.iter)
        gens = [ast.comprehension(first.target, ast.Name("__vc_it__", ast.Load()), [self.visit(i) for i in first.ifs], 0)]
        for g in rest:
            gens.append(ast.comprehension(g.target, self.visit(g.iter), [self.visit(i) for i in g.ifs], 0))
        elts = [self.visit(e) for e in elts]
        elt = elts[0] if len(elts) == 1 else ast.Tuple(elts, ast.Load())
        self.scope.pop()
        gen = ast.GeneratorExp(elt, gens)
        lam = ast.Lambda(ast.arguments([], [ast.arg("__vc_it__")], None, [], [], None, []), gen)
        return _call("__vc_comp__", ast.Constant(kind), lam, src)

    def visit_ListComp(self, node):
        return self._comp(node, "list", [node.elt])

    def visit_SetComp(self, node):
        return self._comp(node, "set", [node.elt])

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen", [node.elt])

    def visit_DictComp(self, node):
        return self._comp(node, "dict", [node.key, node.value])

    # ----- statements
    def visit_For(self, node):
        if not self.in_function():
            return node
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        assigned = sorted((_assigned(node.body) - self.no_havoc[-1]) - {"_"} - targets)
        used = sorted(_mutated(node.body) - targets)
        self.n_loops += 1
        lv = f"__vc_loop_{self.n_loops}__"
        self.generic_visit(node)
        info = ast.Constant((self.filename, ".".join(self.qual), node.lineno, tuple(assigned), tuple(used)))
        pre = ast.Assign([ast.Name(lv, ast.Store())], _call("__vc_loop__", node.iter, info))

        def sets():
            out = []
            for v in sorted({*assigned, *(set(used) & self.local_names[-1])}):
                out.append(ast.If(
                    ast.Compare(ast.Constant(v), [ast.In()], [ast.Attribute(_name(lv), "vars", ast.Load())]),
                    [ast.Assign([ast.Name(v, ast.Store())],
                                ast.Subscript(ast.Attribute(_name(lv), "vars", ast.Load()), ast.Constant(v), ast.Load()))],
                    []))
            if not out:
                return []
            return [ast.If(ast.Attribute(_name(lv), "vars", ast.Load()), out, [])]
        node.iter = _name(lv)
        node.body = sets() + node.body
        node.orelse = sets() + node.orelse
        return [pre, node]

    def visit_While(self, node):
        if not self.in_function():
            return node
        assigned = sorted((_assigned(node.body) - self.no_havoc[-1]) - {"_"})
        used = sorted(_mutated([*node.body, node.test]))
        self.n_loops += 1
        lv = f"__vc_loop_{self.n_loops}__"
        self.generic_visit(node)
        info = ast.Constant((self.filename, ".".join(self.qual), node.lineno, tuple(assigned), tuple(used)))
        pre = ast.Assign([ast.Name(lv, ast.Store())], _call("__vc_while__", info))
        sets = [ast.If(
            ast.Compare(ast.Constant(v), [ast.In()], [ast.Attribute(_name(lv), "vars", ast.Load())]),
            [ast.Assign([ast.Name(v, ast.Store())], ast.Subscript(ast.Attribute(_name(lv), "vars", ast.Load()), ast.Constant(v), ast.Load()))],
            []) for v in sorted({*assigned, *(set(used) & self.local_names[-1])})]
        if sets:
            sets = [ast.If(ast.Attribute(_name(lv), "vars", ast.Load()), sets, [])]
        node.test = ast.BoolOp(ast.And(), [ast.Call(ast.Attribute(_name(lv), "step", ast.Load()), [], []), node.test])
        return [pre, *sets, node]

    def visit_Try(self, node):
        if not self.in_function():
            return node
        self.generic_visit(node)
        for h in node.handlers:
            h.body.insert(0, ast.Expr(_call("__vc_handler__")))
        if node.finalbody:
            node.finalbody = [ast.If(ast.UnaryOp(ast.Not(), _call("__vc_aborting__")), node.finalbody, [])]
        return node

    visit_TryStar = visit_Try


def _codes(code, out):
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            out.append(k)
            _codes(k, out)
    return out


def instrument_source(source, filename):
    tree = ast.parse(source, filename)
    tree = Transformer(filename).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Installed:
    def __init__(self):
        self.saved = []
        self.functions = 0
        self.skipped = []
        self.files = []


def install(pkg_dir=REPO_PKG):
    """Replaces the code of all live functions of the package."""
    from . import rt
    rt.install_builtins()
    table = {}
    res = Installed()
    for m in list(sys.modules.values()):
        fn = getattr(m, "__file__", None)
        if not fn or not fn.endswith(".py") or not os.path.realpath(fn).startswith(pkg_dir):
            continue
        with open(fn, encoding="utf-8") as f:
            source = f.read()
        res.files.append(fn)
        for c in _codes(instrument_source(source, fn), []):
            if "__vc_it__" in c.co_varnames[:c.co_argcount] or c.co_name == "<genexpr>":
                continue
            table.setdefault((fn, c.co_qualname, c.co_firstlineno), []).append(c)
    for f in gc.get_objects():
        if type(f) is not types.FunctionType:
            continue
        code = f.__code__
        if not code.co_filename.startswith(pkg_dir):
            continue
        cands = [c for c in table.get((code.co_filename, code.co_qualname, code.co_firstlineno), [])
                 if c.co_varnames[:c.co_argcount] == code.co_varnames[:code.co_argcount] and set(c.co_freevars) == set(code.co_freevars)]
        if len(cands) != 1:
            if code.co_name != "<lambda>" or cands:
                res.skipped.append(f"{code.co_filename}:{code.co_firstlineno} {code.co_qualname}")
            continue
        c = cands[0]
        if c.co_freevars != code.co_freevars:
            res.skipped.append(f"{code.co_qualname} (cells)")
            continue
        res.saved.append((f, code))
        f.__code__ = c
        res.functions += 1
    return res


def uninstall(res):
    for f, code in res.saved:
        f.__code__ = code
    res.saved = []
