"""
Path exploration and proof obligations.

A *harness* is a Python function `h(ctx)` that states one contract: it builds an arbitrary pre-state out of
fresh symbolic values, assumes the precondition, runs a function of /repo through the interpreter (interp.py)
and proves the postcondition.  Every path is explored by re-running the harness with a growing list of decisions;
a branch on a symbolic condition forks when the path condition allows both outcomes.
Each `ctx.prove` is one verification condition, decided by z3 (and by cvc5 when z3 answers unknown).
"""
import os
import time
import traceback
from . import *
import z3


class EngineSignal(BaseException):
    """not an exception of the verified program"""
    def __init__(self, *args):
        global _aborting
        BaseException.__init__(self, *args)
        _aborting = True


class PathEnd(EngineSignal):
    """the current path is infeasible, or ends here on purpose (end of a loop step)"""


class Unsupported(EngineSignal):
    """the verified code is outside of the modelled subset: the harness is undecided"""


class Timeout(EngineSignal):
    pass


class Obligation:
    __slots__ = ("harness", "name", "status", "backend", "time", "path", "model", "detail")

    def __init__(self, harness, name, status, backend, time_, path, model=None, detail=None):
        self.harness, self.name, self.status, self.backend = harness, name, status, backend
        self.time, self.path, self.model, self.detail = time_, path, model, detail


_ctx = None
_aborting = False   # an EngineSignal is unwinding: clean-up code of the program must not run


def ctx():
    if _ctx is None:
        raise Unsupported("no active context")
    return _ctx


def active():
    return _ctx is not None


def pyraise(e, src="model"):
    """raise an exception of the verified program from a model"""
    e._from_repo = True
    e._repo_where = src
    raise e


class Ctx:
    def __init__(self, harness_name, decisions, engine):
        self.harness = harness_name
        self.decisions = list(decisions)
        self.pos = 0
        self.trace = []          # decisions of this path with labels
        self.engine = engine
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.branch_timeout_ms)
        self.pc = []
        self.counter = {}
        self.covered = set()
        self.n_proved = 0
        self.steps = 0
        self.decimals = False    # floats stand for their shortest decimal, not for the binary fraction
        self.frame = None        # frame condition of concurrent tasks (frames.py)
        self.overrides = {}      # function -> contract used instead of its body
        self.model_bytearray = False   # every bytearray is a model: its content may become symbolic
        self.notes = []
        self.product = None      # contract of the product of two reals

    # ----- fresh values
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}!{n}" if n else base

    def int(self, base, lo=None, hi=None):
        v = z3.Int(self.name(base))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def real(self, base):
        return z3.Real(self.name(base))

    def bool(self, base):
        return z3.Bool(self.name(base))

    def fun(self, base, *sorts):
        return z3.Function(self.name(base), *sorts)

    # ----- path condition
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        self.pc.append(cond)
        self.solver.add(cond)

    def feasible(self):
        return self.solver.check() != z3.unsat

    def check(self, cond):
        """sat / unsat / unknown of pc and cond"""
        self.engine.n_queries += 1
        t = time.monotonic()
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        self.engine.solver_time += time.monotonic() - t
        return r

    def must(self, cond):
        """cond is a consequence of the path condition (used by models to simplify; sound when it says no)"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    def branch(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        if _aborting:
            raise PathEnd()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.trace.append((label, d))
            self.assume(cond if d else z3.Not(cond))
            return d
        self.engine.tick()
        can_t = self.check(cond) != z3.unsat
        can_f = self.check(z3.Not(cond)) != z3.unsat
        if not can_t and not can_f:
            raise PathEnd()
        if can_t and can_f:
            self.engine.push(self.decisions + [False])
        d = can_t
        if not (can_t and can_f):
            # forced: not a decision, the replay recomputes it
            self.trace.append((label, d))
            self.decisions.append(d)
            self.pos += 1
            self.assume(cond if d else z3.Not(cond))
            return d
        self.decisions.append(d)
        self.pos += 1
        self.trace.append((label, d))
        self.assume(cond)
        return True

    def choice(self, n, label=""):
        """an arbitrary number below n (all are explored)"""
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.trace.append((label, d))
            return d
        for i in range(n - 1, 0, -1):
            self.engine.push(self.decisions + [i])
        self.decisions.append(0)
        self.pos += 1
        self.trace.append((label, 0))
        return 0

    def choose(self, options, label=""):
        options = list(options)
        return options[self.choice(len(options), label)]

    # ----- obligations
    def prove(self, name, cond, detail=None):
        if _aborting:
            raise PathEnd()
        self.engine.tick()
        self.n_proved += 1
        path = [f"{l}={d}" if l else str(d) for l, d in self.trace]
        t = time.monotonic()
        if isinstance(cond, bool):
            st, be, model = ("discharged" if cond else "refuted"), "evaluation", None
            if not cond and not self.feasible():
                raise PathEnd()
            if not cond:
                model = self.model()
        else:
            st, be, model = self.decide(cond)
        ob = Obligation(self.harness, name, st, be, time.monotonic() - t, path, model, detail)
        self.engine.record(ob, self)
        return st == "discharged"

    def model(self):
        """a model of the path condition"""
        return self.solver.model() if self.solver.check() == z3.sat else None

    def decide(self, cond):
        s = z3.simplify(cond)
        if z3.is_true(s):
            return "discharged", "z3-simplify", None
        self.engine.n_queries += 1
        t = time.monotonic()
        try:
            solver = z3.Solver()
            solver.set("timeout", self.engine.prove_timeout_ms)
            for c in self.pc:
                solver.add(c)
            solver.add(z3.Not(cond))
            r = solver.check()
            if r == z3.unsat:
                return "discharged", "z3", None
            if r == z3.sat:
                return "refuted", "z3", solver.model()
            if self.engine.cvc5(solver):
                return "discharged", "cvc5", None
            return "unknown", "z3+cvc5", None
        finally:
            self.engine.solver_time += time.monotonic() - t

    def cover(self, name):
        self.engine.covers.setdefault((self.harness, name), 0)
        if self.feasible():
            self.engine.covers[(self.harness, name)] += 1


class Engine:
    def __init__(self, branch_timeout_ms=2000, prove_timeout_ms=8000, max_paths=4000, budget_s=120.0, max_steps=200000):
        self.max_steps = max_steps
        self.branch_timeout_ms = branch_timeout_ms
        self.prove_timeout_ms = prove_timeout_ms
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.obligations = []
        self.covers = {}
        self.harnesses = {}      # name -> dict(paths, completed, status, error)
        self.functions = {}      # qualified name of interpreted function -> number of calls
        self.contracts_used = {}  # name of assumed contract / model -> count
        self.n_queries = 0
        self.solver_time = 0.0
        self.memo = {}
        self.work = []
        self.deadline = None
        self.cex = []

    def tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Timeout()

    def push(self, decisions):
        self.work.append(decisions)

    def record(self, ob, c):
        self.obligations.append(ob)
        if ob.status == "refuted":
            self.cex.append((ob, getattr(c, "describe", None) and c.describe(ob.model)))

    def cvc5(self, solver):
        try:
            import cvc5
        except ImportError:
            return False
        try:
            tm = cvc5.TermManager()
            s = cvc5.Solver(tm)
            s.setOption("tlimit-per", str(self.prove_timeout_ms))
            s.setLogic("ALL")
            parser = cvc5.InputParser(s)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, solver.to_smt2(), "vc")
            sm = parser.getSymbolManager()
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(s, sm)
                if "unsat" in str(out):
                    return True
            return False
        except Exception:
            return False

    def run(self, name, harness, budget_s=None, max_paths=None, min_paths=1):
        """Explores every path of the harness; returns its status."""
        global _ctx, _aborting
        info = dict(paths=0, completed=0, status="discharged", error=None, cases=0)
        self.harnesses[name] = info
        self.work = [[]]
        start = time.monotonic()
        self.deadline = start + (budget_s or self.budget_s)
        n0 = len(self.obligations)
        max_paths = max_paths or self.max_paths
        while self.work:
            if info["paths"] >= max_paths:
                info["status"], info["error"] = "undecided", f"more than {max_paths} paths"
                break
            decisions = self.work.pop()
            c = Ctx(name, decisions, self)
            _ctx = c
            _aborting = False
            info["paths"] += 1
            try:
                harness(c)
                if c.feasible():
                    info["completed"] += 1
            except PathEnd:
                if c.n_proved:
                    info["completed"] += 1
            except Unsupported as e:
                info["status"], info["error"] = "undecided", f"unsupported: {e}"
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
                break
            except Timeout:
                info["status"], info["error"] = "undecided", "time budget exhausted"
                break
            except RecursionError:
                info["status"], info["error"] = "undecided", "recursion limit"
                break
            except z3.Z3Exception as e:
                info["status"], info["error"] = "undecided", f"z3: {e}"
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
                break
            except Exception as e:
                # an exception escaped the harness: the harness expects none
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
                from . import rt
                if isinstance(e, (AttributeError, NameError)):
                    # the contract does not fit the structure of the code (for instance a renamed field)
                    info["status"], info["error"] = "undecided", f"{type(e).__name__}: {str(e)[:300]} at {where}"
                    if os.environ.get("VC_DEBUG"):
                        traceback.print_exc()
                    break
                if rt.from_program(e) and c.feasible():
                    ob = Obligation(name, "no unexpected exception", "refuted", "z3", 0.0,
                                    [f"{l}={d}" for l, d in c.trace], c.model(),
                                    f"{type(e).__name__}: {str(e)[:200]} raised at {where}")
                    self.record(ob, c)
                    info["completed"] += 1
                else:
                    info["status"], info["error"] = "undecided", f"{type(e).__name__}: {str(e)[:300]} at {where}"
                    if os.environ.get("VC_DEBUG"):
                        traceback.print_exc()
                    break
            finally:
                _ctx = None
                _aborting = False
        obs = self.obligations[n0:]
        info["obligations"] = len(obs)
        if any(o.status == "refuted" for o in obs):
            info["status"] = "refuted"
        elif info["status"] == "discharged":
            if any(o.status == "unknown" for o in obs):
                info["status"], info["error"] = "undecided", "solver answered unknown"
            elif not obs:
                info["status"], info["error"] = "undecided", "vacuous: no obligation was generated"
            elif info["completed"] < min_paths:
                info["status"], info["error"] = "undecided", f"vacuous: {info['completed']} complete paths"
        info["time_s"] = round(time.monotonic() - start, 3)
        self.deadline = None
        return info
