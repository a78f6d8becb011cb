"""Runs one check: proof obligations (in a forked child, on the instrumented code) and the bounded concrete replay suite
(in the parent, on the untouched code), writes the evidence file and decides the exit code."""
import hashlib
import importlib
import json
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VC_REPO", "/repo")


class Proof:
    """one contract: `harness(ctx)` states precondition, call and postcondition.
    kind: 'proof' (all inputs) or 'bounded' (the stated bound applies; never counted as proved)"""
    def __init__(self, name, harness, kind="proof", bound=None, budget=60.0, witness=None, max_paths=4000, thorough_only=False, min_paths=1):
        self.name, self.harness, self.kind, self.bound, self.budget = name, harness, kind, bound, budget
        self.witness, self.max_paths, self.thorough_only, self.min_paths = witness, max_paths, thorough_only, min_paths


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("the operation did not finish in time")


class Suite:
    def __init__(self, cases, seed, tier, budget):
        self.cases, self.seed, self.tier = cases, seed, tier
        self.rng = random.Random(seed * 7919 + 17)
        self.failures = []
        self.n = 0
        self.distinct = set()
        self.samples = {}
        self.start = time.monotonic()
        self.budget = budget
        self.per_case = {}
        self.case_timeout = 60

    def more(self, share=1.0):
        return time.monotonic() - self.start < self.budget * share and len(self.failures) < 3

    @property
    def thorough(self):
        return self.tier == "thorough"

    def run(self, name, /, **params):
        if len(self.failures) >= 3:
            return False
        self.n += 1
        self.per_case[name] = self.per_case.get(name, 0) + 1
        text = json.dumps(params, sort_keys=True, default=str)
        self.distinct.add(hashlib.sha1((name + text).encode()).digest())
        if name not in self.samples:
            self.samples[name] = {"case": name, "params": json.loads(text)}
        err = execute(self.cases[name], params, self.case_timeout)
        if err is not None:
            self.failures.append(dict(case=name, params=params, error=err))
            return False
        return True


    def _alone(self, name, case, limit):
        """whether the case passes in a process of its own"""
        pid = os.fork()
        if pid == 0:
            try:
                os._exit(0 if execute(self.cases[name], case, int(limit)) is None else 1)
            finally:
                os._exit(1)
        end = time.monotonic() + limit + 5
        while time.monotonic() < end:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                return status == 0
            time.sleep(0.02)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return False

    def parallel(self, name, cases, limit=30.0, jobs=6):
        """runs cases in forked processes, so that one that never ends is found, too"""
        cases = [c for c in cases]
        jobs = max(1, min(jobs, len(cases), os.cpu_count() or 1))
        todo = [list(range(j, len(cases), jobs)) for j in range(jobs)]
        kids = []
        end = time.monotonic() + max(0.5, self.budget - (time.monotonic() - self.start))
        for mine in todo:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for i in mine:
                        if time.monotonic() > end:
                            break
                        os.write(w, f"{i} start\n".encode())
                        err = execute(self.cases[name], cases[i], int(limit))
                        os.write(w, f"{i} {json.dumps(err)}\n".encode())
                        if err:
                            break
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            os.set_blocking(r, False)
            kids.append(dict(pid=pid, fd=r, buf=b"", at=time.monotonic(), running=None))
        results = {}
        while kids:
            for k in list(kids):
                closed = False
                try:
                    while True:
                        b = os.read(k["fd"], 65536)
                        if not b:
                            closed = True
                            break
                        k["buf"] += b
                except BlockingIOError:
                    pass
                *lines, k["buf"] = k["buf"].split(b"\n")
                for line in lines:
                    i, _, rest = line.decode().partition(" ")
                    k["at"] = time.monotonic()
                    if rest == "start":
                        k["running"] = int(i)
                    else:
                        k["running"] = None
                        results[int(i)] = json.loads(rest)
                late = k["running"] is not None and time.monotonic() - k["at"] > limit
                if late:
                    os.kill(k["pid"], signal.SIGKILL)
                if closed or late:
                    os.waitpid(k["pid"], 0)
                    os.close(k["fd"])
                    if k["running"] is not None:
                        results[k["running"]] = "the case does not end" if late else "the process ended unexpectedly"
                    kids.remove(k)
            time.sleep(0.003)
        for i, err in sorted(results.items()):
            if err is not None and err.endswith(("does not end", "ended unexpectedly")) and self._alone(name, cases[i], limit):
                err = None          # the machine was busy
            self.n += 1
            self.per_case[name] = self.per_case.get(name, 0) + 1
            text = json.dumps(cases[i], sort_keys=True, default=str)
            self.distinct.add(hashlib.sha1((name + text).encode()).digest())
            self.samples.setdefault(name, {"case": name, "params": json.loads(text)})
            if err is not None and len(self.failures) < 3:
                self.failures.append(dict(case=name, params=cases[i], error=err))
        return len(results)


def execute(fn, params, timeout=60):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        fn(**params)
        return None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in reversed(tb[-4:]))
        return f"{type(e).__name__}: {str(e)[:600]} [{where}]"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


JOBS = max(1, min(6, (os.cpu_count() or 1) - 1))


def worker(mod, proofs, inst, tier, deadline, take, emit):
    """prove contracts until none is left; every result is reported at once"""
    from . import core, instrument
    engine = core.Engine()
    while (index := take()) is not None:
        p = proofs[index]
        left = deadline - time.monotonic()
        if left < 1:
            emit(dict(proof=dict(index=index, name=p.name, kind=p.kind, bound=p.bound, status="undecided", error="no time left", obligations=[], covers={})))
            continue
        n0 = len(engine.obligations)
        engine.cex = []
        try:
            info = engine.run(p.name, p.harness, budget_s=min(p.budget * (4 if tier == "thorough" else 1), left), max_paths=p.max_paths, min_paths=p.min_paths)
        except BaseException as e:
            info = dict(status="undecided", error=f"{type(e).__name__}: {e}", paths=0, completed=0)
        obs = engine.obligations[n0:]
        rec = dict(index=index, name=p.name, kind=p.kind, bound=p.bound, **{k: info.get(k) for k in ("status", "error", "paths", "completed", "time_s")})
        by = {}
        for o in obs:
            d = by.setdefault(o.name, dict(n=0, discharged=0, backends={}, failed=[]))
            d["n"] += 1
            if o.status == "discharged":
                d["discharged"] += 1
                d["backends"][o.backend] = d["backends"].get(o.backend, 0) + 1
            elif len(d["failed"]) < 2:
                d["failed"].append(dict(status=o.status, backend=o.backend, path=o.path[-12:], model=_model(o.model), detail=o.detail))
        rec["by_name"] = by
        rec["obligations"] = len(obs)
        rec["discharged"] = sum(o.status == "discharged" for o in obs)
        missing = [n for (h, n), k in engine.covers.items() if h == p.name and k == 0]
        if rec["status"] == "discharged" and missing:
            rec["status"], rec["error"] = "undecided", f"vacuous: never reached {missing}"
        rec["covers"] = {n: k for (h, n), k in engine.covers.items() if h == p.name}
        if rec["status"] == "refuted" and p.witness is not None:
            instrument.uninstall(inst)
            for o in obs:
                if o.status != "refuted" or o.model is None:
                    continue
                try:
                    case, params = p.witness(o.model, o)
                except BaseException as e:
                    rec["witness_error"] = f"{type(e).__name__}: {e}"
                    continue
                err = execute(mod.CASES[case], params)
                if err is not None:
                    rec["witness"] = dict(case=case, params=params, error=err, obligation=o.name)
                    break
            inst = instrument.install()
        emit(dict(proof=rec))
    emit(dict(functions=engine.functions, contracts_used=engine.contracts_used, solver_queries=engine.n_queries, solver_time_s=round(engine.solver_time, 3)))


def run_proofs(mod, tier, deadline, directory=None, jobs=1):
    """all contracts of the property, shared among processes"""
    from . import instrument
    inst = instrument.install()
    proofs = [p for p in mod.proofs() if not p.thorough_only or tier == "thorough"]
    out = dict(proofs=[], functions_instrumented=inst.functions, not_instrumented=inst.skipped[:20], functions={}, contracts_used={}, solver_queries=0, solver_time_s=0.0)
    records = []
    jobs = max(1, min(jobs, len(proofs)))
    if jobs == 1 or len(proofs) > 30000:
        todo = iter(range(len(proofs)))
        worker(mod, proofs, inst, tier, deadline, lambda: next(todo, None), records.append)
        instrument.uninstall(inst)
    else:
        # the numbers of the contracts that are left are in a pipe, from which the processes take them
        r, w = os.pipe()
        os.write(w, b"".join(k.to_bytes(2, "little") for k in range(len(proofs))))
        os.close(w)
        pids = []
        for k in range(jobs):
            pid = os.fork()
            if pid == 0:
                try:
                    with open(os.path.join(directory, f"worker-{k}.jsonl"), "w") as f:
                        def emit(x):
                            f.write(json.dumps(x, default=str) + "\n")
                            f.flush()

                        def take():
                            b = os.read(r, 2)
                            return int.from_bytes(b, "little") if len(b) == 2 else None
                        worker(mod, proofs, inst, tier, deadline, take, emit)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            pids.append(pid)
        os.close(r)
        limit = deadline + 20
        while pids:
            for pid in list(pids):
                if os.waitpid(pid, os.WNOHANG)[0]:
                    pids.remove(pid)
                elif time.monotonic() > limit:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    pids.remove(pid)
            time.sleep(0.005)
        for k in range(jobs):
            try:
                with open(os.path.join(directory, f"worker-{k}.jsonl")) as f:
                    for line in f:
                        try:
                            records.append(json.loads(line))
                        except ValueError:
                            pass
            except OSError:
                pass
    done = {}
    for x in records:
        if "proof" in x:
            done[x["proof"]["index"]] = x["proof"]
        else:
            for n, v in x["functions"].items():
                out["functions"][n] = out["functions"].get(n, 0) + v
            for n, v in x["contracts_used"].items():
                if isinstance(v, (int, float)):
                    out["contracts_used"][n] = out["contracts_used"].get(n, 0) + v
                else:
                    out["contracts_used"][n] = v
            out["solver_queries"] += x["solver_queries"]
            out["solver_time_s"] = round(out["solver_time_s"] + x["solver_time_s"], 3)
    for i, p in enumerate(proofs):
        out["proofs"].append(done.get(i) or dict(name=p.name, kind=p.kind, bound=p.bound, status="undecided", error="the prover did not return", obligations=[], covers={}))
    return out


def _model(m):
    if m is None:
        return None
    s = str(m)
    return s if len(s) < 1500 else s[:1500] + " ..."


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.monotonic()
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    try:
        import torch
        if pid != "C25":      # the pool that this call creates does not survive a fork; C25 runs threads in forked processes
            torch.set_num_threads(1)
        import logging
        logging.disable(logging.CRITICAL)
        import sd_mecha
        if not os.path.realpath(sd_mecha.__file__).startswith(os.path.realpath(REPO)):
            print(f"sd_mecha was imported from {sd_mecha.__file__}")
    except BaseException as e:
        return finish_import_failure(pid, tier, seed, start, e)
    mod = importlib.import_module(f"contracts.{pid.lower()}")

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        if not rep.get("case"):
            print(json.dumps(rep, indent=1))
            print("no failing input was found for this obligation; re-running the proof:")
            out = run_proofs(mod, tier, time.monotonic() + 300)
            bad = [p["name"] for p in out["proofs"] if p["status"] == "refuted"]
            print("refuted:", bad)
            return 1 if bad else 0
        err = execute(mod.CASES[rep["case"]], rep["params"], 300)
        print(f"replay of {rep['case']}: {'FAILS: ' + err if err else 'passes'}")
        return 1 if err else 0

    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    quick = tier == "quick"
    proof_budget = getattr(mod, "PROOF_BUDGET", 100.0) * (1 if quick else 6)
    suite_budget = getattr(mod, "SUITE_BUDGET", 10.0) * (1 if quick else 20)
    scratch = tempfile.mkdtemp(prefix=f"vc_{pid}_")
    proofs_file = os.path.join(scratch, "proofs.json")
    os.environ["VC_SCRATCH"] = scratch
    sys.stdout.flush()
    sys.stderr.flush()
    pid_child = 0
    if only != "suite":
        pid_child = os.fork()
        if pid_child == 0:
            code = 0
            try:
                if not os.environ.get("VC_DEBUG"):
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 2)
                    os.dup2(dn, 1)
                out = run_proofs(mod, tier, time.monotonic() + proof_budget, scratch, JOBS)
                with open(proofs_file + ".tmp", "w") as f:
                    json.dump(out, f, default=str)
                os.rename(proofs_file + ".tmp", proofs_file)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
    suite = Suite(mod.CASES, seed, tier, suite_budget)
    suite_error = None
    if only != "proofs":
        try:
            if not os.environ.get("VC_DEBUG"):
                err_fd = os.dup(2)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2)
            mod.suite(suite)
        except BaseException as e:
            suite_error = "".join(traceback.format_exception(e))[-2500:]
        finally:
            if not os.environ.get("VC_DEBUG"):
                os.dup2(err_fd, 2)
    out = None
    if pid_child:
        limit = time.monotonic() + proof_budget + 30
        while True:
            done, _ = os.waitpid(pid_child, os.WNOHANG)
            if done:
                break
            if time.monotonic() > limit:
                os.kill(pid_child, signal.SIGKILL)
                os.waitpid(pid_child, 0)
                break
            time.sleep(0.02)
        try:
            with open(proofs_file) as f:
                out = json.load(f)
        except OSError:
            out = None
    shutil.rmtree(scratch, ignore_errors=True)
    return finish(mod, pid, tier, seed, start, out, suite, suite_error, only)


def finish_import_failure(pid, tier, seed, start, e):
    text = "".join(traceback.format_exception(e))[-4000:]
    path = write_replay(pid, 0, dict(property=pid, obligation="sd_mecha can be imported", output=text))
    write_evidence(pid, dict(property=pid, tier=tier, seed=seed, level="other", violations=1, wall_s=round(time.monotonic() - start, 2),
                             coverage=dict(explanation="sd_mecha could not be imported: " + text[-1500:])))
    print(text)
    print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    return 1


def write_replay(pid, n, data):
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    p = d / f"{pid}-{n}.json"
    p.write_text(json.dumps(data, indent=1, default=str))
    return f"replays/{p.name}"


def write_evidence(pid, ev):
    d = ROOT / "evidence"
    d.mkdir(exist_ok=True)
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        ev["coverage"].pop("obligation_names", None)
        s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        ev["coverage"]["samples"] = [str(x)[:200] for x in ev["coverage"].get("samples", [])][:5]
        s = json.dumps(ev, indent=1, default=str)
    (d / f"{pid}.json").write_text(s)


def known_findings(pid):
    """lines `KNOWN: property=<id> case=<case> match=<text of the failure>`; lines starting with fixed: suppress nothing"""
    res = []
    p = ROOT / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("KNOWN:") and f"property={pid} " in line:
                res.append(line)
    return res


def finish(mod, pid, tier, seed, start, out, suite, suite_error, only):
    violations = []
    undecided = []
    proofs = out["proofs"] if out else []
    if out is None and only != "suite":
        undecided.append("the prover did not return")
    ob = sum(p["obligations"] if isinstance(p["obligations"], int) else 0 for p in proofs)
    ok = sum(p.get("discharged", 0) for p in proofs)
    for p in proofs:
        if p["status"] == "undecided":
            undecided.append(f"{p['name']}: {p['error']}")
        if p["status"] == "refuted":
            failed = [n for n, d in p["by_name"].items() if d["n"] != d["discharged"] and any(f["status"] == "refuted" for f in d["failed"])]
            violations.append(dict(proof=p, failed=failed))
    if suite_error:
        undecided.append(f"bounded suite: {suite_error}")

    n = 0
    lines = []
    concrete = list(suite.failures)
    for f in concrete:
        path = write_replay(pid, n, dict(property=pid, case=f["case"], params=f["params"], error=f["error"], seed=seed,
                                         reproduce=f"/opt/venv/bin/python check.py {pid} --replay replays/{pid}-{n}.json",
                                         failed_obligations=[v["failed"] for v in violations]))
        n += 1
        lines.append((f"  failing input: {f['case']}({json.dumps(f['params'], default=str)[:300]}): {f['error'][:500]}",
                      f"VIOLATION property={pid} replay={path}"))
    for v in violations:
        p = v["proof"]
        w = p.get("witness")
        detail = {nme: d["failed"] for nme, d in p["by_name"].items() if d["failed"]}
        data = dict(property=pid, obligation=v["failed"], contract=p["name"], verifier_output=detail, seed=seed)
        if w:
            data.update(case=w["case"], params=w["params"], error=w["error"],
                        reproduce=f"/opt/venv/bin/python check.py {pid} --replay replays/{pid}-{n}.json")
        elif concrete:
            data.update(case=concrete[0]["case"], params=concrete[0]["params"], error=concrete[0]["error"])
        path = write_replay(pid, n, data)
        n += 1
        msg = f"  failed obligation: [{p['name']}] {'; '.join(v['failed'])[:600]}"
        if w:
            msg += f"\n  counterexample replayed on the real code: {w['case']}({json.dumps(w['params'], default=str)[:300]}): {w['error'][:400]}"
        suffix = "" if (w or concrete) else " no-failing-input-found"
        lines.append((msg, f"VIOLATION property={pid} replay={path}{suffix}"))

    bounded = [p for p in proofs if p["kind"] == "bounded"]
    proved = [p for p in proofs if p["kind"] == "proof"]
    backends = {}
    for p in proofs:
        for d in p.get("by_name", {}).values():
            for b, k in d["backends"].items():
                backends[b] = backends.get(b, 0) + k
    functions = out["functions"] if out else {}
    cov = dict(
        obligations=sum(p["obligations"] for p in proved if isinstance(p["obligations"], int)),
        discharged=sum(p.get("discharged", 0) for p in proved),
        bounded_obligations=sum(p["obligations"] for p in bounded if isinstance(p["obligations"], int)),
        bounded_discharged=sum(p.get("discharged", 0) for p in bounded),
        checker_cmd=f"/opt/venv/bin/python check.py {pid} --tier {tier}",
        trusted_base=list(mod.TRUSTED),
        back_ends=backends,
        solver_queries=out["solver_queries"] if out else 0,
        solver_time_s=out["solver_time_s"] if out else 0,
        functions_under_contract=[f"{k} ({v} calls)" for k, v in sorted(functions.items())][:120],
        functions_rewritten=out["functions_instrumented"] if out else 0,
        functions_not_rewritten=out["not_instrumented"] if out else [],
        contracts_used_instead_of_bodies=out["contracts_used"] if out else {},
        contracts=[dict(name=p["name"], kind=p["kind"], bound=p["bound"], status=p["status"], obligations=p["obligations"],
                        paths=p.get("paths"), time_s=p.get("time_s"), error=p.get("error"), reached=p.get("covers")) for p in proofs],
        obligation_names={p["name"]: {n_: f"{d['discharged']}/{d['n']}" for n_, d in p.get("by_name", {}).items()} for p in proofs},
        undecided=undecided,
        evaluations=suite.n,
        distinct_nontrivial=len(suite.distinct),
        rule="bounded cross-check on the untouched code; a case counts once per distinct parameters. " + getattr(mod, "RULE", ""),
        cases=suite.per_case,
        samples=list(suite.samples.values())[:12],
    )
    cov["explanation"] = ("contract obligations generated from the source in /repo on this run and discharged for all inputs (kind 'proof'), or up to the "
                          "stated bound (kind 'bounded'); `evaluations` counts the concrete executions of the bounded cross-check, which is never counted as proved.")
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.monotonic() - start, 2), violations=len(lines))
    write_evidence(pid, ev)

    print(f"{pid}: {ok}/{ob} obligations discharged in {len(proofs)} contracts ({len(bounded)} bounded), {suite.n} concrete cases, "
          f"{ev['wall_s']} s")
    for u in undecided:
        print(f"UNDECIDED {pid}: {u[:1500]}")
    kf = known_findings(pid)
    for line in kf:
        print("KNOWN-FINDING: " + line[len("KNOWN:"):].strip())
    if lines:
        # one line per violation; those with a failing input first
        for msg, vio in lines:
            print(msg)
        for msg, vio in lines:
            print(vio)
        return 1
    return 0
