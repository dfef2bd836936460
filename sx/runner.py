"""Explores harnesses symbolically, decides their assertions with z3, replays
counterexamples on the real code and writes the evidence."""

import gc
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


ALIVE = []      # the simulations of the current path, which are not to be closed before its end


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


# ------------------------------------------------------------------ replay server

class ReplayServer:
    def __init__(self):
        self.p = None

    def run(self, case, timeout=60):
        case = dict(case, timeout=timeout)
        for attempt in range(2):
            if self.p is None or self.p.poll() is not None:
                env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
                self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "sx", "replay.py"), "--server"],
                                          stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                          text=True, env=env, cwd=HERE)
            try:
                self.p.stdin.write(json.dumps(case) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, ValueError):
                pass
            self.p = None
        return {"failed": [], "error": "ReplayServerDied", "trace": "", "aborted": False, "covers": [], "nchecks": 0}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


# ------------------------------------------------------------------ one job

class Job:
    def __init__(self, module, harness, params=None, prefix=None, max_paths=100000, budget=120, path_timeout=60,
                 check_timeout=15000, validate=2, weight=1):
        self.__dict__.update(module=module, harness=harness, params=params or {}, prefix=prefix or {},
                             max_paths=max_paths, budget=budget, path_timeout=path_timeout,
                             check_timeout=check_timeout, validate=validate, weight=weight)

    def name(self):
        p = ",".join(f"{k}={v}" for k, v in {**self.params, **self.prefix}.items())
        return f"{self.harness}({p})"


class Violation(Exception):
    pass


class JobRun:
    def __init__(self, job, prop, seed=1):
        from . import engine as E, ctx
        self.E, self.ctx = E, ctx
        self.job, self.prop = job, prop
        self.e = E.Engine(check_timeout=job.check_timeout)
        self.rnd = random.Random(f"{seed}/{job.name()}")
        self.server = ReplayServer()
        self.res = dict(job=job.name(), module=job.module, harness=job.harness, params=job.params, violations=[],
                        unreproduced=[], undecided=[], engine_failures=[], covers={}, complete=False, validated=0,
                        validated_aborted=0, samples=[], labels={}, spurious_refuted=0, path_cuts=0,
                        sampled_failures=[])
        self.seen_labels = set()

    # -- models -> inputs
    def inputs_of(self, m):
        E, z3 = self.E, self.E.z3
        out = {}
        ids = {}
        nums = set()
        for name, (kind, t, extra) in self.e.inputs.items():
            if kind == "str":
                nums.add(m.eval(t, model_completion=True).as_long())
        for n in sorted(x for x in nums if x >= E.LIT_LIMIT):
            ids[n] = f"val{len(ids):02d}"
        for name, (kind, t, extra) in self.e.inputs.items():
            v = m.eval(t, model_completion=True)
            if kind == "str":
                n = v.as_long()
                if n < E.LIT_LIMIT:
                    lit = self.e.lit_names[n - 1] if 0 < n <= len(self.e.lit_names) else f"bad{n}"
                    out[name] = lit
                else:
                    out[name] = ids[n]
            elif kind in ("int", "choice"):
                out[name] = v.as_long()
            elif kind == "bool":
                out[name] = bool(z3.is_true(v))
            else:
                f = E.value_of(v)
                if kind == "time":
                    f = Fraction(round(f * E.GRID), E.GRID)
                out[name] = float(f)
        return out

    def nice_model(self, extra):
        """A model of path & extra with short decimal numbers where possible."""
        E, z3 = self.E, self.E.z3
        s = self.e.solver
        s.push()
        try:
            s.add(*extra)
            s.set("timeout", 6000)
            r = s.check()
            if r != z3.sat:
                return r, None
            m = s.model()
            for name, (kind, t, _x) in self.e.inputs.items():
                if kind not in ("real", "time"):
                    continue
                v = E.value_of(m.eval(t, model_completion=True))
                digits = [4] if kind == "time" else [2, 4, 9]
                for d in digits:
                    w = Fraction(round(v * 10 ** d), 10 ** d)
                    s.push()
                    s.add(t == E.rv(w))
                    s.set("timeout", 1000)
                    if s.check() == z3.sat:
                        m = s.model()
                        break      # keep the push
                    s.pop()
                    s.set("timeout", 6000)
            return z3.sat, m
        finally:
            n = s.num_scopes()
            # pop everything above the trail
            base = sum(1 for k in self.e.trail if k[0] in ("dec", "assert"))
            if n > base:
                s.pop(n - base)
            s.set("timeout", self.e.feas_timeout)

    def uf_lemmas(self, m):
        """True point facts about exp, log, ... at the arguments of model m."""
        E, z3 = self.E, self.E.z3
        out = []
        for name, apps in self.e.uf_apps.items():
            f = E.REAL_FUNCS.get(name)
            if f is None:
                continue
            for args, r in apps:
                vals = []
                try:
                    for a in args:
                        vals.append(E.value_of(m.eval(a, model_completion=True)))
                    y = f(*[float(v) for v in vals])
                    if isinstance(y, complex) or y != y or abs(y) > 1e30:
                        continue
                except Exception:
                    continue
                eps = Fraction(1, 10 ** 9) * max(1, abs(Fraction(y)))
                lo, hi = E.rv(Fraction(y) - eps), E.rv(Fraction(y) + eps)
                if name in ("exp", "log", "sqrt"):
                    a, v = args[0], E.rv(vals[0])
                    dom = z3.BoolVal(True) if name == "exp" else a > 0
                    out.append(z3.Implies(z3.And(dom, a <= v), r <= hi))
                    out.append(z3.Implies(z3.And(dom, a >= v), r >= lo))
                else:
                    out.append(z3.Implies(z3.And(*[a == E.rv(v) for a, v in zip(args, vals)]), z3.And(r >= lo, r <= hi)))
        return out

    # -- deciding the assertions of a path
    def decide(self, pend):
        E, z3 = self.E, self.E.z3
        for t, label, _d in pend:
            self.res["labels"][label] = self.res["labels"].get(label, 0) + 1
        conj = z3.And(*[t for t, _l, _d in pend]) if len(pend) > 1 else pend[0][0]
        st, m = self.e.prove(conj)
        if st == "unsat":
            return
        if st == "unknown":
            rest = []
            for t, label, d in pend:
                st, m = self.e.prove(t)
                if st == "unsat":
                    continue
                if st == "sat":
                    self.counterexample([(t, label, d)])
                else:
                    rest.append((t, label, d))
            for t, label, d in rest:
                # not decided in time: look for a counterexample among concrete models of the path
                self.e.stats["unknown_check"] += 1
                self.res["undecided"].append(label)
                self.sample_path(3, label)
            return
        self.counterexample(pend)

    def counterexample(self, pend):
        E, z3 = self.E, self.E.z3
        neg = z3.Or(*[z3.Not(t) for t, _l, _d in pend])
        lemmas = []
        tried = []
        last = None
        for attempt in range(10):
            extra = [neg] + lemmas
            if attempt % 2 == 0 and attempt < 6:
                rob = self.robust(pend)
                st, m = self.nice_model([rob] + lemmas) if rob is not None else (z3.unsat, None)
                if st != z3.sat:
                    st, m = self.nice_model(extra)
            else:
                st, m = self.nice_model(extra)
            if st == z3.unsat:
                if lemmas:
                    self.res["spurious_refuted"] += 1
                    return
                st2, m = self.e.prove(z3.Not(neg))
                if st2 == "unsat":
                    return
                if m is None:
                    break
            if m is None:
                st2, m = self.e.prove(z3.Or(z3.Not(neg), *[z3.Not(l) for l in lemmas]))
                if st2 == "unsat":
                    self.res["spurious_refuted"] += 1
                    return
                if m is None:
                    break
            inputs = self.inputs_of(m)
            bad = [l for t, l, _d in pend if not z3.is_true(m.eval(t, model_completion=True))]
            r = self.replay(inputs)
            last = (inputs, bad, r)
            if r["failed"] or r["error"]:
                self.violation(inputs, bad, r)
                raise Violation()
            new = self.uf_lemmas(m)
            have = {l.get_id() for l in lemmas}
            fresh = [l for l in new if l.get_id() not in have]
            if fresh:
                lemmas += fresh
            else:
                # move away from this model
                diff = []
                for name, (kind, t, _x) in self.e.inputs.items():
                    if kind in ("real", "time"):
                        v = m.eval(t, model_completion=True)
                        diff.append(z3.Or(t > v + z3.Q(1, 50), t < v - z3.Q(1, 50)))
                    elif kind != "choice":
                        diff.append(t != m.eval(t, model_completion=True))
                if not diff:
                    break
                neg = z3.And(neg, z3.Or(*diff))
        if last is None:
            self.e.stats["unknown_check"] += 1
            self.res["undecided"].append(pend[0][1])
            return
        self.res["unreproduced"].append(dict(labels=last[1], inputs=last[0],
                                             detail=[_detail(d) for _t, l, d in pend if l in last[1]][:2],
                                             had_uf=any(k in E.REAL_FUNCS for k in self.e.uf_apps),
                                             concretized=self.e.path_concretized))

    def robust(self, pend):
        """NOT property with a margin, for |a-b| <= tol assertions."""
        E, z3 = self.E, self.E.z3
        out = []
        for t, _l, _d in pend:
            w = widen(z3, z3.simplify(t))
            out.append(z3.Not(w))
        return z3.Or(*out)

    def replay(self, inputs, timeout=60):
        return self.server.run(dict(property=self.prop, module=self.job.module, harness=self.job.harness,
                                    params=self.job.params, inputs=inputs), timeout)

    def violation(self, inputs, labels, r):
        lab = [l for l, _d in r["failed"]] or [f"raises {r['error']}"]
        self.res["violations"].append(dict(property=self.prop, module=self.job.module, harness=self.job.harness,
                                           params=self.job.params, inputs=inputs, solver_labels=labels,
                                           labels=lab, failed=r["failed"], error=r["error"], trace=r.get("trace")))

    def sample_path(self, n, label):
        """Concrete models of the current path (where z3 did not decide or the engine gave up)."""
        E, z3 = self.E, self.E.z3
        block = []
        for _ in range(n):
            st, m = self.nice_model(block)
            if m is None:
                return
            inputs = self.inputs_of(m)
            r = self.replay(inputs)
            if r["failed"] or r["error"]:
                self.violation(inputs, [label], r)
                raise Violation()
            diff = [t != m.eval(t, model_completion=True) for _k, t, _x in self.e.inputs.values() if _k != "choice"]
            if not diff:
                return
            block.append(z3.Or(*diff))

    # -- one path
    def one_path(self, fn):
        E = self.E
        S = self.ctx.SymS(self.e, self.job.params, self.job.prefix)
        S.on_flush = self.decide
        self.S = S
        fn(S, **self.job.params)
        S.flush()
        return S

    def run(self, snap):
        E = self.E
        job = self.job
        mod = importlib.import_module("harness." + job.module)
        fn = getattr(mod, job.harness)
        t0 = time.time()
        st = self.e.stats
        from . import replay as RP
        done = False
        signal.signal(signal.SIGALRM, _alarm)
        gc.collect()
        gc.freeze()
        gc.disable()    # what a path leaves behind (interrupted simulations) must not run on within another
        hook, sys.unraisablehook = sys.unraisablehook, lambda u: None
        devnull = open(os.devnull, "w")
        out, sys.stdout = sys.stdout, devnull
        try:
            while True:
                snap.restore()
                ALIVE.clear()
                self.S = None
                if st["paths"] % 16 == 15:
                    gc.collect()
                aborted = False
                signal.alarm(job.path_timeout)
                S = None
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        S = self.e.run_path(lambda: self.one_path(fn))
                except E.PathAbort:
                    aborted = True
                    st["aborted"] += 1
                except (Violation,):
                    signal.alarm(0)
                    st["paths"] += 1
                    if len(self.res["violations"]) >= 3:
                        break
                except (E.EngineLimit, PathTimeout) as ex:
                    signal.alarm(0)
                    self.res["path_cuts"] += 1
                    try:
                        signal.alarm(90)
                        self.sample_path(1, type(ex).__name__)
                    except (Violation, PathTimeout):
                        pass
                except E.NonDeterministic as ex:
                    signal.alarm(0)
                    self.res["engine_failures"].append(f"NonDeterministic: {str(ex)[:300]}")
                    if len(self.res["engine_failures"]) > 20:
                        break
                except (KeyboardInterrupt, MemoryError):
                    raise
                except Exception as ex:
                    signal.alarm(0)
                    st["paths"] += 1
                    self.exception(ex)
                    if len(self.res["violations"]) >= 3:
                        break
                finally:
                    signal.alarm(0)
                if S is not None:
                    st["paths"] += 1
                    for c in S.covers:
                        self.res["covers"][c] = self.res["covers"].get(c, 0) + 1
                    self.maybe_validate(S)
                    if len(self.res["violations"]) >= 3:
                        break
                if not self.e.backtrack():
                    done = True
                    break
                if st["paths"] >= job.max_paths or time.time() - t0 > job.budget:
                    break
        finally:
            sys.stdout = out
            signal.alarm(0)
            sys.unraisablehook = hook
            gc.unfreeze()
            gc.enable()
        self.res["complete"] = done
        self.res["stats"] = st
        self.res["wall"] = round(time.time() - t0, 2)
        self.server.close()
        return self.res

    def exception(self, ex):
        """An exception left the harness: a candidate violation, or a limit of the engine."""
        from . import replay as RP
        tb = traceback.format_exc()[-1800:]
        name = type(ex).__name__
        try:
            signal.alarm(120)
            n0 = len(self.res["violations"])
            # pending assertions before the exception still count
            try:
                self.S.flush()
            except self.E.PathAbort:
                return
            if self.e.prove(self.E.z3.BoolVal(False))[0] == "unsat":
                return      # no input takes this path
            self.sample_path(2, f"raises {name}")
        except Violation:
            return
        except PathTimeout:
            pass
        finally:
            signal.alarm(0)
        if len(self.res["violations"]) == n0:
            self.res["engine_failures"].append(f"{name}: {ex} | {tb}")

    def maybe_validate(self, S):
        n = self.e.stats["paths"]
        if self.res["validated"] >= 40:
            return
        if n <= self.job.validate or self.rnd.random() < self.job.validate / n:
            signal.alarm(60)
            try:
                st, m = self.nice_model([])
                if m is None:
                    return
                inputs = self.inputs_of(m)
                r = self.replay(inputs)
            except PathTimeout:
                return
            finally:
                signal.alarm(0)
            if r["aborted"]:
                self.res["validated_aborted"] += 1
                return
            if r["failed"] or r["error"]:
                self.violation(inputs, ["concrete run of a path model"], r)
                self.res["sampled_failures"].append(inputs)
                return
            self.res["validated"] += 1
            if len(self.res["samples"]) < 2:
                self.res["samples"].append(dict(harness=self.job.name(), inputs=inputs,
                                                decisions=sum(1 for k in self.e.trail if k[0] == "dec"),
                                                covers=sorted(S.covers), concrete_checks=r["nchecks"]))


def _detail(d):
    try:
        return (d() if callable(d) else str(d))[:4000]
    except Exception as ex:
        return f"<{type(ex).__name__}>"


def widen(z3, t):
    """a - b within tol -> within 1e-3, below positive polarity And/Or."""
    if z3.is_and(t):
        return z3.And(*[widen(z3, c) for c in t.children()])
    if z3.is_or(t):
        return z3.Or(*[widen(z3, c) for c in t.children()])
    k = t.decl().kind() if z3.is_app(t) else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and t.arg(0).sort() == z3.RealSort():
        d = z3.Q(1, 1000)
        return t.arg(0) <= t.arg(1) + d if k == z3.Z3_OP_LE else t.arg(0) >= t.arg(1) - d
    if z3.is_not(t):
        c = t.arg(0)
        k = c.decl().kind() if z3.is_app(c) else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and c.arg(0).sort() == z3.RealSort():
            d = z3.Q(1, 1000)
            return c.arg(0) >= c.arg(1) - d if k == z3.Z3_OP_LE else c.arg(0) <= c.arg(1) + d
    return t


_SNAP = None
_COV = None


def _init():
    global _SNAP, _COV
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from . import instr
    instr.load_pyactr()
    instr.instrument()
    _COV = instr.Coverage()
    warnings.simplefilter("ignore")
    _SNAP = instr.Snapshot()


def _run_job(args):
    job, prop, seed = args
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    if _SNAP is None:
        _init()
    _COV.seen.clear()
    if _COV.tool is not None:
        sys.monitoring.restart_events()
    r = JobRun(job, prop, seed)
    try:
        res = r.run(_SNAP)
    except Exception as ex:
        r.server.close()
        res = dict(r.res, stats=r.e.stats, wall=0, crash=traceback.format_exc()[-2500:])
    res["functions"] = sorted(_COV.seen)
    return res


def run_jobs(jobs, prop, seed, procs=None, progress=None):
    jobs = sorted(jobs, key=lambda j: -j.weight)
    n = procs or min(len(jobs), os.cpu_count() or 4)
    out = []
    if n <= 1:
        for j in jobs:
            out.append(_run_job((j, prop, seed)))
        return out
    ctx = mp.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(_run_job, [(j, prop, seed) for j in jobs], chunksize=1):
            out.append(r)
            if progress and progress(r):
                break  # enough was found; the pool is terminated
    return out
