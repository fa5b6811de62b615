"""Harness framework: one harness function per property runs in two modes.

symbolic  inputs are solver variables, Fortran kernels are interpreted from gfortran's IR, NumPy code
          runs on symbolic arrays; obligations are decided by the solver
real      the same harness on concrete inputs, plain NumPy and the compiled kernels; used to validate
          the encoding and to replay every counterexample
"""
import contextlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

from . import sym, symnp, solve
from .sym import Sym, SymBool, Cases, Unsupported

REL = 1e-8


class Missing(Exception):
    """the harness does not apply (assumption of the configuration fails)"""


class Raised:
    """stand-in for the result of a call that raised"""
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "raised %s: %s" % (type(self.exc).__name__, str(self.exc)[:200])


class H:
    """what a harness sees"""

    def __init__(self, mode, pkg, cfg, seed=1, values=None):
        self.mode, self.pkg, self.cfg, self.seed = mode, pkg, cfg, seed
        self.values = values or {}
        self.used = {}
        self.items = []          # (label, code, op, spec, tol)
        self.sym = mode == "sym"
        self.np = symnp.make_proxy() if self.sym else np
        self.assume_failed = False
        self.opts = []
        self.layout = cfg.get("layout") or ("C", "F", "rev")[zlib.crc32(str(cfg.get("name")).encode()) % 3]

    # ---------- inputs
    def num(self, name, lo, hi):
        if self.sym:
            return sym.var(name, lo, hi)
        v = self.values.get(name)
        if v is None:
            v = random.Random("%s:%s" % (self.seed, name)).uniform(lo, hi)
        v = min(max(float(v), lo), hi)
        self.used[name] = v
        return v

    def cell(self, name, lo, hi):
        """like num; in configurations of ordinary size one name in "few" is symbolic, the others are generic constants"""
        few = self.cfg.get("few")
        if few and zlib.crc32(name.encode()) % few:
            return random.Random("few:" + name).uniform(lo, hi)
        return self.num(name, lo, hi)

    def arr(self, name, shape, lo, hi, f=None):
        """array of inputs; element names are name[i,j,...] (arrays the configuration lists as integers: fixed integers)"""
        if name in self.cfg.get("ints", ()):
            r = random.Random("ints:%s" % name)
            return self.lay(np.array([r.randint(1 if lo >= 0 else -9, 9) for _ in range(int(np.prod(shape)))]).reshape(shape))
        r = np.empty(shape, dtype=object)
        for ix in np.ndindex(*r.shape):
            x = self.cell("%s[%s]" % (name, ",".join(map(str, ix))), lo, hi)
            r[ix] = f(ix, x) if f else x
        return self.mk(r)

    def mk(self, r):
        """array of the mode's kind from an object array, in the memory layout of the configuration"""
        if self.sym:
            return self.lay(np.asarray(r, dtype=object)).view(symnp.SymArray)
        return self.lay(np.array(np.asarray(r, dtype=object).tolist(), dtype=float).reshape(np.shape(r)))

    def lay(self, a):
        """same values, other strides: row-major, column-major or stored backwards (a view with negative strides)"""
        if self.layout == "F":
            return np.asfortranarray(a) if a.ndim > 1 else a
        if self.layout == "rev" and a.ndim:
            return a[..., ::-1].copy()[..., ::-1]
        return a

    def generic(self, name, shape, lo, hi):
        """generic concrete data: fixed pseudo-random constants (not inputs)"""
        r = random.Random("generic:%s:%s" % (self.cfg.get("gen", 0), name))
        a = np.array([r.uniform(lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape)
        return a

    def assume(self, b):
        if self.sym:
            ex = sym.CTX.explorer
            ex.assume(b)
        elif not bool(b):
            raise solve.Infeasible()

    # ---------- obligations
    def _flat(self, x):
        if isinstance(x, Raised):
            return None
        if isinstance(x, np.ndarray):
            return symnp.base(x) if self.sym or x.dtype == object else x
        if isinstance(x, (list, tuple)):
            return symnp.base(symnp.mkarray(list(x))) if self.sym else np.array(x, dtype=float)
        r = np.empty((), dtype=object)
        r[()] = x
        return r

    def fail(self, label, why):
        self.items.append((label + ": " + why, math.nan, "eq", 0.0, 0.0))

    def _cmp(self, label, code, spec, op, rel, tol):
        if isinstance(code, Raised):
            return self.fail(label, repr(code))
        if code is None:
            return self.fail(label, "no value")
        a, b = self._flat(code), self._flat(spec)
        if b.shape == ():
            bb = b[()]
            b = np.empty(a.shape, dtype=object)
            b.fill(bb)
        if a.shape != b.shape:
            return self.fail(label, "shape %s, expected %s" % (a.shape, b.shape))
        mags, rows = [], []
        for ix in np.ndindex(*a.shape):
            x, y = sym.lift(a[ix]), sym.lift(b[ix])
            if x is None or y is None:
                self.fail(label + str(list(ix)), "not a number: %r %r" % (a[ix], b[ix]))
                continue
            if not self.sym:
                x, y = float(x), float(y)
                if x != x and y == y:
                    pass
            mx = min(solve.magnitude(x) if x == x else 0.0, 1e300) if not isinstance(x, Sym) else solve.magnitude(x)
            my = solve.magnitude(y)
            mags.append((mx, my))
            rows.append((ix, x, y))
        top = max([max(m for m in p if m == m and m < math.inf) if any(m == m and m < math.inf for m in p) else 0.0 for p in mags] or [0.0])
        for (ix, x, y), (mx, my) in zip(rows, mags):
            m = [t for t in (mx, my) if t == t and t < math.inf]
            t = tol if tol is not None else rel * max(max(m or [0.0]), 1e-5 * top, 1e-200)
            self.items.append((label + (str(list(ix)) if ix else ""), x, op, y, t))

    def eq(self, label, code, spec, rel=REL, tol=None):
        self._cmp(label, code, spec, "eq", rel, tol)

    def le(self, label, a, b, rel=REL, tol=None):
        self._cmp(label, a, b, "le", rel, tol)

    def true(self, label, cond):
        c = sym.tobool(cond)
        self.items.append((label, c.p if isinstance(c, SymBool) else (1.0 if c else 0.0), "eq", 1.0, 0.25))

    def tryto(self, f, *a, **k):
        """result of a call, or Raised (never swallows the engine's own exceptions)"""
        try:
            return f(*a, **k)
        except (Unsupported, solve.Infeasible, solve.PathLimit, NotImplementedError):
            raise
        except Exception as e:
            return Raised(e)

    def raises(self, label, exc, f, *a, **k):
        r = self.tryto(f, *a, **k)
        ok = isinstance(r, Raised) and isinstance(r.exc, exc)
        if ok:
            self.items.append((label, 1.0, "eq", 1.0, 0.25))
        else:
            self.fail(label, "expected %s, got %s" % (getattr(exc, "__name__", exc), r if isinstance(r, Raised) else "a result"))

    def returns(self, label, f, *a, **k):
        r = self.tryto(f, *a, **k)
        if isinstance(r, Raised):
            self.fail(label, repr(r))
        else:
            self.items.append((label, 1.0, "eq", 1.0, 0.25))
        return r

    @contextlib.contextmanager
    def eager(self, *names):
        """inside calls of the named falwa functions every symbolic branch is a fork (symbolic mode only)"""
        if not self.sym:
            yield
            return
        undo = []
        ex = sym.CTX.explorer
        targets = {}
        for n in names:
            m, f = n.split(".")
            targets[id(getattr(getattr(self.pkg, m), f))] = getattr(getattr(self.pkg, m), f)
        for m in self.pkg.mods.values():
            for k, v in list(m.__dict__.items()):
                if id(v) in targets:
                    undo.append((m, k, v))
                    setattr(m, k, _eager(v, ex))
        try:
            yield
        finally:
            for m, k, v in undo:
                setattr(m, k, v)

    ite = staticmethod(sym.ite)

    def pos(self, x):
        return sym.ite(x < 0, 0.0, x)


def _eager(f, ex):
    def g(*a, **k):
        was = ex.eager
        ex.eager = True
        try:
            return f(*a, **k)
        finally:
            ex.eager = was
    return g


# ---------------------------------------------------------------- coverage of repo functions
class Coverage:
    TOOL = 4

    def __init__(self, src):
        self.src, self.seen = src, set()

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "fv")
        except ValueError:
            return self
        m.register_callback(self.TOOL, m.events.PY_START, self.cb)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def cb(self, code, off):
        if code.co_filename.startswith(self.src):
            n = code.co_qualname
            if "<" not in n or "<locals>" in n:
                self.seen.add("%s:%s" % (os.path.basename(code.co_filename), n.replace("<locals>.", "")))
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        m = sys.monitoring
        try:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)
        except ValueError:
            pass


# ---------------------------------------------------------------- one configuration
_PK = {}


def package(backend):
    from . import load
    if backend not in _PK:
        _PK[backend] = load.Pkg(backend)
    return _PK[backend]


def real_run(run, cfg, seed, values=None):
    pkg = package("real")
    pkg.session.calls.clear()
    saved = sym.CTX.explorer
    sym.CTX.explorer = None
    h = H("real", pkg, cfg, seed, values)
    err = None
    try:
        with pkg.active(), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            run(h, cfg)
    except (MemoryError, OSError):          # of this machinery, not of the code under test
        raise
    except Exception as e:
        err = e
        err.tb = traceback.format_exc()
    finally:
        sym.CTX.explorer = saved
    return h, err


def bad_real(h, tols=None):
    """obligations that fail on the real run: [(label, code, spec, tol)]"""
    r = []
    for label, a, op, b, t in h.items:
        if tols and label in tols:
            t = max(t, tols[label])
        d = a - b
        if d != d:
            if a != a and b != b:
                continue
            if abs(a) == math.inf and a == b:
                continue
            r.append((label, a, b, t))
        elif (op == "eq" and abs(d) > t) or (op == "le" and d > t):
            r.append((label, a, b, t))
    return r


def names_env(env):
    return {sym.ATOMS[i].name: v for i, v in env.items() if sym.ATOMS[i].kind == "var"}


class Result(dict):
    pass


def run_config(run, cfg, tier, seed, budget):
    """-> Result: status ok | violation | unknown | error, with statistics"""
    t0 = time.time()
    deadline = t0 + budget
    solve.reset_stats()
    pkg = package("sym")
    from . import load
    res = Result(cfg=cfg, status="ok", paths=0, unknown=[], violations=[], note=[], samples=[])
    cov = Coverage(load.SRC)
    kernels = set()
    nobl = 0
    sample = None
    ex = None

    def violation(label, values, detail, real_bad):
        res["status"] = "violation"
        res["violations"].append({"label": label, "inputs": values, "detail": detail,
                                  "observed": [[l, _j(a), _j(b), t] for l, a, b, t in real_bad[:5]]})

    def replay_error(err, values, where):
        violation("exception", values, "%s: %s: %s" % (where, type(err).__name__, str(err)[:300]), [])

    try:
        with cov:
            sym.reset()
            ex = solve.Explorer(eager=bool(cfg.get("eager")), max_paths=cfg.get("max_paths", 6000), deadline=deadline)
            while True:
                pkg.session.interp.__init__()
                pkg.session.calls.clear()
                sym.CTX.explorer = ex
                h = H("sym", pkg, cfg, seed)
                feasible = True
                try:
                    ex.start()
                    with pkg.active(), warnings.catch_warnings(), np.errstate(all="ignore"):
                        warnings.simplefilter("ignore")
                        run(h, cfg)
                except solve.Infeasible:
                    feasible = False
                kernels.update(pkg.session.calls)
                if feasible:
                    sym.CTX.explorer = None
                    conds = list(ex.conds)
                    nobl += len(h.items)
                    outs = solve.decide_all(h.items, conds, seed=seed, timeout_ms=cfg.get("timeout_ms", 60000), batch=cfg.get("batch", 64))
                    for o in outs:
                        if o.status == "refuted":
                            vals = names_env(o.env)
                            hr, err = real_run(run, cfg, seed, vals)
                            if err is not None and not isinstance(err, solve.Infeasible):
                                replay_error(err, vals, "replay of " + o.label)
                                break
                            bad = bad_real(hr)
                            hit = [x for x in bad if x[0] == o.label] or bad
                            if err is None and hit:
                                violation(hit[0][0], hr.used, "real code gives %r, specification %r (tolerance %.3g)" % (hit[0][1], hit[0][2], hit[0][3]), hit)
                                break
                            res["status"] = "error"
                            if len(res["note"]) < 3:
                                res["note"].append("counterexample for %s does not reproduce on the real code" % o.label)
                                res["values"] = vals
                                res.setdefault("dbg", []).append((o.label, vals, [repr(x) for x in h.items if x[0] == o.label]))
                        elif o.status == "unknown":
                            res["unknown"].append("%s (%s)" % (o.label, o.detail))
                    if res["status"] == "violation":
                        break
                    if not solve.reachable(conds):
                        res["note"].append("vacuous path: assumptions unsatisfiable")
                        res["status"] = "error"
                    # validation sample on this path
                    if sample is None and res["status"] == "ok":
                        sample = validate(run, cfg, seed, h, conds, res, violation, replay_error)
                    if res["status"] == "violation":
                        break
                if len(res["note"]) >= 3 or not ex.advance():
                    break
            res["paths"] = ex.paths
    except (Unsupported, solve.PathLimit, NotImplementedError) as e:
        res["status"] = "unsupported"
        res["note"].append("%s: %s" % (type(e).__name__, e))
        res["tb"] = traceback.format_exc()
    except Exception as e:
        res["status"] = "error"
        res["note"].append("%s: %s" % (type(e).__name__, e))
        res["tb"] = traceback.format_exc()
    finally:
        sym.CTX.explorer = None
    if res["status"] in ("unsupported", "error") or (res["status"] == "ok" and sample is None):
        # the encoding gave no verdict: the real code on sample inputs may still show a failure
        for s in range(3):
            hr, err = real_run(run, cfg, seed + 100 + s)
            if isinstance(err, solve.Infeasible):
                continue
            if err is not None:
                if res["status"] != "violation":
                    replay_error(err, hr.used, "exception in the code under test")
                break
            bad = bad_real(hr)
            if bad:
                violation(bad[0][0], hr.used, "real code gives %r, specification %r (tolerance %.3g)" % (bad[0][1], bad[0][2], bad[0][3]), bad)
                break
    res.update(functions=sorted(cov.seen), kernels=sorted(kernels), obligations=nobl, wall=time.time() - t0,
               stats=dict(solve.STATS), atoms=len(sym.ATOMS), forks=sym.STATS["forks"])
    if res["status"] == "ok" and nobl == 0:
        res["status"] = "error"
        res["note"].append("no obligations were generated")
    return res


def validate(run, cfg, seed, h, conds, res, violation, replay_error):
    """translator validation: the encoding evaluated at random inputs against the real code"""
    n = 0
    for s in range(40):
        hr, err = real_run(run, cfg, seed + s)
        if isinstance(err, solve.Infeasible):
            continue
        if err is not None:
            replay_error(err, hr.used, "exception in the code under test")
            return None
        bad = bad_real(hr)
        if bad:
            violation(bad[0][0], hr.used, "real code gives %r, specification %r (tolerance %.3g)" % (bad[0][1], bad[0][2], bad[0][3]), bad)
            return None
        env = {}
        rnd = random.Random(s)
        for i in range(1, len(sym.ATOMS)):
            a = sym.ATOMS[i]
            if a.kind == "var":
                env[i] = hr.used[a.name] if a.name in hr.used else rnd.uniform(a.lo, a.hi)
        if not all(sym.evaluate(c, env, {}) for c in conds):
            if s >= 39:
                return None
            continue
        memo = {}
        if len(hr.items) != len(h.items):
            res["note"].append("validation: %d obligations symbolically, %d really" % (len(h.items), len(hr.items)))
            res["status"] = "error"
            return None
        for (l1, a1, op, b1, t1), (l2, a2, _, b2, t2) in zip(h.items, hr.items):
            for x, y in ((a1, a2), (b1, b2)):
                v = sym.evaluate(x, env, memo) if isinstance(x, (Sym, SymBool, Cases)) else float(x)
                if not (abs(v - y) <= max(t1, t2) * 10 + 1e-9 * abs(y)) and not (v != v and y != y) and v != y:
                    res["note"].append("validation mismatch at %s: encoding %r, real %r" % (l1, v, y))
                    res["status"] = "error"
                    return None
            n += 1
        res["samples"].append({"config": cfg.get("name"), "seed": seed + s, "obligations_compared": n,
                               "inputs": dict(list(hr.used.items())[:6]),
                               "checked": [[l, _j(a), _j(b)] for l, a, _, b, _ in hr.items[:3]]})
        return env
    return None


def _j(x):
    try:
        x = float(x)
        return x if math.isfinite(x) else str(x)
    except Exception:
        return str(x)


# ---------------------------------------------------------------- driver
def _worker(conn, modname, cfg, tier, seed, budget):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    try:
        import resource
        lim = 7 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        m = importlib.import_module("checks." + modname)
        r = m.run_config(cfg, tier, seed, budget) if hasattr(m, "run_config") else run_config(m.run, cfg, tier, seed, budget)
    except BaseException as e:
        r = Result(cfg=cfg, status="error", note=["%s: %s" % (type(e).__name__, e)], tb=traceback.format_exc(), violations=[],
                   unknown=[], functions=[], kernels=[], obligations=0, wall=0.0, stats={}, paths=0, samples=[])
    conn.send(json.dumps(r, default=str))
    conn.close()
    sys.stdout.flush()
    # run the clean-up handlers of this process
    import atexit
    atexit._run_exitfuncs()
    os._exit(0)


def run_all(modname, cfgs, tier, seed, jobs, total):
    todo = list(enumerate(cfgs))
    running, results = {}, {}
    t0 = time.time()
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            i, c = todo.pop(0)
            a, b = ctx.Pipe(False)
            left = max(5.0, total - (time.time() - t0))
            p = ctx.Process(target=_worker, args=(b, modname, c, tier, seed, min(left, c.get("budget", left))))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), left)
        ready = mp.connection.wait([a for _, a, _, _ in running.values()], timeout=1.0)
        for i, (p, a, ts, left) in list(running.items()):
            if a in ready:
                try:
                    results[i] = json.loads(a.recv())
                except EOFError:
                    results[i] = {"cfg": cfgs[i], "status": "error", "note": ["worker died"], "violations": [], "unknown": [],
                                  "functions": [], "kernels": [], "obligations": 0, "wall": 0, "stats": {}, "paths": 0, "samples": []}
                p.join()
                del running[i]
            elif time.time() - ts > left + 45:
                p.kill()
                p.join()
                results[i] = {"cfg": cfgs[i], "status": "unsupported", "note": ["time limit"], "violations": [], "unknown": ["time limit"],
                              "functions": [], "kernels": [], "obligations": 0, "wall": time.time() - ts, "stats": {}, "paths": 0, "samples": []}
                del running[i]
        if any(r["status"] == "violation" for r in results.values()) and not os.environ.get("FV_ALL"):
            for p, a, _, _ in running.values():
                p.kill()
                p.join()
            break
    return [results[i] for i in sorted(results)]
