"""Solver back end: translation of symbolic values to z3, bounded decisions, path exploration."""
import math
import random
import time
from fractions import Fraction

import z3

from . import sym
from .sym import Sym, SymBool, Cases, ATOMS, rng, evaluate

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "refined": 0, "feasibility": 0, "paths": 0, "elements": 0,
         "trivial": 0}


def reset_stats():
    for k in STATS:
        STATS[k] = 0 if k != "time" else 0.0


MARGIN = 1e-9


def q(c):
    return z3.RealVal(str(Fraction(c)))


class Encoder:
    """polynomials over atoms -> z3 real terms.  Products of atoms are abstracted by interval-bounded
    variables unless `exact`; indicator atoms become Boolean terms."""

    def __init__(self, exact=False):
        self.exact = exact
        self.av, self.mv, self.bv = {}, {}, {}
        self.side = []            # defining constraints
        self.done_mono = set()

    def bound(self, v, lo, hi):
        if lo > -math.inf:
            self.side.append(v >= q(lo))
        if hi < math.inf:
            self.side.append(v <= q(hi))

    def atom(self, i):
        """z3 real of a non-indicator atom"""
        v = self.av.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        v = z3.Real("a%d" % i)
        self.av[i] = v
        self.bound(v, a.lo, a.hi)
        if a.kind == "ite":
            c, x, y = a.data
            self.side.append(v == z3.If(self.boolean(c), self.real(x), self.real(y)))
        elif a.kind == "inv" and self.exact:
            self.side.append(v * self.real(a.data) == 1)
        elif a.kind == "fn" and self.exact and a.data[0] == "sqrt":
            self.side.append(v * v == self.real(a.data[1][0]))
        return v

    def ind(self, i):
        b = self.bv.get(i)
        if b is None:
            self.bv[i] = b = z3.Bool("b%d" % i)
            p = ATOMS[i].data
            t = self.real(p)
            # inputs within `margin` of a branch boundary are outside the claim (rounding decides there)
            d = q(MARGIN * min(max(magnitude(p), 1e-6), 1e3))
            self.side.append(z3.If(b, t <= -d, t >= d))
        return b

    def mono(self, m):
        """product of non-indicator atoms"""
        if not m:
            return z3.RealVal(1)
        if len(m) == 1 and m[0] > 0:
            return self.atom(m[0])
        v = self.mv.get(m)
        if v is not None:
            return v
        v = z3.Real("m" + "_".join(str(i) for i in m).replace("-", "r"))
        self.mv[m] = v
        lo, hi = rng(Sym({m: 1.0}))
        if len(set(m)) < len(m) and all(m.count(i) % 2 == 0 for i in set(m)):
            lo = max(lo, 0.0)
        self.bound(v, lo, hi)
        if self.exact:
            t = None
            for i in m:
                if i > 0:
                    x = self.atom(i)
                else:
                    r = self.mv.get((i,))
                    if r is None:
                        r = z3.Real("r%d" % -i)
                        self.mv[(i,)] = r
                        self.side.append(r * self.atom(-i) == 1)
                    x = r
                t = x if t is None else t * x
            self.side.append(v == t)
        return v

    def real(self, x):
        if not isinstance(x, Sym):
            return q(float(x))
        groups = {}
        for m, c in x.d.items():
            ind = tuple(i for i in m if i > 0 and ATOMS[i].kind == "ind")
            rest = tuple(i for i in m if not (i > 0 and ATOMS[i].kind == "ind"))
            groups.setdefault(ind, []).append((rest, c))
        terms = []
        for ind, ms in groups.items():
            ts = []
            for m, c in ms:
                ts.append(q(c) if not m else q(c) * self.mono(m))
            s = z3.Sum(ts) if len(ts) > 1 else ts[0]
            if ind:
                g = [self.ind(i) for i in ind]
                s = z3.If(z3.And(*g) if len(g) > 1 else g[0], s, z3.RealVal(0))
            terms.append(s)
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))

    def boolean(self, b):
        if isinstance(b, SymBool):
            d = b.p.d
            if len(d) == 1:
                (m, c), = d.items()
                if c == 1.0 and all(i > 0 and ATOMS[i].kind == "ind" for i in m):
                    g = [self.ind(i) for i in m]
                    return z3.And(*g) if len(g) > 1 else g[0]
            if len(d) == 2 and d.get(()) == 1.0:
                m, c = next((m, c) for m, c in d.items() if m)
                if c == -1.0 and all(i > 0 and ATOMS[i].kind == "ind" for i in m):
                    g = [self.ind(i) for i in m]
                    return z3.Not(z3.And(*g) if len(g) > 1 else g[0])
            return self.real(b.p) > q(0.5)
        return z3.BoolVal(bool(b))


class Query:
    """one solver with shared encoding; assumptions first, then queries by push/pop"""

    def __init__(self, assume=(), exact=False, timeout_ms=60000):
        self.enc = Encoder(exact)
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.n = 0
        for a in assume:
            self.add(a)

    def flush(self):
        while self.n < len(self.enc.side):
            self.s.add(self.enc.side[self.n])
            self.n += 1

    def add(self, b):
        t = self.enc.boolean(b)
        self.flush()
        self.s.add(t)

    def check(self, *terms):
        self.flush()
        t0 = time.time()
        r = self.s.check(*terms)
        STATS["time"] += time.time() - t0
        STATS["queries"] += 1
        STATS[str(r)] = STATS.get(str(r), 0) + 1
        return r

    def values(self):
        """assignment of the variable atoms in the model"""
        m = self.s.model()
        env = {}
        for i, v in self.enc.av.items():
            if ATOMS[i].kind == "var":
                x = m.eval(v, model_completion=True)
                try:
                    f = x.as_fraction()
                    f = float(f)
                except AttributeError:
                    f = float(x.approx(20).as_fraction())
                env[i] = min(max(f, ATOMS[i].lo), ATOMS[i].hi)
        return env


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class Explorer:
    """depth-first exploration by re-execution; every branch is decided by the solver"""

    def __init__(self, eager=False, max_paths=4000, deadline=None):
        self.eager = eager
        self.max_paths = max_paths
        self.stack = []          # decisions of the current path: [value, has_alternative]
        self.paths = 0
        self.deadline = deadline
        self.known = {}
        self.pos = 0
        self.assumptions = []

    def start(self):
        self.pos = 0
        self.known = {}
        self.conds = []
        self.q = Query()
        self.q.s.set("timeout", 10000)
        self.paths += 1
        if self.paths > self.max_paths:
            raise PathLimit("more than %d paths" % self.max_paths)
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit("path exploration ran out of time")
        for a in self.assumptions:
            self.assume(a)

    def assume(self, b):
        b = sym.tobool(b)
        if b is False:
            raise Infeasible()
        if b is True:
            return
        self.conds.append(b)
        self.q.add(b)
        self._learn(b)

    def _learn(self, b):
        d = b.p.d
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1.0 and len(m) == 1:
                self.known[m[0]] = True
        elif len(d) == 2 and d.get(()) == 1.0:
            m, c = next((m, c) for m, c in d.items() if m)
            if c == -1.0 and len(m) == 1:
                self.known[m[0]] = False

    def decide(self, b):
        d = b.p.d
        # already decided on this path?
        if self.known:
            sub = substitute_known(b, self.known)
            if not isinstance(sub, SymBool):
                return bool(sub)
            b = sub
        if self.pos < len(self.stack):
            v = self.stack[self.pos][0]
            self.pos += 1
            self._commit(b, v)
            return v
        STATS["feasibility"] += 1
        t = self.q.enc.boolean(b)
        rt = self.q.check(t)
        rf = self.q.check(z3.Not(t))
        can_t, can_f = rt != z3.unsat, rf != z3.unsat
        if not can_t and not can_f:
            raise Infeasible()
        v = can_t
        self.stack.append([v, can_t and can_f])
        self.pos += 1
        sym.STATS["forks"] += can_t and can_f
        self._commit(b, v)
        return v

    def _commit(self, b, v):
        c = b if v else sym.lnot(b)
        if isinstance(c, SymBool):
            self.conds.append(c)
            self.q.add(c)
            self._learn(c)

    def advance(self):
        """move to the next path; False when all are explored"""
        while self.stack and not self.stack[-1][1]:
            self.stack.pop()
        if not self.stack:
            return False
        self.stack[-1] = [not self.stack[-1][0], False]
        return True


def substitute_known(b, known):
    hit = False
    r = 0.0
    for m, c in b.p.d.items():
        t = c
        keep = []
        for i in m:
            if i in known:
                hit = True
                if not known[i]:
                    t = 0.0
            else:
                keep.append(i)
        if t:
            r = r + Sym({tuple(keep): t}) if keep else r + t
    return sym.mkb(r) if hit else b


def subst_known_val(x, known):
    if not isinstance(x, Sym) or not known:
        return x
    r = {}
    for m, c in x.d.items():
        t = c
        keep = []
        for i in m:
            if i in known:
                if not known[i]:
                    t = 0.0
                    break
            else:
                keep.append(i)
        if t:
            sym._acc(r, tuple(keep), t)
    return sym.mk(r)


# ---------------------------------------------------------------- deciding equalities
class Outcome:
    def __init__(self, status, label=None, env=None, detail=""):
        self.status, self.label, self.env, self.detail = status, label, env, detail


def magnitude(x):
    if not isinstance(x, Sym):
        return abs(x)
    t = 0.0
    for m, c in x.d.items():
        lo, hi = rng(Sym({m: c}))
        w = max(abs(lo), abs(hi))
        t += w if w < math.inf else abs(c)
    return t


def full_env(partial, rnd):
    env = dict(partial)
    for i in range(1, len(ATOMS)):
        a = ATOMS[i]
        if a.kind == "var" and i not in env:
            env[i] = rnd.uniform(a.lo, a.hi)
    return env


def decide_all(items, assume=(), seed=1, timeout_ms=60000, batch=64):
    """items: list of (label, lhs, op, rhs, tol) with op in 'eq','le' (lhs <= rhs + tol).
    Returns list of Outcomes: one 'proved' for everything, or 'refuted'/'unknown' entries."""
    rnd = random.Random(seed)
    res = []
    known = {}
    for a in assume:
        if isinstance(a, SymBool):
            d = a.p.d
            if len(d) == 1:
                (m, c), = d.items()
                if c == 1.0 and len(m) == 1:
                    known[m[0]] = True
            elif len(d) == 2 and d.get(()) == 1.0:
                m, c = next((m, c) for m, c in d.items() if m)
                if c == -1.0 and len(m) == 1:
                    known[m[0]] = False
    todo = []
    for label, a, op, b, tol in items:
        STATS["elements"] += 1
        a, b = sym.lift(a), sym.lift(b)
        if a != a if isinstance(a, float) else False:
            if isinstance(b, float) and b != b:
                continue
            d, op, tol = 1.0, "eq", 0.25           # not a number, or an obligation that failed outright
        else:
            d = subst_known_val(a - b, known)
        if not isinstance(d, Sym):
            bad = not (abs(d) <= tol if op == "eq" else d <= tol)
            STATS["trivial"] += 1
            todo.append((label, d, op, tol, bad))
        else:
            todo.append((label, d, op, tol, None))
    qq = Query(assume, timeout_ms=timeout_ms)
    pending = [todo]
    # groups are tried as one disjunction, then split
    groups = [todo[i:i + batch] for i in range(0, len(todo), batch)]
    while groups:
        g = groups.pop()
        if batch == 1:
            qq = Query(assume, timeout_ms=timeout_ms)   # nothing left over from other obligations
        terms = []
        for label, d, op, tol, bad in g:
            t = qq.enc.real(d)
            terms.append(t > q(tol) if op == "le" else z3.Or(t > q(tol), t < q(-tol)))
        qq.flush()
        r = qq.check(z3.Or(*terms) if len(terms) > 1 else terms[0])
        if r == z3.unsat:
            continue
        if len(g) > 1:
            h = len(g) // 2
            groups.append(g[:h])
            groups.append(g[h:])
            continue
        label, d, op, tol, bad = g[0]
        env = qq.values() if r == z3.sat else {}
        o = refine(label, d, op, tol, assume, env, rnd, timeout_ms, known)
        if o is not None:
            res.append(o)
            if o.status == "refuted":
                return res
    return res or [Outcome("proved")]


def violates(d, op, tol, env):
    v = evaluate(d, env, {})
    if v != v:
        return False
    return (abs(v) > tol) if op == "eq" else v > tol


def holds_all(assume, env):
    return all(evaluate(a, env, {}) for a in assume)


def refine(label, d, op, tol, assume, env, rnd, timeout_ms, known):
    """the abstraction found a candidate: confirm it numerically, or decide exactly"""
    STATS["refined"] += 1
    for k in range(60):
        e = full_env(env if k < 20 else ({i: v for i, v in env.items() if rnd.random() < 0.5}), rnd)
        if holds_all(assume, e) and violates(d, op, tol, e):
            return Outcome("refuted", label, e)
    for exact in (True,):
        qq = Query(assume, exact=True, timeout_ms=timeout_ms)
        t = qq.enc.real(d)
        c = t > q(tol) if op == "le" else z3.Or(t > q(tol), t < q(-tol))
        r = qq.check(c)
        if r == z3.unsat:
            return None
        if r == z3.sat:
            e = full_env(qq.values(), rnd)
            if holds_all(assume, e) and violates(d, op, tol / 2 if tol else 0.0, e):
                return Outcome("refuted", label, e)
            return Outcome("unknown", label, e, "solver model does not reproduce in the encoding")
    return Outcome("unknown", label, None, "solver gave no answer in %d ms" % timeout_ms)


def reachable(assume):
    """vacuity twin: the assumptions (path condition) are satisfiable"""
    qq = Query(assume)
    return qq.check() != z3.unsat


def satisfiable(cond, assume=(), timeout_ms=30000):
    """is a condition (an out-of-bounds access, ...) possible?  -> (answer, env)"""
    qq = Query(assume, timeout_ms=timeout_ms)
    t = qq.enc.boolean(cond)
    qq.flush()
    r = qq.check(t)
    if r == z3.unsat:
        return "no", None
    if r == z3.sat:
        return "yes", qq.values()
    return "unknown", None
