"""legacy.beta_version.solve_uref_both_bc executed on symbolic winds, wave activities, temperatures and boundary data (coefficients of
the elliptic operator concrete, the sparse solver by its contract: the exact solution of the concrete system for a symbolic right-hand
side); the wind corrections and reference winds against a dense formulation of the two boundary-value problems;
the temperature corrections against thermal-wind balance with them."""
import builtins
import importlib.util
import math
import os
import sys
import types
import warnings
import numpy as np

BOUNDS = "8-17 latitudes (thorough 21; 2-4 (5) interior rows), 4-6 levels; all winds, wave activities, temperatures and boundary data symbolic; two generic profiles of the coefficient epsilon per grid, regular latitudes"
OUTSIDE = "other grids; plotting"


def configs(tier):
    g = [(8, 4), (13, 5), (17, 4), (12, 6), (16, 5)] + ([(21, 6), (20, 5), (17, 6)] if tier == "thorough" else [])
    return [dict(name="legacy_%dx%d_%d" % (n, k, e), n=n, K=k, gen=e) for n, k in g for e in (0, 1)]


def load(h):
    from fv import load as L, stubs, symnp
    spec = importlib.util.spec_from_file_location("falwa.legacy.beta_version", os.path.join(L.SRC, "legacy", "beta_version.py"))
    m = importlib.util.module_from_spec(spec)
    wb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    proxy = symnp.make_proxy()

    def solve(A, b, *a, **k):
        A = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
        return h.mk(inverse(A).dot(np.asarray(b, dtype=object).view(np.ndarray)))

    spl = {"spsolve": solve, "splu": lambda A, *a, **k: types.SimpleNamespace(solve=lambda b: solve(A, b)), "factorized": lambda A: (lambda b: solve(A, b))}

    class Over:
        """a module with some members replaced"""
        def __init__(self, real, **other):
            self.__dict__.update(other, _real=real)

        def __getattr__(self, n):
            return getattr(self._real, n)

    def imp(name, g=None, l=None, fromlist=(), level=0):
        r = builtins.__import__(name, g, l, fromlist, level)
        if name.split(".")[0] == "numpy":
            return proxy
        if name.split(".")[0] != "scipy":
            return r
        import scipy
        import scipy.interpolate
        import scipy.sparse.linalg
        ip = stubs.ScipyProxy(scipy.interpolate)
        sl = Over(scipy.sparse.linalg, **spl)
        sp = Over(scipy.sparse, linalg=sl)
        top = Over(scipy, interpolate=ip, sparse=sp)
        return {"scipy": top, "scipy.interpolate": ip, "scipy.sparse": sp, "scipy.sparse.linalg": sl}.get(name, r) if fromlist else top
    try:
        if h.sym:
            m.__dict__["__builtins__"] = dict(builtins.__dict__, __import__=imp, print=lambda *a, **k: None)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            spec.loader.exec_module(m)
    finally:
        sys.dont_write_bytecode = wb
    return m


def inverse(A):
    """refined inverse of a concrete matrix"""
    B = np.linalg.inv(A)
    return B.dot(2 * np.eye(len(A)) - A.dot(B))


def lin(x0, y0, x):
    """linear interpolation, extrapolating"""
    k = min(max(int(np.searchsorted(x0, x, side="right")) - 1, 0), len(x0) - 2)
    w = (x - x0[k]) / (x0[k + 1] - x0[k])
    return y0[k] * (1 - w) + y0[k + 1] * w


def run(h, c):
    n, K = c["n"], c["K"]
    dz, a, R, H, om, cp = 1000.0, 6378000.0, 287.0, 7000.0, 7.29e-5, 1004.0
    kap = R / cp
    y = np.linspace(-90, 90, n)
    U, F, T = h.arr("u", (K, n), -50, 50), h.arr("fawa", (K, n), -50, 50), h.arr("theta", (K, n), 200, 400)
    D, B0, B1 = h.arr("delta", (n,), -30, 30), h.arr("b0", (n,), -1e6, 1e6), h.arr("b1", (n,), -1e6, 1e6)
    m = n // 4
    dm = 1.0 / (m + 1)
    eps = h.generic("eps", (K, n), 0.3, 2.0) * (dz / dm) ** 2
    keep = [np.array(v) for v in (U, F, T, D, B0, B1, eps)]
    M = load(h)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = h.returns("solved", M.solve_uref_both_bc, "stamp", U, F, y, eps, D, T, B0, B1)
    if not isinstance(r, (tuple, list)) or len(r) != 8:
        h.true("eight results", False)
        return
    s = [dm * i for i in range(m + 2)]                 # equator .. pole, equally spaced in sine
    lat = [math.degrees(math.asin(min(v, 1.0))) for v in s]
    f = [2 * om * v for v in s]
    co = [math.sqrt(max(1 - v * v, 0.0)) for v in s]
    at = lambda v, i: lin(y, v, lat[i])
    q = [[0.0 if i in (0, m + 1) else -at(F[k], i) / f[i] for k in range(K)] for i in range(m + 2)]
    e = [[at(eps[k], i) for k in range(K)] for i in range(m + 2)]
    d2 = lambda v, i: at(v, i + 1) + at(v, i - 1) - 2 * at(v, i)
    ix = lambda i, k: (i - 1) * K + k
    N = m * K
    want = []
    for adiabatic in (False, True):
        A = np.zeros((N, N))
        b = [0.0] * N
        for i in range(1, m + 1):
            for k in range(1, K - 1):
                C = (dm / dz) ** 2 * e[i][k] * math.exp(-dz / (2 * H))
                G = (dm / dz) ** 2 * e[i][k - 1] * math.exp(dz / (2 * H))
                w = ix(i, k)
                if i < m:
                    A[w, ix(i + 1, k)] = 1
                if i > 1:
                    A[w, ix(i - 1, k)] = 1
                A[w, ix(i, k + 1)] = C
                A[w, ix(i, k - 1)] = G
                A[w, w] = -(2 + C + G)
                b[w] = q[i - 1][k] + q[i + 1][k] - 2 * q[i][k]
            w = ix(i, K - 1)
            A[w, w], A[w, ix(i, K - 3)] = 1, -1
            b[w] = (at(D, i + 1) - at(D, i - 1)) * (-R * co[i] ** 2 * math.exp(-kap * (K - 2) / 7) * dz / (f[i] ** 2 * a * H * dm))
            w = ix(i, 0)
            if adiabatic:
                A[w, w], A[w, ix(i, 2)] = -1, 1
                z = -R * co[i] ** 2 * 2 * dz / (f[i] ** 2 * a ** 2 * H * dm ** 2)
                b[w] = d2(B1, i) * (z * math.exp(-kap / 7)) + d2(B0, i) * z
            else:
                A[w, w] = 1
                b[w] = at(U[0], i) * (co[i] / f[i])
        x = inverse(A).dot(np.array(b, dtype=object))
        cor = np.zeros((m + 2, K), dtype=object)
        for i in range(1, m + 1):
            for k in range(K):
                cor[i, k] = x[ix(i, k)] * (f[i] / co[i])
        want.append(cor)
    even = list(range(0, m + 2, 2))

    def heat(cor):
        """temperature correction: thermal-wind balance over every second row, zero mean over the rows"""
        out = np.zeros((m + 2, K), dtype=object)
        for k in range(1, K - 2):
            t = {0: 0.0}
            for i in even[1:]:
                t[i] = t[i - 2] - (cor[i - 1, k + 1] - cor[i - 1, k - 1]) * (f[i - 1] * a * H * dm / (dz * R * co[i - 1]))
            v = [lin(np.array([s[i] for i in even]), [t[i] for i in even], x) for x in s] if len(even) > 1 else [0.0] * (m + 2)
            mean = sum(v[1:], v[0]) * (1.0 / (m + 2))
            out[:, k] = [x - mean for x in v]
        return out
    north = range(n - (n + 1) // 2, n)
    for name, cor, (du, ur, dt, tr) in (("no-slip", want[0], r[:4]), ("adiabatic", want[1], r[4:])):
        hot = heat(cor)
        for j in range(n):
            for k in range(K):
                t = "[%d,%d]" % (k, j)
                if j in north:
                    h.eq("%s temperature correction %s" % (name, t), dt[k, j], lin(lat, hot[:, k], y[j]), rel=1e-6)
                    g = lin(lat, cor[:, k], y[j])
                    h.eq("%s wind correction %s" % (name, t), du[k, j], g, rel=1e-7)
                    h.eq("%s reference wind %s" % (name, t), ur[k, j] + du[k, j], U[k, j], rel=1e-9)
                    h.eq("%s reference temperature %s" % (name, t), tr[k, j] + dt[k, j], T[k, j] * math.exp(-k / 7.0 * kap), rel=1e-9)
                else:
                    for v in (du, ur, dt, tr):
                        h.eq("%s south %s" % (name, t), v[k, j], 0.0, tol=1e-12)
    for v, w, t in zip((U, F, T, D, B0, B1, eps), keep, ("wind", "wave activity", "temperature", "top", "bottom", "second", "epsilon")):
        h.eq(t + " unchanged", v, w)
