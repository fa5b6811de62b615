"""Symbolic counterparts of the SciPy and math functions the code calls."""
import math
import types
import numpy as np
import scipy.interpolate
import scipy.linalg.lapack
import scipy.linalg

from . import sym, symnp
from .sym import Sym, SymBool, Cases, Unsupported, ite, tobool, fdiv


class interp1d:
    """scipy.interpolate.interp1d(kind='linear') on a concrete abscissa: exact."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.x = symnp.concrete(x) if isinstance(x, np.ndarray) and x.dtype == object else np.asarray(x, dtype=float)
        y = symnp.base(y)
        if kind not in ("linear", 1):
            raise Unsupported("interp1d kind %r" % (kind,))
        self.axis = axis % y.ndim
        if y.shape[self.axis] != len(self.x):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.y = np.moveaxis(y, self.axis, 0)
        if not assume_sorted:
            o = np.argsort(self.x, kind="mergesort")
            self.x, self.y = self.x[o], self.y[o]
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        if bounds_error is None:
            bounds_error = not self.extrap and (not isinstance(fill_value, tuple) and np.isscalar(fill_value) and np.isnan(fill_value))
        self.bounds_error = bounds_error and not self.extrap
        self.fill = fill_value

    def __call__(self, xn):
        xn = symnp.concrete(xn) if isinstance(xn, np.ndarray) and xn.dtype == object else np.asarray(xn, dtype=float)
        shp = xn.shape
        v = xn.ravel()
        lo, hi = self.x[0], self.x[-1]
        out = np.empty((len(v),) + self.y.shape[1:], dtype=object)
        for n, t in enumerate(v):
            if (t < lo or t > hi) and not self.extrap:
                if self.bounds_error:
                    raise ValueError("A value (%r) in x_new is %s the interpolation range." % (t, "below" if t < lo else "above"))
                f = self.fill
                if isinstance(f, tuple):
                    f = f[0] if t < lo else f[1]
                out[n] = f
                continue
            k = int(np.clip(np.searchsorted(self.x, t), 1, len(self.x) - 1))
            w = (t - self.x[k - 1]) / (self.x[k] - self.x[k - 1])
            a, b = self.y[k - 1], self.y[k]
            out[n] = symnp.base(symnp.wrap(b) * w + symnp.wrap(a) * (1.0 - w)) if isinstance(a, np.ndarray) else a * (1.0 - w) + b * w
        out = out.reshape(shp + self.y.shape[1:])
        # the new axes take the place of the interpolated one
        for i in range(len(shp)):
            pass
        if len(shp) == 1:
            out = np.moveaxis(out, 0, self.axis)
        elif len(shp) == 0:
            out = out
        else:
            raise Unsupported("interp1d with multi-dimensional x_new")
        return symnp.wrap(out)


class UnivariateSpline:
    """environment stub: an uninterpreted function of the data (equal data give equal values);
    replayed and evaluated with SciPy's own implementation"""
    INDEX = [0]

    def __init__(self, x, y, w=None, bbox=None, k=3, s=None, ext=0, check_finite=False, _deriv=0, _of=None):
        self.x = [float(t) for t in symnp.base(x).ravel().tolist()]
        self.y = symnp.base(y).ravel().tolist()
        if len(self.x) != len(self.y):
            raise ValueError("x and y should have a same length")
        self.opt = (k, s, ext, tuple(symnp.base(w).ravel().tolist()) if w is not None else None, tuple(bbox) if bbox is not None else None)
        self.nd = _deriv

    def derivative(self, n=1):
        k, s, ext, w, bbox = self.opt
        return UnivariateSpline(np.array(self.x), symnp.mkarray(self.y), w=np.array(w) if w else None, bbox=bbox, k=k, s=s, ext=ext, _deriv=self.nd + n)

    def _real(self, y):
        k, s, ext, w, bbox = self.opt
        kw = {}
        if bbox is not None:
            kw["bbox"] = list(bbox)
        sp = scipy.interpolate.UnivariateSpline(np.array(self.x), np.array(y, dtype=float), w=w, k=k, s=s, ext=ext, **kw)
        return sp.derivative(self.nd) if self.nd else sp

    def __call__(self, xn, nu=0, ext=None):
        xs = symnp.base(xn)
        if not any(isinstance(v, symnp.SYMT) for v in self.y):
            return symnp.wrap(np.asarray(self._real(self.y)(np.array(xs, dtype=float), nu=nu)).astype(object))
        # abscissae equal up to rounding are the same abscissae
        rd = lambda t: float("%.9g" % (round(t / top, 11) * top)) + 0.0
        top = max([abs(t) for t in self.x] + [1e-300])
        key = "spline%r%r%r%r" % (tuple(rd(t) for t in self.x), self.opt, self.nd + nu, 0)
        ys = list(self.y)
        out = np.empty(xs.shape, dtype=object)
        rg = SPLINE_RANGE[min(self.nd + nu, 1)]
        for i in np.ndindex(xs.shape):
            t = float(xs[i])

            def ev(env, memo, t=t):
                return float(self._real([sym.evaluate(v, env, memo) for v in ys])(t, nu=nu))
            lo, hi = rg(t) if callable(rg) else rg
            out[i] = sym.stub(key, rd(t), ys, lo, hi, ev)
        return symnp.wrap(out)


SPLINE_RANGE = [(-1e4, 1e4), (-1e4, 1e4)]


def dgetrf(a, overwrite_a=0):
    if symnp.is_symbolic(a):
        raise Unsupported("LU factorisation of a symbolic matrix")
    return scipy.linalg.lapack.dgetrf(symnp.concrete(a))


def dgetri(lu, piv, *a, **k):
    if symnp.is_symbolic(lu):
        raise Unsupported("inverse of a symbolic matrix")
    return scipy.linalg.lapack.dgetri(symnp.concrete(lu), piv, *a, **k)


def conc(f):
    def g(*a, **k):
        if any(symnp.is_symbolic(x) for x in a):
            raise Unsupported("%s of symbolic values" % getattr(f, "__name__", f))
        return f(*[symnp.concrete(x) if isinstance(x, np.ndarray) and x.dtype == object else x for x in a], **k)
    return g


def _solve(real, a, b, **k):
    """linear solve with a known matrix: the right-hand side may be symbolic"""
    if symnp.is_symbolic(a):
        raise Unsupported("solution with a symbolic matrix")
    A = symnp.concrete(a)
    if not symnp.is_symbolic(b):
        return real(A, symnp.concrete(b), **k)
    inv = real(A, np.eye(A.shape[-1]), **k)
    return symnp.wrap(np.dot(symnp.base(inv), symnp.base(b)))


def solver(real):
    return lambda a, b, **k: _solve(real, a, b, **k)


class LinalgProxy(types.ModuleType):
    """numpy.linalg: known matrices only"""

    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, n):
        v = getattr(np.linalg, n)
        if n == "solve":
            return solver(v)
        return conc(v) if callable(v) and not isinstance(v, type) else v


_BY = {}


def by_id():
    if not _BY:
        _BY[id(scipy.interpolate.interp1d)] = interp1d
        _BY[id(scipy.interpolate.UnivariateSpline)] = UnivariateSpline
        _BY[id(scipy.linalg.lapack.dgetrf)] = dgetrf
        _BY[id(scipy.linalg.lapack.dgetri)] = dgetri
        _BY[id(scipy.linalg.solve)] = solver(scipy.linalg.solve)
        for n in ("inv", "lu_factor", "lu_solve", "lu"):
            _BY[id(getattr(scipy.linalg, n))] = conc(getattr(scipy.linalg, n))
    return _BY


class ScipyProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        v = getattr(self.__dict__["_real"], n)
        if isinstance(v, types.ModuleType):
            return ScipyProxy(v)
        if id(v) in by_id():
            return by_id()[id(v)]
        if callable(v) and not isinstance(v, type):
            return conc(v)
        return v


_MF = {"exp": "exp", "log": "log", "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "arcsin", "acos": "arccos",
       "atan": "arctan", "radians": "deg2rad", "degrees": "rad2deg", "fabs": "absolute", "pow": "power"}


def math_function(f):
    name = _MF[f.__name__]

    def g(*a):
        a = [x.item() if isinstance(x, np.ndarray) and x.size == 1 and not isinstance(x.item(), symnp.SYMT) else (symnp.base(x).ravel()[0] if isinstance(x, np.ndarray) and x.size == 1 else x) for x in a]
        if any(isinstance(x, symnp.SYMT) for x in a):
            return symnp.S[name](*a)
        return f(*a)
    return g


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        v = getattr(math, n)
        return math_function(v) if n in _MF else v
