"""NumPy arrays of symbolic values, and the `np` that the analysed modules see.

SymArray is an object-dtype ndarray subclass: slicing, broadcasting and the pure-Python parts of
NumPy run unchanged; ufuncs, reductions, masks and the data-dependent functions (where, digitize,
interp, ...) are interpreted symbolically.
"""
import math
import types
import numpy as np

from . import sym
from .sym import Sym, SymBool, Cases, Unsupported, ite, land, lor, lnot, tobool, fn, fdiv, smax, smin

SYMT = (Sym, SymBool, Cases)


def base(a):
    """plain object ndarray with Python scalars"""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a.view(np.ndarray)
        return a.astype(object)
    if isinstance(a, MaskedSel):
        raise Unsupported("selection by a symbolic mask used as an array")
    r = np.empty((), dtype=object)
    if isinstance(a, SYMT):
        r[()] = a
        return r
    if isinstance(a, (list, tuple)):
        return base(mkarray(a))
    if isinstance(a, np.generic):
        a = a.item()
    r[()] = a
    return r


def wrap(a):
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return out(a[()])
        return a.view(SymArray)
    return out(a)


def out(x):
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, float):
        return np.float64(x)
    return x


def is_symbolic(a):
    if isinstance(a, SYMT):
        return True
    if isinstance(a, MaskedSel):
        return True
    if isinstance(a, np.ndarray) and a.dtype == object:
        return any(isinstance(x, SYMT) for x in a.ravel().view(np.ndarray).tolist())
    if isinstance(a, (list, tuple)):
        return any(is_symbolic(x) for x in a)
    return False


def concrete(a):
    """numeric ndarray of an object array that holds numbers only"""
    b = base(a)
    flat = b.ravel().tolist()
    if all(isinstance(x, (bool, np.bool_)) for x in flat) and flat:
        return b.astype(bool)
    if all(isinstance(x, int) and not isinstance(x, bool) for x in flat) and flat:
        return b.astype(int)
    return b.astype(float)


def mkarray(x):
    """np.array for nested sequences that may hold symbolic values"""
    if isinstance(x, np.ndarray):
        return x.astype(object).view(SymArray) if x.dtype != object else np.array(x.view(np.ndarray), dtype=object).view(SymArray)
    if isinstance(x, SYMT):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SymArray)
    if isinstance(x, (list, tuple)):
        if not len(x):
            return np.empty((0,), dtype=object).view(SymArray)
        parts = [mkarray(y) if isinstance(y, (list, tuple, np.ndarray) + SYMT) else y for y in x]
        if all(not isinstance(y, np.ndarray) for y in parts):
            r = np.empty((len(x),), dtype=object)
            for i, y in enumerate(parts):
                r[i] = y.item() if isinstance(y, np.generic) else y
            return r.view(SymArray)
        parts = [base(y) for y in parts]
        shp = {p.shape for p in parts}
        if len(shp) != 1:
            raise Unsupported("ragged array")
        r = np.empty((len(x),) + parts[0].shape, dtype=object)
        for i, y in enumerate(parts):
            r[i] = y if y.ndim else y[()]
        return r.view(SymArray)
    return np.array(x)


# ---------------------------------------------------------------- scalar operations
def _num(x):
    if isinstance(x, (SymBool,)):
        return x.p
    if isinstance(x, np.generic):
        return x.item()
    return x


def s_div(a, b):
    a, b = _num(a), _num(b)
    if isinstance(b, int):
        b = float(b)
    return fdiv(a, b)


def s_pow(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, SYMT) and not isinstance(b, SYMT):
        return float(np.power(float(a), float(b)))
    if isinstance(a, SYMT) and not isinstance(b, SYMT):
        return (a.flat() if isinstance(a, Cases) else a) ** b
    if isinstance(b, Sym) and not isinstance(a, SYMT):
        return fn("exp", b * math.log(a))
    raise Unsupported("power")


def s_fun(name, ff=None):
    def f(x):
        x = _num(x)
        if isinstance(x, Cases):
            x = x.flat()
        if isinstance(x, Sym):
            return fn(name, x)
        try:
            return getattr(math, name)(x)
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    return f


def s_acos(x):
    x = _num(x)
    if isinstance(x, Sym):
        return math.pi / 2 - fn("asin", x)
    try:
        return math.acos(x)
    except ValueError:
        return math.nan


def s_tan(x):
    x = _num(x)
    if isinstance(x, Sym):
        return fn("sin", x) / fn("cos", x)
    return math.tan(x)


def s_abs(x):
    x = _num(x)
    return abs(x.flat() if isinstance(x, Cases) else x)


def s_sign(x):
    x = _num(x)
    if isinstance(x, Sym):
        return ite(x < 0, -1.0, ite(x > 0, 1.0, 0.0))
    return float(np.sign(x))


def _cmp(op):
    def f(a, b):
        a, b = _num(a), _num(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return bool(op(a, b))
        r = op(a, b)
        return r if isinstance(r, SymBool) else bool(r)
    return f


def s_max(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, SYMT) and a != a:
        return a
    if not isinstance(b, SYMT) and b != b:
        return b
    return smax(a, b)


def s_min(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, SYMT) and a != a:
        return a
    if not isinstance(b, SYMT) and b != b:
        return b
    return smin(a, b)


def s_fmax(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, SYMT) and a != a:
        return b
    if not isinstance(b, SYMT) and b != b:
        return a
    return smax(a, b)


def s_fmin(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(a, SYMT) and a != a:
        return b
    if not isinstance(b, SYMT) and b != b:
        return a
    return smin(a, b)


def _conc(f):
    def g(*a):
        if any(isinstance(x, SYMT) for x in a):
            raise Unsupported("%s of a symbolic value" % f.__name__)
        return f(*a)
    return g


def s_mul(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, Cases) or isinstance(b, Cases):
        return a * b
    # 0 * symbolic is 0, as it is for finite values
    return a * b


import operator as op
S = {
    "add": lambda a, b: _num(a) + _num(b), "subtract": lambda a, b: _num(a) - _num(b), "multiply": s_mul,
    "divide": s_div, "true_divide": s_div, "negative": lambda a: -_num(a), "positive": lambda a: a,
    "power": s_pow, "float_power": s_pow, "square": lambda a: _num(a) * _num(a), "absolute": s_abs, "fabs": s_abs,
    "exp": s_fun("exp"), "log": s_fun("log"), "sqrt": s_fun("sqrt"), "sin": s_fun("sin"), "cos": s_fun("cos"),
    "tan": s_tan, "arcsin": s_fun("asin"), "arccos": s_acos, "arctan": s_fun("atan"),
    "deg2rad": lambda a: _num(a) * (math.pi / 180), "radians": lambda a: _num(a) * (math.pi / 180),
    "rad2deg": lambda a: _num(a) * (180 / math.pi), "degrees": lambda a: _num(a) * (180 / math.pi),
    "less": _cmp(op.lt), "less_equal": _cmp(op.le), "greater": _cmp(op.gt), "greater_equal": _cmp(op.ge),
    "equal": _cmp(op.eq), "not_equal": _cmp(op.ne),
    "logical_and": land, "logical_or": lor, "logical_not": lnot,
    "logical_xor": lambda a, b: land(lor(a, b), lnot(land(a, b))),
    "maximum": s_max, "minimum": s_min, "fmax": s_fmax, "fmin": s_fmin,
    "isnan": lambda a: (not isinstance(a, SYMT)) and a != a,
    "isinf": lambda a: (not isinstance(a, SYMT)) and abs(a) == math.inf,
    "isfinite": lambda a: isinstance(a, SYMT) or (a == a and abs(a) != math.inf),
    "sign": s_sign, "reciprocal": lambda a: s_div(1.0, a), "conjugate": lambda a: a,
    "floor_divide": _conc(op.floordiv), "remainder": _conc(op.mod), "fmod": _conc(math.fmod),
    "floor": _conc(lambda x: float(math.floor(x))), "ceil": _conc(lambda x: float(math.ceil(x))),
    "rint": _conc(lambda x: float(np.rint(x))), "trunc": _conc(lambda x: float(int(x))),
    "arctan2": _conc(math.atan2), "hypot": lambda a, b: s_pow(a * a + b * b, 0.5), "exp2": lambda a: s_pow(2.0, a),
    "log10": lambda a: s_fun("log")(a) / math.log(10.0), "expm1": lambda a: s_fun("exp")(a) - 1.0, "log1p": lambda a: s_fun("log")(a + 1.0),
    "heaviside": lambda a, h: ite(_num(a) < 0, 0.0, ite(_num(a) > 0, 1.0, h)), "cbrt": _conc(lambda x: float(np.cbrt(x))),
    "sinh": _conc(math.sinh), "cosh": _conc(math.cosh), "tanh": _conc(math.tanh), "copysign": _conc(math.copysign),
    "clip": lambda x, a, b: s_min(s_max(x, a), b),
}


def _bit(f_log, f_int):
    def g(*a):
        if all(isinstance(x, (bool, np.bool_, SymBool)) for x in a):
            return f_log(*a)
        return f_int(*a)
    return g


S["bitwise_and"] = _bit(land, op.and_)
S["bitwise_or"] = _bit(lor, op.or_)
S["bitwise_xor"] = _bit(S["logical_xor"], op.xor)
S["invert"] = _bit(lnot, lambda a: ~a)
_FP = {}
IDENT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False, "bitwise_and": None, "bitwise_or": None}


def ufn(name):
    if name not in _FP:
        f = S[name]
        import inspect
        n = f.__code__.co_argcount if hasattr(f, "__code__") and not f.__code__.co_flags & 4 else None
        if n is None:
            n = getattr(np, name).nin
        _FP[name] = np.frompyfunc(f, n, 1)
    return _FP[name]


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if name == "absolute":
        name = "absolute"
    if any(isinstance(x, MaskedSel) for x in inputs):
        return MaskedSel.ufunc(name, method, inputs, kw)
    if name == "matmul" or name == "vecdot":
        if method == "__call__":
            a, b = base(inputs[0]), base(inputs[1])
            return wrap(np.dot(a, b) if a.ndim <= 2 and b.ndim <= 2 else np.matmul(a, b))
    if name not in S:
        if not any(is_symbolic(x) for x in inputs):
            return getattr(ufunc, method)(*[concrete(x) if isinstance(x, np.ndarray) and x.dtype == object else x for x in inputs], **kw)
        raise Unsupported("ufunc " + name)
    f = ufn(name)
    dest = kw.pop("out", None)
    if isinstance(dest, tuple):
        dest = dest[0]
    where = kw.pop("where", True)
    kw.pop("casting", None); kw.pop("dtype", None); kw.pop("subok", None); kw.pop("order", None)
    arrs = [base(x) for x in inputs]
    if method == "__call__":
        r = f(*arrs)
        if not isinstance(r, np.ndarray):
            t = np.empty((), dtype=object)
            t[()] = r
            r = t
        if where is not True:
            w = base(where)
            old = base(dest) if dest is not None else None
            w, r2 = np.broadcast_arrays(w, r)
            rr = np.empty(r2.shape, dtype=object)
            ob = np.broadcast_to(old, r2.shape) if old is not None else None
            for i in np.ndindex(r2.shape):
                rr[i] = ite(w[i], r2[i], ob[i] if ob is not None else uninit())
            r = rr
        if dest is not None:
            if dest.dtype == object:
                base(dest)[...] = r
            else:
                dest[...] = concrete(r)
            return dest
        return wrap(r)
    a = arrs[0]
    if method == "reduce":
        axis = kw.get("axis", 0) if len(inputs) < 2 else inputs[1]
        keep = kw.get("keepdims", False)
        init = kw.get("initial", np._NoValue)
        if a.ndim == 0:
            return wrap(a)
        if axis is None:
            axes = tuple(range(a.ndim))
        elif isinstance(axis, tuple):
            axes = tuple(x % a.ndim for x in axis)
        else:
            axes = (int(axis) % a.ndim,)
        if where is not True:
            w = np.broadcast_to(base(where), a.shape)
            b = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                b[i] = ite(w[i], a[i], IDENT[name])
            a = b
        rest = [i for i in range(a.ndim) if i not in axes]
        t = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
        r = np.empty(t.shape[:-1], dtype=object)
        g = S[name]
        for i in np.ndindex(r.shape):
            v = None if init is np._NoValue or init is None else init
            for x in t[i].tolist():
                v = x if v is None else g(v, x)
            if v is None:
                v = IDENT.get(name)
                if v is None:
                    raise ValueError("zero-size array to reduction operation")
            if name in ("logical_or", "logical_and"):
                v = tobool(v)
            r[i] = v
        if keep:
            r = r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        if dest is not None:
            base(dest)[...] = r
            return dest
        return wrap(r)
    if method == "accumulate":
        axis = kw.get("axis", 0)
        b = np.moveaxis(a, axis, 0)
        r = np.empty(b.shape, dtype=object)
        for i in range(b.shape[0]):
            r[i] = b[i] if i == 0 else (f if b.ndim > 1 else S[name])(r[i - 1], b[i])
        return wrap(np.moveaxis(r, 0, axis))
    if method == "reduceat":
        axis = kw.get("axis", 0)
        b = np.moveaxis(a, axis, 0)
        idx = [int(i) for i in np.ravel(inputs[1])]
        rows = np.empty((len(idx),) + b.shape[1:], dtype=object)
        for p, i in enumerate(idx):
            e = idx[p + 1] if p + 1 < len(idx) else b.shape[0]
            x = base(ufunc_dispatch(ufunc, "reduce", (wrap(b[i:max(e, i + 1)]),), {"axis": 0}))
            rows[p] = x if x.ndim else x[()]
        return wrap(np.moveaxis(rows, 0, axis))
    if method == "outer":
        b = arrs[1]
        return wrap(f(a.reshape(a.shape + (1,) * b.ndim), b))
    if method == "at":
        tgt = base(inputs[0])
        idx = inputs[1]
        idx = concrete(idx) if isinstance(idx, np.ndarray) and idx.dtype == object else idx
        val = np.broadcast_to(base(inputs[2]), np.shape(idx))
        for p, i in enumerate(np.ravel(idx)):
            tgt[i] = S[name](tgt[i], val.ravel()[p])
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


_UN = [0]


def uninit():
    _UN[0] += 1
    return sym.var("uninit_np_%d" % _UN[0], -1e3, 1e3)


# ---------------------------------------------------------------- masks
class SymWhere(tuple):
    """the result of np.where(mask)/nonzero(mask) for a symbolic mask"""
    def __new__(cls, mask):
        t = tuple.__new__(cls, [_WherePart(mask, i) for i in range(mask.ndim)])
        t.mask = mask
        return t


class _WherePart:
    def __init__(self, mask, axis):
        self.mask, self.axis = mask, axis

    @property
    def size(self):
        return MaskedSel(np.zeros(self.mask.shape, dtype=object), self.mask).size

    def __len__(self):
        return int(self.size)


def as_mask(a):
    """object mask array when the index is a symbolic mask, a bool array when it is a concrete one"""
    if isinstance(a, SymWhere):
        return a.mask
    if isinstance(a, tuple) and len(a) == 1:
        return as_mask(a[0])
    if isinstance(a, _WherePart) and a.mask.ndim == 1:
        return a.mask
    if isinstance(a, np.ndarray) and a.dtype == object:
        fl = a.ravel().view(np.ndarray).tolist()
        if any(isinstance(x, SymBool) for x in fl):
            return base(a)
        if fl and all(isinstance(x, (bool, np.bool_)) for x in fl):
            return base(a).astype(bool)
    return None


def fix_index(ix):
    """object arrays of bools / ints used inside an index"""
    if isinstance(ix, tuple) and not isinstance(ix, SymWhere):
        return tuple(fix_index(x) for x in ix)
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        fl = ix.ravel().view(np.ndarray).tolist()
        if any(isinstance(x, SymBool) for x in fl):
            # a symbolic mask in a mixed index: decide it path by path
            r = np.empty(ix.shape, dtype=bool)
            for i, x in np.ndenumerate(base(ix)):
                r[i] = bool(x)
            return r
        if any(isinstance(x, (Sym, Cases)) for x in fl):
            r = np.empty(ix.shape, dtype=int)
            for i, x in np.ndenumerate(base(ix)):
                r[i] = realise_int(x)
            return r
        return concrete(ix).astype(int) if not all(isinstance(x, (bool, np.bool_)) for x in fl) else concrete(ix)
    if isinstance(ix, (Cases,)):
        return realise_int(ix)
    if isinstance(ix, Sym):
        return realise_int(ix)
    if isinstance(ix, float):
        return int(ix)
    if isinstance(ix, _WherePart):
        m = np.empty(ix.mask.shape, dtype=bool)
        for i, x in np.ndenumerate(ix.mask):
            m[i] = bool(x)
        return np.nonzero(m)[ix.axis]
    return ix


def _partial_mask(ix, m, ndim):
    """(index without the mask, mask as an array broadcastable to the indexed array) for an index
    that holds one symbolic mask covering some of the axes, next to slices and integers"""
    if m is not None:
        if m.dtype != object or m.ndim >= ndim:
            return None
        return (Ellipsis,), m.reshape(m.shape + (1,) * (ndim - m.ndim))
    if not isinstance(ix, tuple) or isinstance(ix, SymWhere):
        return None
    where = [p for p, x in enumerate(ix) if isinstance(x, np.ndarray) and as_mask(x) is not None and as_mask(x).dtype == object]
    if len(where) != 1 or any(not isinstance(x, (int, np.integer, slice)) and x is not Ellipsis for p, x in enumerate(ix) if p not in where):
        return None
    mask = as_mask(ix[where[0]])
    used = sum(1 for x in ix if x is not Ellipsis) - 1 + mask.ndim
    jx, pos = [], None
    for p, x in enumerate(ix):
        if p == where[0]:
            pos = len(jx)
            jx += [slice(None)] * mask.ndim
        elif x is Ellipsis:
            jx += [slice(None)] * (ndim - used)
        else:
            jx.append(x)
    jx += [slice(None)] * (ndim - len(jx))
    # a sliced axis next to the mask keeps its length; an integer axis disappears: the mask only spans its own axes
    return tuple(jx), mask.reshape((1,) * pos + mask.shape + (1,) * (ndim - pos - mask.ndim))


def realise_int(x):
    """fork over the values of a symbolic integer"""
    if isinstance(x, Sym):
        x = sym.trunc_int(x)
    if isinstance(x, Cases):
        for g, v in zip(x.guards[:-1], x.vals[:-1]):
            if bool(g):
                return int(v)
        return int(x.vals[-1])
    return int(x)


def embed(mask, shape):
    if mask.shape == shape:
        return mask
    r = np.empty(shape, dtype=object)
    r[...] = False
    if mask.ndim != len(shape):
        raise Unsupported("mask rank")
    r[tuple(slice(0, n) for n in mask.shape)] = mask
    return r


class MaskedSel:
    """a[mask] for a symbolic mask: values with presence guards"""
    __array_priority__ = 2000

    def __init__(self, vals, mask):
        self.vals, self.mask = vals, mask

    @staticmethod
    def ufunc(name, method, inputs, kw):
        m = next(x.mask for x in inputs if isinstance(x, MaskedSel))
        if method == "__call__":
            arrs = []
            for x in inputs:
                if isinstance(x, MaskedSel):
                    if x.mask is not m and not _same_mask(x.mask, m):
                        raise Unsupported("two selections with different masks")
                    arrs.append(x.vals)
                else:
                    b = base(x)
                    if b.ndim:
                        raise Unsupported("selection combined with an array")
                    arrs.append(b)
            return MaskedSel(ufn(name)(*arrs), m)
        if method == "reduce" and name == "add":
            return inputs[0].sum()
        if method == "reduce" and name in ("maximum", "minimum"):
            return inputs[0].extremum(name)
        raise Unsupported("reduction of a masked selection: " + name)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return MaskedSel.ufunc(ufunc.__name__, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        if func.__name__ in ("sum", "mean", "size", "max", "min", "amax", "amin"):
            n = {"amax": "max", "amin": "min"}.get(func.__name__, func.__name__)
            r = getattr(args[0], n)
            return r() if callable(r) else r
        if func.__name__ == "dot":
            return (args[0] * args[1]).sum()
        raise Unsupported("np.%s of a masked selection" % func.__name__)

    def sum(self, axis=None, **k):
        t = 0.0
        for v, g in zip(self.vals.ravel().tolist(), self.mask.ravel().tolist()):
            t = t + ite(g, v, 0.0)
        return out(t)

    @property
    def size(self):
        t = 0.0
        for g in self.mask.ravel().tolist():
            t = t + ite(g, 1.0, 0.0)
        return t

    def mean(self, **k):
        return self.sum() / self.size

    def extremum(self, name):
        raise Unsupported("extremum of a masked selection")

    def max(self, **k): return self.extremum("maximum")
    def min(self, **k): return self.extremum("minimum")

    def _b(self, name, o, rev=False):
        a = (o, self) if rev else (self, o)
        return MaskedSel.ufunc(name, "__call__", a, {})
    def __add__(self, o): return self._b("add", o)
    def __radd__(self, o): return self._b("add", o, True)
    def __sub__(self, o): return self._b("subtract", o)
    def __rsub__(self, o): return self._b("subtract", o, True)
    def __mul__(self, o): return self._b("multiply", o)
    def __rmul__(self, o): return self._b("multiply", o, True)
    def __truediv__(self, o): return self._b("divide", o)
    def __rtruediv__(self, o): return self._b("divide", o, True)
    def __neg__(self): return MaskedSel(ufn("negative")(self.vals), self.mask)
    def __pow__(self, o): return self._b("power", o)


def _same_mask(a, b):
    if a.shape != b.shape:
        return False
    for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
        if x is y:
            continue
        if isinstance(x, SymBool) and isinstance(y, SymBool):
            d = x.p - y.p
            if isinstance(d, Sym) or d:
                return False
        elif isinstance(x, SymBool) or isinstance(y, SymBool) or bool(x) != bool(y):
            return False
    return True


# ---------------------------------------------------------------- the array class
class SymArray(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        o = OVERRIDES.get(func.__name__)
        if o is not None:
            return o(*args, **kwargs)
        r = super().__array_function__(func, [t for t in types_ if issubclass(t, np.ndarray)], args, kwargs)
        return r

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return wrap(a)

    def __getitem__(self, ix):
        m = as_mask(ix)
        if m is not None:
            if m.dtype == bool:
                return wrap(base(self)[m])
            if sym_eager():
                mm = np.array([bool(x) for x in m.ravel().tolist()], dtype=bool).reshape(m.shape)
                return wrap(base(self)[mm])
            b = base(self)
            if m.ndim < b.ndim:
                return wrap(b[fix_index(m)])
            return MaskedSel(b, embed(m, b.shape))
        b = base(self)
        r = b[fix_index(ix)]
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return out(r)

    def __setitem__(self, ix, v):
        b = base(self)
        m = as_mask(ix)
        if m is not None and m.dtype == object and m.ndim == b.ndim and not sym_eager():
            m = embed(m, b.shape)
            if isinstance(v, MaskedSel):
                if not _same_mask(v.mask, m):
                    raise Unsupported("assignment between different masks")
                v = v.vals
            vv = base(v)
            if vv.ndim and vv.shape != b.shape:
                raise Unsupported("array assigned through a symbolic mask")
            vv = np.broadcast_to(vv, b.shape)
            for i in np.ndindex(b.shape):
                b[i] = ite(m[i], vv[i], b[i])
            return
        if not sym_eager():
            part = _partial_mask(ix, m, b.ndim)
            if part is not None and (np.ndim(v) == 0 and not isinstance(v, MaskedSel)):
                jx, mm = part
                mm = np.broadcast_to(mm, b.shape)[jx]
                tgt = b[jx]
                vv = base(v)[()]
                new = np.empty(tgt.shape, dtype=object)
                for i in np.ndindex(tgt.shape):
                    new[i] = ite(mm[i], vv, tgt[i])
                b[jx] = new
                return
        if m is not None:
            if m.dtype == object:
                m = np.array([bool(x) for x in m.ravel().tolist()], dtype=bool).reshape(m.shape)
                if m.ndim == b.ndim and m.shape != b.shape:
                    ix = np.nonzero(m)
                else:
                    ix = m
            else:
                ix = m
        if isinstance(v, np.ndarray):
            v = base(v)
        elif isinstance(v, (list, tuple)):
            v = base(mkarray(v))
        elif isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, bool):
            v = v
        elif isinstance(v, int):
            v = float(v) if not isinstance(v, bool) else v
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        if isinstance(v, Cases):
            v = v.flat()
        ix = fix_index(ix)
        if isinstance(v, SYMT):
            # keep numpy from treating the value as a sequence
            tgt = b[ix]
            if isinstance(tgt, np.ndarray):
                t = np.empty(tgt.shape, dtype=object)
                t.fill(v)
                b[ix] = t
            else:
                b[ix] = v
            return
        b[ix] = v

    def astype(self, dtype, *a, **k):
        d = np.dtype(dtype)
        if d == object:
            return wrap(base(self).copy())
        if not is_symbolic(self):
            return concrete(self).astype(d)
        if d.kind == "f" and d.itemsize < 8:
            raise Unsupported("reduced precision (%s)" % d)
        if d.kind == "f":
            r = np.frompyfunc(lambda x: _num(x), 1, 1)(base(self))
            return wrap(r)
        if d.kind in "iu":
            return wrap(np.frompyfunc(lambda x: sym.trunc_int(x) if isinstance(x, (Sym, Cases)) else (x.p if isinstance(x, SymBool) else int(x)), 1, 1)(base(self)))
        if d.kind == "b":
            return wrap(np.frompyfunc(tobool, 1, 1)(base(self)))
        raise Unsupported("astype %s" % d)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = np.add.reduce(self, axis=axis, keepdims=keepdims, **k)
        if axis is None:
            n = self.size
        elif isinstance(axis, tuple):
            n = int(np.prod([self.shape[i] for i in axis]))
        else:
            n = self.shape[axis]
        return s / float(n)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return o_cumsum(self, axis)

    def nonzero(self):
        return o_nonzero(self)

    def dot(self, o):
        return wrap(np.dot(base(self), base(o)))

    def clip(self, min=None, max=None, **k):
        return o_clip(self, min, max)

    def std(self, *a, **k):
        return o_std(self, *a, **k)

    def var(self, *a, **k):
        return o_var(self, *a, **k)

    def argmax(self, axis=None, out=None, **k):
        return OVERRIDES["argmax"](self, axis)

    def argmin(self, axis=None, out=None, **k):
        return OVERRIDES["argmin"](self, axis)

    def sort(self, axis=-1, **k):
        base(self)[...] = base(o_sort(self, axis))

    def choose(self, choices, **k):
        return o_choose(self, choices)

    def __reduce__(self):
        raise Unsupported("pickle")

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order="C"):
        return wrap(base(self).copy(order=order)) if self.ndim else base(self).copy().view(SymArray)

    def item(self, *a):
        return base(self).item(*a)

    def __float__(self):
        return float(base(self)[()] if self.ndim == 0 else base(self).ravel()[0])

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).ravel()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def tolist(self):
        return base(self).tolist()


def sym_eager():
    ex = sym.CTX.explorer
    return ex is not None and getattr(ex, "eager", False)


# ---------------------------------------------------------------- function overrides
def o_where(c, *xy):
    if not xy:
        return o_nonzero(c)
    a, b = xy
    if isinstance(c, SymWhere) or isinstance(a, MaskedSel) or isinstance(b, MaskedSel):
        raise Unsupported("np.where on selections")
    return wrap(np.frompyfunc(lambda c, a, b: ite(c, _num(a), _num(b)), 3, 1)(base(c), base(a), base(b)))


def o_nonzero(a):
    b = base(a)
    m = np.frompyfunc(tobool, 1, 1)(b)
    if not isinstance(m, np.ndarray):
        m = np.array([m], dtype=object)
    if not any(isinstance(x, SymBool) for x in m.ravel().tolist()):
        return np.nonzero(m.astype(bool))
    if sym_eager():
        return np.nonzero(np.array([bool(x) for x in m.ravel().tolist()]).reshape(m.shape))
    return SymWhere(m)


def o_argwhere(a):
    t = o_nonzero(a)
    if isinstance(t, SymWhere):
        m = np.array([bool(x) for x in t.mask.ravel().tolist()]).reshape(t.mask.shape)
        return np.argwhere(m)
    return np.transpose(np.array(t))


def o_count_nonzero(a, axis=None, **k):
    b = np.frompyfunc(tobool, 1, 1)(base(a))
    if any(isinstance(x, SymBool) for x in b.ravel().tolist()):
        return np.add.reduce(wrap(np.frompyfunc(lambda x: x.p if isinstance(x, SymBool) else float(x), 1, 1)(b)), axis=axis)
    return np.count_nonzero(b.astype(bool), axis=axis)


def o_cumsum(a, axis=None, dtype=None, out=None):
    a = mkarray(a) if not isinstance(a, np.ndarray) else a
    if axis is None:
        a = a.ravel()
        axis = 0
    return ufunc_dispatch(np.add, "accumulate", (a,), {"axis": axis})


def o_interp(x, xp, fp, left=None, right=None, period=None):
    if not any(is_symbolic(v) for v in (x, xp, fp, left, right)):
        return wrap(np.interp(*(concrete(np.asarray(v)) for v in (x, xp, fp)), left=left, right=right).astype(object)) if np.ndim(x) else \
            np.interp(x, concrete(np.asarray(xp)), concrete(np.asarray(fp)), left=left, right=right)
    if period is not None:
        raise Unsupported("interp period")
    X = base(x)
    P = [_num(v) for v in base(xp).ravel().tolist()]
    F = [_num(v) for v in base(fp).ravel().tolist()]
    if len(P) != len(F):
        raise ValueError("fp and xp are not of the same length.")

    def one(v):
        v = _num(v)
        n = len(P)
        # segment j: P[j] <= v < P[j+1]
        res = F[-1]
        if right is not None:
            res = ite(tobool(v > P[-1]), right, F[-1])
        for j in range(n - 2, -1, -1):
            c = tobool(v < P[j + 1])
            if c is False:
                continue
            den = P[j + 1] - P[j]
            if not isinstance(den, Sym) and den == 0:
                seg = F[j]
            else:
                seg = F[j] + fdiv(F[j + 1] - F[j], den) * (v - P[j])
            res = ite(c, seg, res)
        c = tobool(v < P[0])
        return ite(c, F[0] if left is None else left, res)
    r = np.empty(X.shape, dtype=object)
    for i in np.ndindex(X.shape):
        r[i] = one(X[i])
    return wrap(r)


def o_digitize(x, bins, right=False):
    X, B = base(x), [_num(v) for v in base(bins).ravel().tolist()]
    inc = True
    if not is_symbolic(bins) and len(B) > 1 and B[0] > B[-1]:
        inc = False
    if not inc and is_symbolic(x):
        raise Unsupported("digitize with decreasing bins")
    if not is_symbolic(x) and not is_symbolic(bins):
        return np.digitize(concrete(X), np.array(B, dtype=float), right=right)
    r = np.empty(X.shape, dtype=object)
    for i in np.ndindex(X.shape):
        v = _num(X[i])
        ge = [tobool(v > b) if right else tobool(v >= b) for b in B]
        gs, vs = [], []
        for n in range(len(B) + 1):
            g = True
            if n > 0:
                g = ge[n - 1]
            if n < len(B):
                g = land(g, lnot(ge[n]))
            if g is not False:
                gs.append(g); vs.append(n)
        if len(vs) == 1 or gs[0] is True:
            r[i] = vs[0]
        else:
            r[i] = Cases(gs, vs)
    if all(isinstance(t, int) for t in r.ravel().tolist()):
        return r.astype(int)
    return wrap(r)


def o_searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    return o_digitize(v, a, right=(side == "left"))


def o_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not is_symbolic(start) and not is_symbolic(stop):
        start = concrete(start)[()] if isinstance(start, np.ndarray) else start
        stop = concrete(stop)[()] if isinstance(stop, np.ndarray) else stop
        r = np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=dtype)
        if retstep:
            return r[0].astype(object).view(SymArray), r[1]
        return r.astype(object).view(SymArray)
    start, stop = _num(start), _num(stop)
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        start, stop = base(start)[()], base(stop)[()]
    div = (num - 1) if endpoint else num
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = start + (stop - start) * (i / div)
    if endpoint and num > 1:
        r[-1] = stop
    if retstep:
        return wrap(r), (stop - start) * (1.0 / div)
    return wrap(r)


def o_clip(a, a_min=None, a_max=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min) if isinstance(r, np.ndarray) else s_max(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max) if isinstance(r, np.ndarray) else s_min(r, a_max)
    return r


def o_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not is_symbolic(a) and not is_symbolic(b):
        return np.isclose(concrete(np.asarray(a)), concrete(np.asarray(b)), rtol=rtol, atol=atol)
    d = ufunc_dispatch(np.absolute, "__call__", (ufunc_dispatch(np.subtract, "__call__", (a, b), {}),), {})
    t = ufunc_dispatch(np.absolute, "__call__", (b,), {})
    return ufunc_dispatch(np.less_equal, "__call__", (d, t * rtol + atol), {})


def o_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = o_isclose(a, b, rtol, atol)
    return bool(np.logical_and.reduce(r, axis=None))


def o_bincount(x, weights=None, minlength=0):
    X = base(x).ravel().tolist()
    if not any(isinstance(v, SYMT) for v in X):
        X = [int(v) for v in X]
        n = max(minlength, max(X) + 1 if X else 0)
        r = np.zeros(n, dtype=object)
        r[...] = 0.0
        W = base(weights).ravel().tolist() if weights is not None else [1] * len(X)
        for i, w in zip(X, W):
            r[i] = r[i] + w
        return wrap(r)
    if not minlength:
        raise Unsupported("bincount of symbolic values without minlength")
    n = max([minlength] + [max(v.vals) + 1 if isinstance(v, Cases) else int(v) + 1 for v in X])
    r = [0.0] * n
    W = base(weights).ravel().tolist() if weights is not None else [1.0] * len(X)
    for v, w in zip(X, W):
        if isinstance(v, Cases):
            for g, i in zip(v.guards, v.vals):
                r[i] = r[i] + ite(g, w, 0.0)
        else:
            r[int(v)] = r[int(v)] + w
    return mkarray(r)


def o_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
    if fweights is not None or aweights is not None:
        raise Unsupported("weighted cov")
    X = base(m)
    if X.ndim == 1:
        X = X[None, :]
    elif not rowvar:
        X = X.T
    if y is not None:
        Y = base(y)
        if Y.ndim == 1:
            Y = Y[None, :]
        elif not rowvar:
            Y = Y.T
        X = np.concatenate([X, Y], axis=0)
    n = X.shape[1]
    d = ddof if ddof is not None else (0 if bias else 1)
    X = wrap(X)
    Xc = X - X.mean(axis=1)[:, None]
    return wrap(np.dot(base(Xc), base(Xc).T)) / float(n - d) if n - d > 0 else wrap(np.full((X.shape[0],) * 2, math.nan, dtype=object))


def o_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = mkarray(a) if not isinstance(a, np.ndarray) else a
    return SymArray.mean(a.view(SymArray) if a.dtype == object else wrap(base(a)), axis=axis, keepdims=keepdims)


def o_red(uf):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        if isinstance(a, MaskedSel):
            return MaskedSel.ufunc(uf.__name__, "reduce", (a,), {})
        a = mkarray(a) if not isinstance(a, np.ndarray) else a
        kw = {"axis": axis, "keepdims": bool(keepdims) if keepdims is not np._NoValue else False, "initial": initial, "where": where}
        return ufunc_dispatch(uf, "reduce", (a,), kw)
    return f


def o_extremum(uf):
    g = o_red(uf)

    def f(a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        return g(a, axis=axis, keepdims=keepdims, initial=initial, where=where)
    return f


def o_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = mkarray(a) if not isinstance(a, np.ndarray) else a
    if weights is None:
        return o_mean(a, axis)
    w = base(weights)
    if w.shape != a.shape:
        if w.ndim != 1 or axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = np.broadcast_to(w.reshape(sh), a.shape)
    w = wrap(np.array(w))
    return np.add.reduce(wrap(base(a)) * w, axis=axis) / np.add.reduce(w, axis=axis)


def o_einsum(*a, **k):
    k.pop("optimize", None)
    ops = [base(x) if isinstance(x, np.ndarray) else x for x in a]
    return wrap(np.einsum(*ops, **k))


def o_dot(a, b, out=None):
    if isinstance(a, MaskedSel) or isinstance(b, MaskedSel):
        return (a * b).sum()
    return wrap(np.dot(base(a), base(b)))


def o_nan_to_num(a, **k):
    return wrap(np.frompyfunc(lambda x: 0.0 if not isinstance(x, SYMT) and x != x else x, 1, 1)(base(a)))


def o_trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(np.moveaxis(base(y), axis, -1))
    if x is not None:
        xx = base(x)
        d = wrap(np.array(xx[1:] - xx[:-1]))
    else:
        d = dx
    return np.add.reduce((y[..., 1:] + y[..., :-1]) * d * 0.5, axis=-1)


def o_ones_like(v):
    def f(a, dtype=None, order="K", subok=True, shape=None):
        return filled(v, np.shape(a) if shape is None else shape, dtype if dtype is not None else (a.dtype if isinstance(a, np.ndarray) and a.dtype.kind in "biu" else None))
    return f


def filled(v, shape, dtype=None):
    if dtype is not None and np.dtype(dtype).kind not in "fO":
        return np.full(shape, v, dtype=dtype)
    low = dtype is not None and np.dtype(dtype).kind == "f" and np.dtype(dtype).itemsize < 8
    r = np.empty(shape, dtype=object)
    if isinstance(v, np.ndarray):
        r[...] = base(v)
    elif v is None:
        for i in np.ndindex(r.shape):
            r[i] = uninit()
    else:
        for i in np.ndindex(r.shape):
            r[i] = v
    return r.view(LowPrecision if low else SymArray)


class LowPrecision(SymArray):
    """array of reduced precision: may only hold numbers it represents exactly"""

    def __setitem__(self, ix, v):
        for x in np.ravel(np.asarray(v, dtype=object)):
            if isinstance(x, SYMT) and not isinstance(x, SymBool) or isinstance(x, float) and x != float(np.float16(x)):
                raise Unsupported("values stored in reduced precision")
        super().__setitem__(ix, v)


def o_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    return filled(_fl(fill_value), np.shape(a) if shape is None else shape, dtype)


def _fl(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v[()]
    if isinstance(v, int) and not isinstance(v, bool):
        v = float(v)
    return v


def _store(dst, mask, vals):
    """dst[mask] = vals at the same positions"""
    b = base(dst)
    m = np.broadcast_to(np.frompyfunc(tobool, 1, 1)(base(mask)), b.shape)
    v = np.broadcast_to(base(vals), b.shape)
    new = np.empty(b.shape, dtype=object)
    for i in np.ndindex(b.shape):
        new[i] = ite(m[i], _num(v[i]), b[i])
    if dst.dtype == object:
        b[...] = new
    else:
        dst[...] = concrete(new)


def o_putmask(a, mask, values):
    v = base(values)
    if v.shape != np.shape(a):
        v = v.ravel()
        n = int(np.size(a))
        v = np.array([v[i % v.size] for i in range(n)] + [None], dtype=object)[:-1].reshape(np.shape(a))
    _store(a, mask, v)


def o_copyto(dst, src, casting="same_kind", where=True):
    _store(dst, where, src)


def o_place(a, mask, vals):
    v = base(vals).ravel()
    if v.size != 1:
        raise Unsupported("np.place of several values")
    _store(a, mask, v[0])


def o_select(condlist, choicelist, default=0):
    r = default
    for c, x in list(zip(condlist, choicelist))[::-1]:
        r = o_where(c, x, r)
    return r


def o_choose(a, choices, out=None, mode="raise"):
    r = choices[-1]
    for k in range(len(choices) - 2, -1, -1):
        r = o_where(ufunc_dispatch(np.equal, "__call__", (a, float(k)), {}), choices[k], r)
    return r


def o_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = mkarray(a) if not isinstance(a, np.ndarray) else wrap(base(a))
    m = a.mean(axis=axis, keepdims=True)
    n = a.size if axis is None else int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    d = a - m
    return np.add.reduce(d * d, axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False) / float(n - ddof)


def o_std(a, *args, **k):
    v = o_var(a, *args, **k)
    return ufunc_dispatch(np.sqrt, "__call__", (v,), {})


def o_fromiter(it, dtype=None, count=-1, **k):
    return mkarray([x for i, x in enumerate(it) if count < 0 or i < count])


def o_arg_extremum(better):
    def f(a, axis=None, out=None, keepdims=False):
        if axis is not None and np.ndim(a) > 1:
            b = np.moveaxis(base(a), axis, -1)
            r = np.empty(b.shape[:-1], dtype=object)
            for i in np.ndindex(r.shape):
                r[i] = f(wrap(b[i]))
            return wrap(r)
        xs = [_num(v) for v in base(a).ravel().tolist()]
        if not any(isinstance(x, SYMT) for x in xs):
            return int((np.argmax if better else np.argmin)(np.array(xs, dtype=float)))
        gs, vs = [], []
        for i, x in enumerate(xs):
            g = True
            for j, y in enumerate(xs):
                if j < i:
                    g = land(g, tobool(x > y if better else x < y))
                elif j > i:
                    g = land(g, tobool(x >= y if better else x <= y))
            if g is not False:
                gs.append(g); vs.append(i)
        return vs[0] if len(vs) == 1 else Cases(gs, vs)
    return f


def o_sort(a, axis=-1, kind=None, order=None, **k):
    """a compare-exchange network: no path is decided"""
    b = np.moveaxis(np.array(base(a)), axis, -1) if axis is not None else np.array(base(a)).ravel()
    for i in np.ndindex(b.shape[:-1]):
        row = [_num(x) for x in b[i].tolist()]
        for n in range(len(row) - 1, 0, -1):
            for j in range(n):
                row[j], row[j + 1] = s_min(row[j], row[j + 1]), s_max(row[j], row[j + 1])
        for j, x in enumerate(row):
            b[i + (j,)] = x
    return wrap(np.moveaxis(b, -1, axis) if axis is not None else b)


def o_histogram(a, bins=10, range=None, density=None, weights=None):
    if density:
        raise Unsupported("histogram density")
    xs = [_num(v) for v in base(a).ravel().tolist()]
    if isinstance(bins, int):
        lo, hi = range if range is not None else (np.min(a), np.max(a))
        edges = o_linspace(lo, hi, bins + 1)
    else:
        edges = bins
    B = [_num(v) for v in base(edges).ravel().tolist()]
    W = base(weights).ravel().tolist() if weights is not None else [1.0] * len(xs)
    r = []
    for k in np.arange(len(B) - 1).tolist():
        t = 0.0
        for x, w in zip(xs, W):
            g = land(tobool(x >= B[k]), tobool(x <= B[k + 1]) if k == len(B) - 2 else tobool(x < B[k + 1]))
            t = t + ite(g, w, 0.0)
        r.append(t)
    return mkarray(r), edges


OVERRIDES = {
    "putmask": o_putmask, "copyto": o_copyto, "place": o_place, "select": o_select, "choose": o_choose,
    "var": o_var, "std": o_std, "fromiter": o_fromiter, "argmax": o_arg_extremum(True), "argmin": o_arg_extremum(False),
    "sort": o_sort, "histogram": o_histogram,
    "where": o_where, "nonzero": o_nonzero, "argwhere": o_argwhere, "count_nonzero": o_count_nonzero, "cumsum": o_cumsum,
    "interp": o_interp, "digitize": o_digitize, "searchsorted": o_searchsorted, "linspace": o_linspace, "clip": o_clip,
    "isclose": o_isclose, "allclose": o_allclose, "bincount": o_bincount, "cov": o_cov, "mean": o_mean, "average": o_average,
    "sum": o_red(np.add), "prod": o_red(np.multiply), "any": o_red(np.logical_or), "all": o_red(np.logical_and),
    "amax": o_extremum(np.maximum), "max": o_extremum(np.maximum), "amin": o_extremum(np.minimum), "min": o_extremum(np.minimum),
    "nansum": o_red(np.add), "nanmean": o_mean, "nanmax": o_extremum(np.fmax), "nanmin": o_extremum(np.fmin),
    "einsum": o_einsum, "dot": o_dot, "nan_to_num": o_nan_to_num, "trapezoid": o_trapz, "trapz": o_trapz,
    "zeros_like": o_ones_like(0.0), "ones_like": o_ones_like(1.0), "empty_like": o_ones_like(None), "full_like": o_full_like,
}


class NpProxy(types.ModuleType):
    """what `import numpy as np` means inside the analysed modules during symbolic execution"""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        return getattr(np, n)


def make_proxy():
    p = NpProxy()
    d = p.__dict__
    from .stubs import LinalgProxy
    d["linalg"] = LinalgProxy()

    def lifted(name):
        real = getattr(np, name)
        o = OVERRIDES[name]

        def f(*a, **k):
            if any(isinstance(x, (SymArray, MaskedSel, _WherePart) + SYMT) or is_symbolic(x) for x in list(a) + list(k.values())):
                return o(*a, **k)
            return real(*a, **k)
        f.__name__ = name
        return f
    for n in OVERRIDES:
        if hasattr(np, n):
            d[n] = lifted(n)
    for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
        d[n] = OVERRIDES[n]
    d["zeros"] = lambda shape, dtype=None, order="C": filled(0.0, shape, dtype)
    d["ones"] = lambda shape, dtype=None, order="C": filled(1.0, shape, dtype)
    d["empty"] = lambda shape, dtype=None, order="C": filled(None, shape, dtype)
    d["full"] = lambda shape, fill_value, dtype=None, order="C": filled(_fl(fill_value), shape, dtype)

    def array(x, dtype=None, copy=True, **k):
        if isinstance(x, SymArray) or is_symbolic(x):
            r = mkarray(x)
            return r if dtype is None else r.astype(dtype)
        return np.array(x, dtype=dtype, **k)

    def asarray(x, dtype=None, **k):
        if isinstance(x, SymArray):
            return x if dtype is None else x.astype(dtype)
        if is_symbolic(x):
            r = mkarray(x)
            return r if dtype is None else r.astype(dtype)
        return np.asarray(x, dtype=dtype, **k)
    d["array"] = array
    d["asarray"] = asarray
    d["asanyarray"] = asarray
    d["ascontiguousarray"] = asarray
    d["asfortranarray"] = asarray
    d["linspace"] = o_linspace
    d["fromiter"] = o_fromiter

    def vectorize(f, **k):
        def g(*a):
            return wrap(np.frompyfunc(f, len(a), 1)(*[base(x) for x in a]))
        return g
    d["vectorize"] = vectorize

    def block(x):
        def conv(y):
            return [conv(z) for z in y] if isinstance(y, list) else base(y)
        return wrap(np.block(conv(x)))
    d["block"] = block
    d["isscalar"] = lambda x: isinstance(x, SYMT) or np.isscalar(x)

    # ufuncs called with symbolic scalars dispatch through Sym.__array_ufunc__
    def cat(name):
        real = getattr(np, name)

        def f(arrs, *a, **k):
            if any(isinstance(x, SymArray) or is_symbolic(x) for x in arrs):
                return wrap(real([base(x) for x in arrs], *a, **k))
            return real(arrs, *a, **k)
        return f
    for n in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"):
        d[n] = cat(n)
    return p


def input_array(name, shape, lo, hi, f=None):
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = sym.var("%s%s" % (name, list(i)), lo, hi)
    return r.view(SymArray)
