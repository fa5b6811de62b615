"""Symbolic real values.

A value is a multivariate polynomial with float coefficients over *atoms*:
  var   an input variable with a stated interval
  ind   the indicator [p < 0] of another polynomial p          (0/1, idempotent)
  ite   an opaque if-then-else value
  inv   the reciprocal of a polynomial with several terms
  fn    an application of a named function (exp, asin, a stub, ...)
Concrete values stay Python floats.  The semantics is exact real arithmetic
(coefficients are rounded to double like the code's own constants).
"""
import math
from fractions import Fraction

INF = math.inf


class Unsupported(Exception):
    """the encoding cannot represent what the code does"""


class Atom:
    __slots__ = ("id", "kind", "data", "lo", "hi", "name")

    def __init__(self, id, kind, data, lo, hi, name):
        self.id, self.kind, self.data, self.lo, self.hi, self.name = id, kind, data, lo, hi, name


ATOMS = [None]
_KEYS = {}
_MUL = {}
_PAIR = {}
REL_EPS = 1e-12
STATS = {"ops": 0, "forks": 0, "merges": 0}
MERGE_LIMIT = 400      # terms above which an if-then-else becomes opaque


def reset():
    del ATOMS[1:]
    _KEYS.clear(); _MUL.clear(); _PAIR.clear()
    for k in STATS:
        STATS[k] = 0
    OBLIGATIONS.clear()
    CTX.explorer = None


class _Ctx:
    explorer = None
CTX = _Ctx()
OBLIGATIONS = []       # (kind, guard SymBool/bool, text): things that must never happen


def _new_atom(kind, data, lo, hi, name, key):
    if key is not None and key in _KEYS:
        return _KEYS[key]
    a = Atom(len(ATOMS), kind, data, lo, hi, name)
    ATOMS.append(a)
    if key is not None:
        _KEYS[key] = a.id
    return a.id


def var(name, lo, hi):
    """a fresh input variable in [lo, hi]"""
    return Sym({(_new_atom("var", None, float(lo), float(hi), name, ("var", name)),): 1.0})


def _round(c):
    return float("%.10e" % c)


def _keyof(d):
    return tuple(sorted((m, _round(c)) for m, c in d.items()))


def _close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-30)


def _poly_atom(kind, extra, xs, mkatom):
    """atom keyed by polynomials up to 1e-9 relative differences of coefficients"""
    sup, cf = [], []
    for x in xs:
        if isinstance(x, Sym):
            it = sorted(x.d.items())
            sup.append(tuple(m for m, _ in it))
            cf.extend(c for _, c in it)
        else:
            sup.append(None)
            cf.append(float(x))
    bucket = _KEYS.setdefault((kind, extra, tuple(sup)), [])
    for c2, i in bucket:
        if all(_close(a, b) for a, b in zip(cf, c2)):
            return i
    i = mkatom()
    bucket.append((cf, i))
    return i


def _ind_pair(i, j):
    """product rule for two indicator atoms: None no rule, 0 exclusive, else the id that survives"""
    k = (i, j)
    r = _PAIR.get(k, -1)
    if r != -1:
        return r
    p, q = ATOMS[i].data, ATOMS[j].data
    r = None
    if p.support() == q.support():
        d = q - p
        lo, hi = rng(d)
        if hi <= 0:
            r = i
        elif lo >= 0:
            r = j
        else:
            lo, hi = rng(p + q)
            if lo >= 0:
                r = 0
    _PAIR[k] = r
    return r


def _mono_mul(a, b):
    """product of two monomials (tuples of atom ids); None when identically zero"""
    k = (a, b)
    r = _MUL.get(k, 0)
    if r != 0:
        return r
    inds = set()
    rest = []
    for x in a + b:
        if x > 0 and ATOMS[x].kind == "ind":
            inds.add(x)
        else:
            rest.append(x)
    zero = False
    if len(inds) > 1:
        il = sorted(inds)
        for ii, x in enumerate(il):
            for y in il[ii + 1:]:
                if x in inds and y in inds:
                    t = _ind_pair(x, y)
                    if t == 0:
                        zero = True
                    elif t == x:
                        inds.discard(y)
                    elif t == y:
                        inds.discard(x)
    if zero:
        r = None
    else:
        neg = [x for x in rest if x < 0]
        if neg:
            for x in neg:
                if -x in rest:
                    rest.remove(-x)
                    rest.remove(x)
        r = tuple(sorted(rest)) + tuple(sorted(inds))
    if len(_MUL) > 4000000:
        _MUL.clear()
    _MUL[k] = r
    return r


def _isnum(x):
    return isinstance(x, (int, float)) or (hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and x.dtype != object)


class Sym:
    __slots__ = ("d", "_rng")
    __array_priority__ = 1000

    def __init__(self, d):
        self.d = d
        self._rng = None

    # ---- structure
    def support(self):
        return frozenset(m for m in self.d if m)

    def const(self):
        d = self.d
        if not d:
            return 0.0
        if len(d) == 1 and () in d:
            return d[()]
        return None

    def __repr__(self):
        if len(self.d) > 12:
            return "<Sym %d terms>" % len(self.d)
        return "<" + " + ".join("%.6g*%s" % (c, "*".join(aname(i) for i in m) or "1") for m, c in sorted(self.d.items())) + ">"

    # ---- arithmetic
    def __add__(self, o):
        if not isinstance(o, Sym):
            o2 = lift(o)
            if o2 is None:
                return NotImplemented
            if not isinstance(o2, Sym):
                if o2 == 0:
                    return self
                if o2 != o2 or o2 in (INF, -INF):
                    return o2
                d = dict(self.d)
                _acc(d, (), o2)
                return mk(d)
            o = o2
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, c in b.items():
            e = d.get(m)
            if e is None:
                d[m] = c
            else:
                v = e + c
                if abs(v) <= REL_EPS * max(abs(e), abs(c)):
                    del d[m]
                else:
                    d[m] = v
        return mk(d)
    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Sym):
            return self + (-o)
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return self + (-o2)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Sym):
            o2 = lift(o)
            if o2 is None:
                return NotImplemented
            if not isinstance(o2, Sym):
                if o2 == 0:
                    return 0.0
                if o2 != o2 or o2 in (INF, -INF):
                    raise Unsupported("symbolic value times non-finite constant")
                if o2 == 1:
                    return self
                return Sym({m: c * o2 for m, c in self.d.items()})
            o = o2
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mono_mul(m1, m2)
                if m is not None:
                    _acc(d, m, c1 * c2)
        return mk(d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Sym):
            o2 = lift(o)
            if o2 is None:
                return NotImplemented
            if not isinstance(o2, Sym):
                if o2 == 0:
                    raise Unsupported("symbolic value divided by zero")
                return Sym({m: c / o2 for m, c in self.d.items()})
            o = o2
        return self * o.recip(self)

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2 == 0:
            return 0.0
        return o2 * self.recip()

    def recip(self, num=None):
        d = self.d
        if not d:
            raise ZeroDivisionError
        if len(d) == 1:
            (m, c), = d.items()
            if all(ATOMS[abs(i)].kind != "ind" for i in m):
                return Sym({tuple(sorted(-i for i in m)): 1.0 / c})
        lead = min(m for m in d if m)
        s = d[lead]
        p = Sym({m: c / s for m, c in d.items()})
        if num is not None and len(num.d) == len(d) and lead in num.d:
            r = num.d[lead] / s
            if all(m in num.d and abs(num.d[m] - r * c) <= 1e-11 * abs(r * c) for m, c in d.items()):
                # num = r * den exactly: choose 1/den such that the product collapses
                return _Collapse(r, num)
        lo, hi = rng(p)
        if lo > 0 or hi < 0:
            il, ih = 1 / hi, 1 / lo
        else:
            il, ih = -INF, INF
        return Sym({(_poly_atom("inv", None, [p], lambda: _new_atom("inv", p, il, ih, "inv", None)),): 1.0 / s})

    def __pow__(self, n):
        if isinstance(n, Sym):
            n = n.const()
        if n is None:
            raise Unsupported("symbolic exponent")
        n = float(n)
        if n == 0.5:
            return fn("sqrt", self)
        if n != int(n):
            raise Unsupported("non-integer power")
        n = int(n)
        if n < 0:
            return (1.0 / self) ** (-n)
        r = 1.0
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, b):
        return fn("exp", self * math.log(b))

    def __abs__(self):
        lo, hi = rng(self)
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return ite(self < 0, -self, self)

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return c

    def __int__(self):
        if self.const() is not None:
            return int(float(self))
        from . import symnp
        return int(symnp.realise_int(trunc_int(self)))

    def __floordiv__(self, o):
        return _floor(fdiv(self, o))

    def __rfloordiv__(self, o):
        return _floor(fdiv(o, self))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return id(self)

    # ---- comparisons
    def __lt__(self, o):
        return lt0(sub(self, o))

    def __gt__(self, o):
        return lt0(sub(o, self))

    def __le__(self, o):
        return lnot(lt0(sub(o, self)))

    def __ge__(self, o):
        return lnot(lt0(sub(self, o)))

    def __eq__(self, o):
        if o is None:
            return False
        p = sub(self, o)
        return lnot(lor(lt0(p), lt0(neg(p))))

    def __ne__(self, o):
        if o is None:
            return True
        return lnot(self.__eq__(o))

    # ---- numpy hooks (object ufuncs call these as methods)
    def exp(self): return fn("exp", self)
    def log(self): return fn("log", self)
    def sqrt(self): return fn("sqrt", self)
    def sin(self): return fn("sin", self)
    def cos(self): return fn("cos", self)
    def tan(self): return fn("sin", self) / fn("cos", self)
    def arcsin(self): return fn("asin", self)
    def arccos(self): return math.pi / 2 - fn("asin", self)
    def arctan(self): return fn("atan", self)
    def deg2rad(self): return self * (math.pi / 180)
    def radians(self): return self * (math.pi / 180)
    def rad2deg(self): return self * (180 / math.pi)
    def degrees(self): return self * (180 / math.pi)
    def conjugate(self): return self
    def copy(self): return self
    def item(self): return self
    def any(self): return self != 0
    ndim = 0
    shape = ()
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class _Collapse:
    """reciprocal whose product with one particular numerator is a constant"""
    def __init__(self, r, num):
        self.r, self.num = r, num

    def __rmul__(self, o):
        if o is self.num:
            return self.r
        raise Unsupported("internal: stray collapse")


def _acc(d, m, v):
    e = d.get(m)
    if e is None:
        if v:
            d[m] = v
    else:
        w = e + v
        if abs(w) <= REL_EPS * max(abs(e), abs(v)):
            del d[m]
        else:
            d[m] = w


def mk(d):
    if not d:
        return 0.0
    if len(d) == 1 and () in d:
        return d[()]
    return Sym(d)


def aname(i):
    a = ATOMS[abs(i)]
    s = a.name if a.kind == "var" else "%s#%d" % (a.name if a.kind == "fn" else a.kind, a.id)
    return s if i > 0 else "1/" + s


def lift(x):
    """to float / Sym, None when not a number"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (float, int)):
        return float(x)
    if isinstance(x, SymBool):
        return x.p
    if isinstance(x, Cases):
        return x.flat()
    if isinstance(x, Fraction):
        return float(x)
    if getattr(x, "shape", None) == () and hasattr(x, "dtype"):
        if x.dtype == object:
            return lift(x.item() if not isinstance(x, Sym) else x)
        return float(x)
    return None


def sub(a, b):
    r = lift(a)
    s = lift(b)
    if r is None or s is None:
        raise Unsupported("comparison of %r and %r" % (type(a), type(b)))
    return r - s


def neg(a):
    return -a


def rng(x):
    """interval enclosure"""
    if not isinstance(x, Sym):
        return (x, x)
    if x._rng is not None:
        return x._rng
    if len(x.d) > 1:
        # factor atoms common to every monomial: D - D*t = D*(1 - t)
        common = None
        for m in x.d:
            s = set(m)
            common = s if common is None else common & s
            if not common:
                break
        if common:
            q = {}
            for m, c in x.d.items():
                r = list(m)
                for i in common:
                    r.remove(i)
                q[tuple(r)] = q.get(tuple(r), 0.0) + c
            l, h = rng(mk(q))
            for i in common:
                a = ATOMS[abs(i)]
                if i > 0:
                    al, ah = a.lo, a.hi
                elif a.lo > 0 or a.hi < 0:
                    al, ah = 1 / a.hi, 1 / a.lo
                else:
                    al, ah = -INF, INF
                ps = [_m(l, al), _m(l, ah), _m(h, al), _m(h, ah)]
                l, h = min(ps), max(ps)
            x._rng = (l, h)
            return x._rng
    lo = hi = 0.0
    for m, c in x.d.items():
        l = h = c
        for i in m:
            if i > 0:
                a = ATOMS[i]
                al, ah = a.lo, a.hi
            else:
                a = ATOMS[-i]
                if a.lo > 0 or a.hi < 0:
                    al, ah = 1 / a.hi if a.hi not in (INF, -INF) else 0.0, 1 / a.lo if a.lo not in (INF, -INF) else 0.0
                else:
                    al, ah = -INF, INF
            ps = [_m(l, al), _m(l, ah), _m(h, al), _m(h, ah)]
            l, h = min(ps), max(ps)
        lo += l
        hi += h
    # a square of the same atom is non-negative
    x._rng = (lo, hi)
    return x._rng


def _m(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


# ---------------------------------------------------------------- booleans
class SymBool:
    """a 0/1-valued polynomial"""
    __slots__ = ("p",)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    def __bool__(self):
        ex = CTX.explorer
        if ex is None:
            raise Unsupported("control flow depends on a symbolic condition")
        return ex.decide(self)

    def __and__(self, o): return land(self, o)
    __rand__ = __and__
    def __or__(self, o): return lor(self, o)
    __ror__ = __or__
    def __xor__(self, o):
        a, b = tobool(self), tobool(o)
        return land(lor(a, b), lnot(land(a, b)))
    __rxor__ = __xor__
    def __invert__(self): return lnot(self)
    def logical_not(self): return lnot(self)
    def __add__(self, o): return self.p + o
    __radd__ = __add__
    def __sub__(self, o): return self.p - o
    def __rsub__(self, o): return o - self.p
    def __mul__(self, o): return self.p * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self.p / o
    def __neg__(self): return -self.p
    def __lt__(self, o): return self.p < lift(o)
    def __gt__(self, o): return self.p > lift(o)
    def __le__(self, o): return self.p <= lift(o)
    def __ge__(self, o): return self.p >= lift(o)

    def __eq__(self, o):
        if o is None:
            return False
        if o is True or o == 1 and not isinstance(o, (Sym, SymBool)):
            return self
        if o is False or o == 0 and not isinstance(o, (Sym, SymBool)):
            return lnot(self)
        return lnot(self ^ tobool(o))

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __hash__(self):
        return id(self)

    def __float__(self):
        return float(self.p)

    def __repr__(self):
        return "B" + repr(self.p)
    ndim = 0
    shape = ()
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)

    def __deepcopy__(self, memo):
        return self


def mkb(p):
    if isinstance(p, Sym):
        return SymBool(p)
    return p > 0.5


def tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    if isinstance(x, Cases):
        return x.flat() != 0
    return bool(x)


def lnot(x):
    x = tobool(x)
    if isinstance(x, SymBool):
        return mkb(1.0 - x.p)
    return not x


def land(a, b):
    a, b = tobool(a), tobool(b)
    if not isinstance(a, SymBool):
        return b if a else False
    if not isinstance(b, SymBool):
        return a if b else False
    return mkb(a.p * b.p)


def lor(a, b):
    a, b = tobool(a), tobool(b)
    if not isinstance(a, SymBool):
        return True if a else b
    if not isinstance(b, SymBool):
        return True if b else a
    return mkb(a.p + b.p - a.p * b.p)


def lt0(p):
    """[p < 0] for a float or Sym"""
    if not isinstance(p, Sym):
        return bool(p < 0)
    lo, hi = rng(p)
    if hi < 0:
        return True
    if lo >= 0:
        return False
    d = p.d
    # divide out factors of known sign that are common to every monomial
    common = None
    for m in d:
        t = {i for i in m if ATOMS[abs(i)].kind != "ind"}
        common = t if common is None else common & t
        if not common:
            break
    if common:
        sgn = 1.0
        drop = []
        for i in common:
            a = ATOMS[abs(i)]
            if a.lo > 0:
                drop.append(i)
            elif a.hi < 0:
                drop.append(i)
                sgn = -sgn
        if drop:
            q = {}
            for m, c in d.items():
                r = list(m)
                for i in drop:
                    r.remove(i)
                q[tuple(r)] = c * sgn
            return lt0(mk(q))
    # c0 + c1*f(x) < 0 for a strictly increasing f: compare x with the preimage
    if len(d) == 2 and () in d or len(d) == 1:
        (m1, c1), = [(m, c) for m, c in d.items() if m]
        if len(m1) == 1 and m1[0] > 0 and ATOMS[m1[0]].kind == "fn" and ATOMS[m1[0]].data[0] in _INVERSE and not callable(ATOMS[m1[0]].data[1]):
            f, (x,) = ATOMS[m1[0]].data
            t = -d.get((), 0.0) / c1          # f(x) < t (c1 > 0) or f(x) > t
            v = _INVERSE[f](t)
            if v is not None:
                return lt0(x - v) if c1 > 0 else lt0(v - x)
    # common positive factors do not matter; normalise by the leading coefficient
    lead = min(m for m in d if m)
    s = abs(d[lead])
    q = Sym({m: c / s for m, c in d.items()})
    q._rng = (lo / s, hi / s)
    # pure indicator polynomials with one indicator: decide directly
    if len(d) <= 2 and len(lead) == 1 and lead[0] > 0 and ATOMS[lead[0]].kind == "ind" and all(m in ((), lead) for m in d):
        c0 = d.get((), 0.0)
        c1 = d[lead]
        at0, at1 = c0 < 0, c0 + c1 < 0
        if at0 and at1:
            return True
        if not at0 and not at1:
            return False
        return SymBool(Sym({lead: 1.0})) if at1 else SymBool(Sym({(): 1.0, lead: -1.0}))
    i = _poly_atom("ind", None, [q], lambda: _new_atom("ind", q, 0.0, 1.0, "ind", None))
    ex = CTX.explorer
    if ex is not None:
        v = ex.known.get(i)
        if v is not None:
            return v
        if ex.eager:
            return ex.decide(SymBool(Sym({(i,): 1.0})))
    return SymBool(Sym({(i,): 1.0}))


_INVERSE = {"asin": lambda t: math.sin(t) if -math.pi / 2 < t < math.pi / 2 else (1.0 if 0 < t < math.pi / 2 + 1e-9 else (-1.0 if -math.pi / 2 - 1e-9 < t < 0 else None)),
            "exp": lambda t: math.log(t) if t > 0 else None,
            "log": lambda t: math.exp(t) if t < 700 else None,
            "atan": lambda t: math.tan(t) if -math.pi / 2 < t < math.pi / 2 else None}


def ite(c, a, b):
    """if-then-else of numbers"""
    c = tobool(c)
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, Cases) or isinstance(b, Cases):
        if isinstance(a, Cases): a = a.flat()
        if isinstance(b, Cases): b = b.flat()
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return lor(land(c, a), land(lnot(c), b))
    a, b = lift(a), lift(b)
    if a is None or b is None:
        raise Unsupported("if-then-else of non-numbers")
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if a == b or (a != a and b != b):
            return a
        if a != a or b != b or abs(a) == INF or abs(b) == INF:
            return _opaque_ite(c, a, b)
        return b + c.p * (a - b)
    if (not isinstance(a, Sym) and (a != a or abs(a) == INF)) or (not isinstance(b, Sym) and (b != b or abs(b) == INF)):
        return _opaque_ite(c, a, b)
    diff = a - b
    if not isinstance(diff, Sym) and diff == 0:
        return a
    n = (len(diff.d) if isinstance(diff, Sym) else 1) * len(c.p.d)
    if n > MERGE_LIMIT:
        return _opaque_ite(c, a, b)
    r = b + c.p * diff
    if isinstance(r, Sym):
        # the value is one of the two branches
        l1, h1 = rng(a)
        l2, h2 = rng(b)
        lo, hi = rng(r)
        r._rng = (max(lo, min(l1, l2)), min(hi, max(h1, h2)))
    return r


def _opaque_ite(c, a, b):
    for x in (a, b):
        if not isinstance(x, Sym) and (x != x or abs(x) == INF):
            raise Unsupported("non-finite value under a symbolic condition")
    l1, h1 = rng(a)
    l2, h2 = rng(b)
    return Sym({(_poly_atom("ite", None, [c.p, a, b],
                            lambda: _new_atom("ite", (c, a, b), min(l1, l2), max(h1, h2), "ite", None)),): 1.0})


_FN = {"exp": math.exp, "sin": math.sin, "cos": math.cos, "sqrt": math.sqrt, "asin": math.asin,
       "log": math.log, "atan": math.atan}
_MONO = {"exp", "sqrt", "asin", "log", "atan"}


def fn(name, *args):
    """function atom; monotone functions get interval bounds"""
    a = [lift(x) for x in args]
    if all(not isinstance(x, Sym) for x in a):
        return float(_FN[name](*a))
    lo, hi = -INF, INF
    if name in _MONO and len(a) == 1:
        l, h = rng(a[0])
        if name == "asin":
            l, h = max(l, -1.0), min(h, 1.0)
        if name in ("sqrt", "log"):
            l, h = max(l, 0.0), max(h, 0.0)
        try:
            lo = _FN[name](l) if l != -INF else -INF
        except (ValueError, OverflowError):
            lo = -INF
        try:
            hi = _FN[name](h) if h != INF else INF
        except (ValueError, OverflowError):
            hi = INF
        if name == "sqrt":
            lo = max(lo, 0.0)
    elif name in ("sin", "cos"):
        lo, hi = -1.0, 1.0
    return Sym({(_poly_atom("fn", name, a, lambda: _new_atom("fn", (name, a), lo, hi, name, None)),): 1.0})


def stub(name, index, args, lo, hi, evaluator):
    """value number `index` of an environment stub applied to the flat list `args`:
    equal arguments give equal values.  evaluator(env, memo) -> float reproduces it concretely."""
    return Sym({(_poly_atom("stub", (name, index), [lift(x) for x in args],
                            lambda: _new_atom("fn", (name, evaluator), lo, hi, "%s[%s]" % (name, index), None)),): 1.0})


def valkey(x):
    if isinstance(x, Sym):
        return _keyof(x.d)
    if isinstance(x, SymBool):
        return _keyof(x.p.d)
    if isinstance(x, float):
        return _round(x)
    return x


# ---------------------------------------------------------------- guarded cases
class Cases:
    """a value given by mutually exclusive, exhaustive guards (used for symbolic integers and
    for array elements read at a symbolic index); guards is shared by identity"""
    __slots__ = ("guards", "vals")

    def __init__(self, guards, vals):
        self.guards, self.vals = guards, vals

    def flat(self):
        r = 0.0
        for g, v in zip(self.guards, self.vals):
            v = lift(v)
            gp = g.p if isinstance(g, SymBool) else (1.0 if g else 0.0)
            r = r + gp * v
        return r

    def _bin(self, o, f):
        if isinstance(o, Cases):
            if o.guards is self.guards:
                return Cases(self.guards, [f(a, b) for a, b in zip(self.vals, o.vals)])
            if all(isinstance(v, int) for v in self.vals) and all(isinstance(v, int) for v in o.vals):
                gs, vs = [], []
                for g, a in zip(self.guards, self.vals):
                    for h, b in zip(o.guards, o.vals):
                        k = land(g, h)
                        if k is not False:
                            gs.append(k); vs.append(f(a, b))
                return group(gs, vs)
            return f(self.flat(), o.flat())
        if isinstance(o, SymBool):
            o = o.p
        return Cases(self.guards, [f(a, o) for a in self.vals])

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return Cases(self.guards, [-a for a in self.vals])

    def _cmp(self, o, f):
        if isinstance(o, Cases) and o.guards is self.guards:
            rs = [f(a, b) for a, b in zip(self.vals, o.vals)]
        elif isinstance(o, Cases):
            return f(self.flat(), o.flat())
        else:
            rs = [f(a, o) for a in self.vals]
        r = False
        for g, x in zip(self.guards, rs):
            r = lor(r, land(g, x))
        if all(x is True for x in rs):
            return True
        return r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return lnot(self == o)
    def __hash__(self): return id(self)
    def map(self, f):
        return Cases(self.guards, [f(v) for v in self.vals])


def group(gs, vs):
    """merge cases with equal integer values"""
    m = {}
    for g, v in zip(gs, vs):
        m[v] = g if v not in m else lor(m[v], g)
    ks = sorted(m)
    if len(ks) == 1:
        return ks[0]
    return Cases([m[k] for k in ks], ks)


def _floor(q):
    n = int(q)
    return float(n - 1 if bool(q < n) else n)


def trunc_int(x, limit=4096):
    """int(x) (truncation toward zero) of a symbolic real as guarded cases"""
    if isinstance(x, Cases):
        return group(x.guards, [int(v) for v in x.vals]) if all(not isinstance(v, Sym) for v in x.vals) else trunc_int(x.flat())
    lo, hi = rng(x)
    ex = CTX.explorer
    if not (lo > -INF and hi < INF) and ex is not None and ex.eager:
        if bool(x > -1.0):
            for n in range(64):
                if bool(x < float(n + 1)):
                    return n
        raise Unsupported("int() of an unbounded symbolic value")
    if not (lo > -INF and hi < INF):
        raise Unsupported("int() of an unbounded symbolic value")
    eps = 1e-9
    l, h = int(lo - eps if lo < 0 else lo), int(hi + eps if hi > 0 else hi)
    l = math.floor(lo + eps) if lo >= 0 else -math.floor(-lo)
    h = math.floor(hi + eps) if hi >= 0 else -math.floor(-hi)
    if h - l > limit:
        raise Unsupported("int() of a symbolic value with a wide range")
    if l == h:
        return l
    gs, vs = [], []
    for n in range(l, h + 1):
        # trunc(x) = n
        if n > 0:
            g = land(True if n == l else x >= float(n), True if n == h else x < float(n + 1))
        elif n < 0:
            g = land(True if n == l else x > float(n - 1), True if n == h else x <= float(n))
        else:
            g = land(True if n == l else x > -1.0, True if n == h else x < 1.0)
        if g is not False:
            gs.append(g); vs.append(n)
    if len(vs) == 1:
        return vs[0]
    return Cases(gs, vs)


# ---------------------------------------------------------------- evaluation
def evaluate(x, env, memo=None):
    """value of a float/Sym/SymBool under env: atom id -> float for variables"""
    if memo is None:
        memo = {}
    if isinstance(x, bool):
        return x
    if isinstance(x, SymBool):
        return evaluate(x.p, env, memo) > 0.5
    if isinstance(x, Cases):
        return evaluate(x.flat(), env, memo)
    if not isinstance(x, Sym):
        return float(x)
    t = 0.0
    for m, c in x.d.items():
        v = c
        for i in m:
            a = _ev_atom(abs(i), env, memo)
            v = v * a if i > 0 else v / a
        t += v
    return t


def _ev_atom(i, env, memo):
    v = memo.get(i)
    if v is not None:
        return v
    a = ATOMS[i]
    if a.kind == "var":
        v = env[i]
    elif a.kind == "ind":
        v = 1.0 if evaluate(a.data, env, memo) < 0 else 0.0
    elif a.kind == "ite":
        c, p, q = a.data
        v = evaluate(p, env, memo) if evaluate(c, env, memo) else evaluate(q, env, memo)
    elif a.kind == "inv":
        den = evaluate(a.data, env, memo)
        v = 1.0 / den if den else INF
    else:
        f, args = a.data
        if callable(args):
            v = args(env, memo)
        else:
            xs = [evaluate(t, env, memo) for t in args]
            try:
                v = _FN[f](*xs)
            except ValueError:
                v = math.nan
    memo[i] = v
    return v


def fdiv(a, b):
    """division with IEEE behaviour for concrete zero denominators"""
    if not isinstance(b, (Sym, Cases)):
        if b == 0 and not isinstance(a, (Sym, Cases)):
            if a == 0 or a != a:
                return math.nan
            return math.copysign(INF, a) * math.copysign(1.0, b)
    if isinstance(b, Cases):
        b = b.flat()
    if isinstance(a, Cases):
        return a.map(lambda v: fdiv(v, b))
    return a / b


def smax(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return max(a, b)
    return ite(a < b, b, a)


def smin(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return min(a, b)
    return ite(b < a, b, a)
