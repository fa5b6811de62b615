"""preprocessing.gridfill_each_level on a symbolic field in which every cell may be missing (one solver Boolean per cell, all
patterns explored); the third-party relaxation solver, which is not installed, by its contract: arbitrary values at the masked cells
of what it is given, the others kept.  What is handed to it and what is returned is compared with the documented behaviour."""
import importlib.util
import os
import sys
import types
import numpy as np

BOUNDS = "fields of up to 3x2 and 2x3 points, every pattern of missing cells including none and all; all values, the values the solver fills in, and the iteration limit arbitrary"
OUTSIDE = "larger fields; the third-party relaxation itself; infinite values"


def configs(tier):
    g = [(2, 2), (3, 2), (1, 4)] + ([(2, 3), (4, 2)] if tier == "thorough" else [(2, 3)])
    r = []
    for J, I in g:
        for kw in ((), ("itermax",), ("verbose",), ("itermax", "verbose")):
            r.append(dict(name="fill_%dx%d_%s" % (J, I, "_".join(kw) or "defaults"), J=J, I=I, kw=kw, eager=True))
    return r


class Stub(types.ModuleType):
    """contract of gridfill.fill(grids, xdim, ydim, eps, relax, itermax, initzonal, cyclic, verbose)"""
    def __init__(self, values):
        super().__init__("gridfill")
        self.calls, self.values = [], values

    def fill(self, grids, xdim, ydim, eps, relax=.6, itermax=100, initzonal=False, cyclic=False, verbose=False):
        if not isinstance(grids, np.ma.MaskedArray):
            raise TypeError("input must be a masked array")
        m = np.ma.getmaskarray(grids).astype(bool)
        d = np.array(np.ma.getdata(grids))
        self.calls.append(dict(xdim=xdim % d.ndim, ydim=ydim % d.ndim, eps=eps, itermax=itermax, cyclic=cyclic, verbose=verbose, mask=m, data=np.array(d)))
        d[m] = self.values(d.shape)[m]
        return (self.wrap(d) if self.wrap else d), np.array([True])
    wrap = None


class Ma:
    """numpy.ma on arrays of symbols"""
    def __getattr__(self, n):
        f = getattr(np.ma, n)
        if n == "masked_invalid":
            return lambda a, copy=True: np.ma.MaskedArray(_plain(a), mask=_missing(a))
        if isinstance(f, type) or not callable(f):
            return (lambda *a, **k: f(*[_plain(x) for x in a], **k)) if n == "MaskedArray" else f
        return lambda *a, **k: f(*[_plain(x) for x in a], **{k_: _plain(v) for k_, v in k.items()})


def _plain(a):
    return np.asarray(a).view(np.ndarray) if isinstance(a, np.ndarray) and not isinstance(a, np.ma.MaskedArray) else a


def _missing(a):
    a = np.asarray(a).view(np.ndarray)
    r = np.zeros(a.shape, dtype=bool)
    for ix in np.ndindex(*a.shape):
        r[ix] = isinstance(a[ix], float) and a[ix] != a[ix]
    return r


def load(h, stub):
    from fv import load as L, symnp
    path = os.path.join(L.SRC, "preprocessing.py")
    saved = sys.modules.get("gridfill")
    sys.modules["gridfill"] = stub
    wb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        spec = importlib.util.spec_from_file_location("falwa.preprocessing", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        sys.dont_write_bytecode = wb
        del sys.modules["gridfill"]
        if saved is not None:
            sys.modules["gridfill"] = saved
    m.print = lambda *a, **k: None
    if h.sym:
        p = symnp.make_proxy()
        p.__dict__["ma"] = Ma()
        inner = p.isnan
        p.__dict__["isnan"] = lambda a, *r, **k: _missing(a) if isinstance(a, np.ndarray) and a.dtype == object else inner(a, *r, **k)
        p.__dict__["isfinite"] = lambda a, *r, **k: ~_missing(a) if isinstance(a, np.ndarray) and a.dtype == object else np.isfinite(a, *r, **k)
        for n, v in list(m.__dict__.items()):
            if v is np:
                m.__dict__[n] = p
            elif v is np.ma:
                m.__dict__[n] = p.ma
    return m


def run(h, c):
    J, I = c["J"], c["I"]
    q = np.array(h.arr("q", (J, I), -2, 2), dtype=object)
    fill = h.arr("filled", (J, I), -2, 2)
    miss = np.zeros((J, I), dtype=bool)
    for ix in np.ndindex(J, I):
        miss[ix] = bool(h.num("missing[%d,%d]" % ix, -1, 1) > 0)
        if miss[ix]:
            q[ix] = float("nan")
    q = h.mk(q)
    stub = Stub(lambda shape: np.asarray(fill).view(np.ndarray))
    if h.sym:
        stub.wrap = lambda d: h.mk(d)
    m = load(h, stub)
    kw = {}
    if "itermax" in c["kw"]:
        kw["itermax"] = 37
    if "verbose" in c["kw"]:
        kw["verbose"] = True
    keep = np.array(q)
    r = h.returns("filled", m.gridfill_each_level, q, **kw)
    r = np.asarray(r)
    h.true("shape", r.shape == (J, I))
    for ix in np.ndindex(J, I):
        h.eq("%s[%d,%d]" % (("missing value" if miss[ix] else "valid value",) + ix), r[ix], fill[ix] if miss[ix] else keep[ix])
        h.true("input unchanged [%d,%d]" % ix, q[ix] != q[ix] if miss[ix] else True)
        if not miss[ix]:
            h.eq("input value unchanged [%d,%d]" % ix, q[ix], keep[ix])
    h.true("solver used only where values are missing", (len(stub.calls) > 0) == bool(miss.any()))
    for k in stub.calls:
        h.true("mask handed over", bool(np.array_equal(k["mask"], miss)))
        for ix in np.ndindex(J, I):
            if not miss[ix]:
                h.eq("value handed over [%d,%d]" % ix, k["data"][ix], keep[ix])
        h.true("longitude is the cyclic dimension", k["xdim"] == 1 and k["ydim"] == 0 and k["cyclic"] is True)
        h.true("iteration limit", k["itermax"] == kw.get("itermax", 1000))
        h.true("tolerance", 0 < k["eps"] <= 0.01)
        h.true("verbosity", bool(k["verbose"]) == ("verbose" in kw))
