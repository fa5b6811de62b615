"""The plotting helpers of plot_utils executed on symbolic fields with matplotlib and cartopy replaced by recording stand-ins: what is
handed over for drawing (panel by panel: field, coordinates, contour levels, colour map, titles, file) against the documented content."""
import contextlib
import importlib.util
import os
import sys
import types
import numpy as np
import xarray as xr
from fv.sym import ite

BOUNDS = "two fields of up to 2x3 (thorough 3x3) points with symbolic extremes at designated cells and 1 (thorough 2) more symbolic cells (others generic between the extremes), single fields with all values symbolic; difference factor symbolic in [0.01,2], default or None; file name given, default or None; every optional argument given or omitted"
OUTSIDE = "what matplotlib and cartopy draw from it; larger fields"

NAMES = ["matplotlib", "matplotlib.gridspec", "matplotlib.pyplot", "cartopy", "cartopy.crs", "cartopy.mpl", "cartopy.mpl.ticker", "cartopy.mpl.gridliner", "cartopy.feature"]


def configs(tier):
    # rows, columns, flat indices (first field, then second) of the minimum and the maximum, further free cells
    g = [(2, 2, 1, 6, (4,)), (2, 3, 7, 2, (1,)), (1, 4, 0, 3, (5,)), (2, 2, 5, 7, (2,))]
    if tier == "thorough":
        g += [(3, 3, 17, 9, (0, 10)), (2, 2, 2, 1, (0, 3)), (2, 3, 4, 10, (0, 6))]
    r = []
    for J, I, lo, hi, fr in g:
        for f in ("compare_two_fields", "compare_two_fields_on_map"):
            for diff in ("default", "given", "none"):
                for save in ("default", "given", "none"):
                    if save != "default" and (J, I) != (2, 2):
                        continue
                    r.append(dict(name="%s_%dx%d_%d%d_diff_%s_file_%s" % (f, J, I, lo, hi, diff, save), f=f, J=J, I=I, diff=diff, save=save, lo=lo, hi=hi, free=fr, eager=True))
    for f in ("LatLonMapPlotter", "HeightLatPlotter"):
        for opt in ("defaults", "given"):
            for save in ("default", "given", "none") if f == "LatLonMapPlotter" else ("given",):
                r.append(dict(name="%s_%s_file_%s" % (f, opt, save), f=f, J=2, I=3, opt=opt, save=save))
    for t in (None, 0, 2):
        r.append(dict(name="plot_lon_lat_field_%s" % t, f="plot_lon_lat_field", J=2, I=3, t=t))
    return r


class Log:
    def __init__(self):
        self.calls, self.axes, self.cur = [], {}, None


class Rec:
    """records the calls made on it"""
    def __init__(self, log, path, pos=None):
        self.__dict__.update(log=log, path=path, pos=pos)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Rec(self.log, self.path + (n,), self.pos)

    def __setattr__(self, n, v):
        pass

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = k[-1]
        return Rec(self.log, self.path, k + 1 if isinstance(k, int) else 1)

    def axis(self, pos):
        a = self.log.axes.setdefault(pos, Rec(self.log, ("axes",), pos))
        self.log.cur = pos
        return a

    def __call__(self, *a, **k):
        n = self.path[-1]
        pos = self.pos
        if n in ("add_subplot", "subplot"):
            if not a:
                return self.axis(1)
            if isinstance(a[0], Rec):
                return self.axis(a[0].pos)
            return self.axis(a[2] if len(a) >= 3 else a[0] % 10)
        if n == "subplots":
            s = ([x for x in a if isinstance(x, int)] + [k.get("ncols")] if "ncols" in k and len(a) < 2 else list(a)) or [k.get("nrows", 1), k.get("ncols", 1)]
            m = 1
            for x in s[:2]:
                m *= int(x or 1)
            ax = [self.axis(i + 1) for i in range(m)]
            arr = np.empty(m, dtype=object)
            arr[:] = ax
            ret = arr if m > 1 else ax[0]
            return (Rec(self.log, ("figure",)), ret) if self.path == ("pyplot", "subplots") else ret
        if n in ("gca", "axes"):
            return self.axis(self.log.cur or 1)
        if pos is None and self.path[:1] == ("pyplot",) and n in ("contourf", "title", "scatter", "pcolormesh", "axhline", "axvline", "xlim", "ylim", "xlabel", "ylabel", "xticks", "yticks"):
            pos = self.axis(self.log.cur or 1).pos
        if n == "set":
            for q, v in k.items():
                self.log.calls.append(("set_" + q, pos, (v,), {}))
        self.log.calls.append((n, pos, a, k))
        return Rec(self.log, self.path + ("result",))

    def __iter__(self):
        raise TypeError("not iterable")


@contextlib.contextmanager
def plotting(h, log, ds=None):
    from fv import load as L, symnp
    mods = {n: types.ModuleType(n) for n in NAMES}
    pyp = Rec(log, ("pyplot",))
    def pyplot_attr(n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(pyp, n)
    mods["matplotlib.pyplot"].__getattr__ = pyplot_attr
    for n in NAMES[1:2] + NAMES[3:]:
        mods[n].__getattr__ = (lambda q: lambda a: _no(a) if a.startswith("__") else Rec(log, (q, a)))(n)
    for n in NAMES:
        if "." in n:
            setattr(mods[n.rsplit(".", 1)[0]], n.rsplit(".", 1)[1], mods[n])
        mods[n].__path__ = []
    saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in ("matplotlib", "cartopy")}
    for k in saved:
        del sys.modules[k]
    sys.modules.update(mods)
    wb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    od, ld = xr.open_dataset, xr.load_dataset
    try:
        if ds is not None:
            xr.open_dataset = xr.load_dataset = lambda f, *a, **k: ds[f]
        spec = importlib.util.spec_from_file_location("falwa.plot_utils", os.path.join(L.SRC, "plot_utils.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m.print = lambda *a, **k: None
        if h.sym:
            p = symnp.make_proxy()
            for n, v in list(m.__dict__.items()):
                if v is np:
                    m.__dict__[n] = p
        yield m
    finally:
        xr.open_dataset, xr.load_dataset = od, ld
        sys.dont_write_bytecode = wb
        for k in [k for k in sys.modules if k.split(".")[0] in ("matplotlib", "cartopy")]:
            del sys.modules[k]
        sys.modules.update(saved)


def _no(a):
    raise AttributeError(a)


def calls(log, *names):
    return [c for c in log.calls if c[0] in names]


def grids(h, x, y, cx, cy, label):
    """coordinates as vectors or as a mesh"""
    x, y = np.asarray(x), np.asarray(y)
    mx, my = np.meshgrid(cx, cy)
    h.eq(label + " x", x, mx if x.ndim == 2 else cx)
    h.eq(label + " y", y, my if y.ndim == 2 else cy)


def pair(h, c):
    """two fields between their joint minimum and maximum (both symbolic, at given cells); some other cells symbolic"""
    J, I = c["J"], c["I"]
    m, D = h.num("min", -2, 2), h.num("range", 0.5, 3)
    g = h.generic("t", (2 * J * I,), 0.05, 0.95)
    v = np.empty(2 * J * I, dtype=object)
    for k in range(2 * J * I):
        v[k] = m if k == c["lo"] else m + D if k == c["hi"] else m + D * (h.num("t%d" % k, 0, 1) if k in c["free"] else g[k])
    v = v.reshape(2, J, I)
    return h.mk(v[0]), h.mk(v[1]), m, m + D


def absolute(x):
    return ite(x < 0, -x, x)


def contour(h, log, pos, label, cx, cy, field, levels, cmap):
    c = [q for q in calls(log, "contourf") if q[1] == pos]
    h.true(label + " drawn once", len(c) == 1)
    if len(c) != 1:
        return
    a, k = list(c[0][2]), dict(c[0][3])
    h.true(label + " arguments", len(a) >= 3)
    if len(a) < 3:
        return
    grids(h, a[0], a[1], cx, cy, label)
    h.eq(label + " field", np.asarray(a[2]), field)
    got = a[3] if len(a) > 3 else k.get("levels")
    if levels is None:
        h.true(label + " automatic levels", got is None)
    elif isinstance(levels, int):
        h.true(label + " number of levels", isinstance(got, (int, np.integer)) and got == levels)
    else:
        h.true(label + " levels given", got is not None and np.ndim(got) == 1)
        if got is not None and np.ndim(got) == 1:
            h.eq(label + " levels", np.asarray(got), levels)
    h.true(label + " colour map", k.get("cmap") == cmap)


def title(h, log, pos, want, label):
    t = [c[2][0] if c[2] else c[3].get("label") for c in calls(log, "set_title", "title") if c[1] == pos]
    h.true(label, t == [want])


def saved(h, log, want):
    h.true("file", [c[2][0] if c[2] else c[3].get("fname") for c in calls(log, "savefig")] == ([want] if want else []))


def run(h, c):
    J, I, f = c["J"], c["I"], c["f"]
    log = Log()
    lon, lat = np.linspace(0, 300, I), np.linspace(-60, 70, J)
    if "lo" in c:
        A, B, lo, hi = pair(h, c)
    else:
        A = h.arr("a", (J, I), -2, 2)
    keep = np.array(A)
    if f == "plot_lon_lat_field":
        T = 4
        V = h.arr("v", (T, J, I), -2, 2)
        if c["t"] is None:
            T = 12
            V = h.mk(np.concatenate([np.asarray(V, dtype=object)] * 3))
        ds = {"some.nc": xr.Dataset({"other": (("time", "latitude", "longitude"), np.asarray(V) * 0 + 1.0), "wind": (("time", "latitude", "longitude"), np.asarray(V))},
                                    coords=dict(time=np.arange(T), latitude=lat, longitude=lon))}
        with plotting(h, log, ds) as P:
            P.plot_lon_lat_field("some.nc", "wind", **({} if c["t"] is None else {"tstep": c["t"]}))
        q = calls(log, "contourf")
        h.true("drawn once", len(q) == 1)
        if len(q) == 1:
            a = q[0][2]
            grids(h, a[0], a[1], lon, lat, "map")
            h.eq("time step", h.mk(np.asarray(getattr(a[2], "values", a[2]), dtype=object)), np.asarray(V)[10 if c["t"] is None else c["t"]])
        return
    if f in ("LatLonMapPlotter", "HeightLatPlotter"):
        given = c["opt"] == "given"
        kw = dict(exclude_equator=False, x_axis_title="abscissa", y_axis_title="ordinate") if given else {}
        pk = dict(num_level=17) if given else {}
        path = {"default": "figure.png", "given": "there.png", "none": None}[c["save"]]
        with plotting(h, log) as P:
            if f == "LatLonMapPlotter":
                xl, yl = np.array([0, I - 1]), np.array([0, J - 1])
                lr, ar = np.array([0, 120, 240]), np.array([-30, 30])
                o = P.LatLonMapPlotter((6, 3), "heading", lon, lat, xl, yl, lr, ar, **kw)
                if c["save"] != "default":
                    pk["save_path"] = path
                o.plot_and_save_variable(A, "jet", "variable", **pk)
            else:
                o = P.HeightLatPlotter((6, 3), "heading", lon, lat, (-70, 50), **kw)
                o.plot_and_save_variable(A, "jet", "variable", path, **pk)
        contour(h, log, 1, "panel", lon, lat, A, 17 if given else 30, "jet")
        title(h, log, 1, "heading\nvariable", "title")
        want = ["abscissa", "ordinate"] if given else (["Longitude[deg]", "Latitude[deg]"] if f == "LatLonMapPlotter" else ["Latitude[deg]", "Pseudoheight[m]"])
        h.true("axis titles", [calls(log, n, m)[0][2][0] for n, m in (("set_xlabel", "xlabel"), ("set_ylabel", "ylabel"))] == want)
        if f == "LatLonMapPlotter":
            s = calls(log, "scatter")
            h.true("land points", len(s) == 1 and bool(np.array_equal(s[0][2][0], lon[xl])) and bool(np.array_equal(s[0][2][1], lat[yl])))
            h.true("ticks", bool(np.array_equal(calls(log, "set_xticks")[0][2][0], lr)) and bool(np.array_equal(calls(log, "set_yticks")[0][2][0], ar)))
            h.true("equator covered", [(q[2][0] if q[2] else q[3].get("y", 0)) for q in calls(log, "axhline")] == ([] if given else [0]))
        else:
            h.true("range of the abscissa", [tuple(q[2][0]) for q in calls(log, "set_xlim", "xlim")] == [(-70, 50)])
            h.true("equator covered", [(q[2][0] if q[2] else q[3].get("x", 0)) for q in calls(log, "axvline")] == ([] if given else [0]))
        saved(h, log, path)
        h.eq("field unchanged", A, keep)
        return
    kb = np.array(B)
    kw = {}
    df = 0.01
    if c["diff"] == "given":
        df = kw["diff_factor"] = h.num("diff_factor", 0.01, 2)
    elif c["diff"] == "none":
        df = kw["diff_factor"] = None
    cmap = "rainbow"
    if c["save"] == "given":
        kw["savefig_fname"] = "there.png"
        cmap = kw["cmap"] = "jet"
    elif c["save"] == "none":
        kw["savefig_fname"] = None
    with plotting(h, log) as P:
        r = h.returns("drawn", getattr(P, f), A, B, "first", "second", lon, lat, "both", **kw)
    lev = [lo + (hi - lo) * (k / 30) for k in range(31)]
    contour(h, log, 1, "first", lon, lat, A, lev, cmap)
    contour(h, log, 2, "second", lon, lat, B, lev, cmap)
    d = np.empty((J, I), dtype=object)
    for ix in np.ndindex(J, I):
        d[ix] = absolute(A[ix] - B[ix])
    top = hi if hi > -lo else -lo        # largest magnitude
    contour(h, log, 3, "difference", lon, lat, d, None if df is None else [df * top * (k / 30) for k in range(31)], cmap)
    title(h, log, 1, "first", "first title")
    title(h, log, 2, "second", "second title")
    t = [q[2][0] for q in calls(log, "suptitle")]
    h.true("main title", t == ["both"])
    saved(h, log, {"default": "default.png", "given": "there.png", "none": None}[c["save"]])
    h.eq("first field unchanged", A, keep)
    h.eq("second field unchanged", B, kb)
