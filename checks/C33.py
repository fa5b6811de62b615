"""The functions of scripts/pre_process_data_in_hybrid_coordinates executed on datasets of symbolic fields (and, for single columns,
symbolic surface pressure); the third-party relaxation solver, which is not installed, replaced by a function of the valid values it is
given.  Every interpolated, filled and labelled value is compared with linear interpolation in pressure of its own column."""
import importlib.util
import os
import sys
import types
import numpy as np
import xarray as xr
from checks import C28

BOUNDS = "1-2 times, 3-4 hybrid levels, up to 2x3 columns with different surface pressures (symbolic over 850-1050 hPa for a single column, thorough two), 2-4 pressure levels in either order inside and outside the range of the columns; all field values symbolic; topography requested or not"
OUTSIDE = "larger datasets; the relaxation itself; reading and writing of files; the main block of the script"
SCRIPT = os.path.join("pre_process_data_in_hybrid_coordinates", "vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py")


def configs(tier):
    r = []
    for T, K, J, I in [(1, 3, 2, 2), (2, 4, 1, 3), (2, 3, 2, 3)] + ([(3, 4, 2, 3)] if tier == "thorough" else []):
        for lev in ("down", "up", "inside"):
            for topo in (0, 1):
                r.append(dict(name="fields_%dx%dx%dx%d_%s_%s" % (T, K, J, I, lev, "topography" if topo else "plain"), T=T, K=K, J=J, I=I, lev=lev, topo=topo, ps=0))
    for K in (3, 4):
        r.append(dict(name="surface_pressure_%d" % K, T=1, K=K, J=1, I=1, lev="few", topo=1, ps=1, eager=True))
    if tier == "thorough":
        r.append(dict(name="surface_pressure_two_columns", T=1, K=3, J=1, I=2, lev="few", topo=1, ps=1, eager=True))
    return r


class Interp:
    """linear scipy.interpolate.interp1d on ascending, possibly symbolic abscissae"""
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        from fv import sym
        if kind not in ("linear", 1) or not (isinstance(fill_value, float) and fill_value != fill_value) or bounds_error is not False:
            raise sym.Unsupported("this use of interp1d")
        self.x, self.y = list(np.asarray(x).ravel()), list(np.asarray(y).ravel())
        if len(self.x) != len(self.y) or np.ndim(y) != 1:
            raise sym.Unsupported("shape of interp1d arguments")

    def __call__(self, xn):
        out = np.empty(len(xn), dtype=object)
        for n, t in enumerate(np.asarray(xn)):
            out[n] = column(self.x, self.y, float(t))
        return out


def column(x, y, t):
    """linear interpolation of y at t on ascending abscissae x, NaN outside"""
    if t < x[0] or t > x[-1]:
        return float("nan")
    for k in range(1, len(x)):
        if t <= x[k] or k == len(x) - 1:
            w = (t - x[k - 1]) / (x[k] - x[k - 1])
            return y[k - 1] * (1.0 - w) + y[k] * w


def filled(d, m):
    """what the stand-in of the relaxation puts in the masked cells: a function of position and of the valid values"""
    v = [d[ix] for ix in np.ndindex(*d.shape) if not m[ix]]
    s = 0.0
    for n, x in enumerate(v):
        s = s + x * (1.0 / (n + 2))
    r = np.empty(d.shape, dtype=object)
    for n, ix in enumerate(np.ndindex(*d.shape)):
        r[ix] = s + (0.25 + n)
    return r


class Stub(C28.Stub):
    def __init__(self):
        super().__init__(None)

    def fill(self, grids, xdim, ydim, eps, relax=.6, itermax=100, initzonal=False, cyclic=False, verbose=False):
        m = np.ma.getmaskarray(grids).astype(bool)
        self.values = lambda shape: filled(np.ma.getdata(grids), m)
        r = super().fill(grids, xdim, ydim, eps, relax, itermax, initzonal, cyclic, verbose)
        return r


def load(h, stub):
    from fv import load as L, symnp, stubs
    pre = C28.load(h, stub)
    wb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    log = types.ModuleType("logruns")
    mods = {"falwa.preprocessing": pre, "logruns": log}
    for n in ("matplotlib", "matplotlib.pyplot"):
        if importlib.util.find_spec("matplotlib") is None:
            mods[n] = types.ModuleType(n)
    saved = {n: sys.modules.get(n) for n in mods}
    path = list(sys.path)
    try:
        sys.modules.update(mods)
        spec = importlib.util.spec_from_file_location("hybrid_to_pressure", os.path.join(L.SRC, "..", "..", "scripts", SCRIPT))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        sys.path[:] = path
        sys.dont_write_bytecode = wb
        for n, v in saved.items():
            sys.modules.pop(n, None)
            if v is not None:
                sys.modules[n] = v
    m.print = lambda *a, **k: None
    if h.sym:
        import scipy.interpolate
        for n, v in list(m.__dict__.items()):
            if v is np:
                m.__dict__[n] = pre.np
            elif v is scipy.interpolate.interp1d:
                m.__dict__[n] = Interp
    return m


def run(h, c):
    T, K, J, I = c["T"], c["K"], c["J"], c["I"]
    ai = np.linspace(0.004, 0.0, K + 1) + 0.25 * np.sin(np.linspace(0, np.pi, K + 1))
    bi = np.linspace(0.0, 1.0, K + 1) ** 2
    P0 = 100000.0
    if c["ps"]:
        ps = h.arr("ps", (T, J, I), 85000, 105000)
    else:
        ps = h.mk(101300.0 - 6000.0 * np.arange(T * J * I).reshape(T, J, I) % 23000.0 + 0.0)
    U = h.arr("U", (T, K, J, I), -2, 2)
    W = h.arr("V", (T, K, J, I), -2, 2)
    new = dict(down=[5.0, 300.0, 700.0, 960.0], up=[990.0, 520.0, 260.0], inside=[400.0, 600.0], few=[880.0, 500.0])[c["lev"]]
    new = np.array(new)
    o = lambda v: np.asarray(v, dtype=object) if h.sym else np.asarray(v, dtype=float)
    d4, d3 = ("time", "lev", "lat", "lon"), ("time", "lat", "lon")
    at = {"units": "m/s", "long_name": "wind"}
    ds = xr.Dataset({"U": (d4, o(U), dict(at)), "V": (d4, o(W), dict(at)), "PS": (d3, o(ps), {"units": "Pa"}), "P0": ((), P0), "hyai": ("ilev", ai), "hybi": ("ilev", bi),
                     "time_bnds": (("time", "nbnd"), np.zeros((T, 2)))},
                    coords=dict(time=("time", 6.0 * np.arange(T), {"units": "hours"}), lev=("lev", 1000.0 * (ai + bi)[1:]), ilev=("ilev", 1000.0 * (ai + bi)),
                                lat=("lat", np.linspace(-60, 60, J) if J > 1 else np.array([30.0]), {"units": "degrees_north"}), lon=("lon", 360.0 / I * np.arange(I), {"units": "degrees_east"})), attrs={"source": "somewhere"})
    stub = Stub()
    if h.sym:
        stub.wrap = lambda d: h.mk(d)
    m = load(h, stub)
    seen = []
    keepU, keepnew = np.array(o(U)), np.array(new)
    for name, X in (("U", U), ("V", W)):
        arg = h.mk(ds[name].values) if h.sym else ds[name].values
        kw = dict(logging_method=seen.append) if name == "U" else {}
        if c["topo"]:
            kw["save_topography"] = True
        r = h.returns("%s interpolated" % name, m.vertical_interpolation_to_pressure, ds=ds, variable=arg, new_lev=new, var=name, **kw)
        if not isinstance(r, tuple) or len(r) != 3:
            h.true("three results", False)
            return
        val, topo, lev = r
        h.true("pressure levels returned", np.array_equal(np.asarray(lev, dtype=float), keepnew))
        h.true("shape", np.shape(val) == (T, len(new), J, I))
        h.true("topography only on request", (topo is not None) == bool(c["topo"]))
        X, p = np.asarray(X), np.asarray(ps)
        for t in range(T):
            want = np.empty((len(new), J, I), dtype=object)
            for j in range(J):
                for i in range(I):
                    half = [ai[k] * P0 + bi[k] * p[t, j, i] for k in range(K + 1)]
                    mid = [(half[k] + half[k + 1]) * 0.5 / 100.0 for k in range(K)]
                    for l in range(len(new)):
                        want[l, j, i] = column(mid, [X[t, k, j, i] for k in range(K)], float(new[l]))
            for l in range(len(new)):
                mi = C28._missing(want[l]) if h.sym else np.isnan(want[l].astype(float))
                fl = filled(want[l], mi)
                for ix in np.ndindex(J, I):
                    h.eq("%s %s t%d p%d %s" % (name, "filled" if mi[ix] else "interpolated", t, l, ix), val[(t, l) + ix], fl[ix] if mi[ix] else want[l][ix])
                    if topo is not None:
                        x = np.asarray(topo)[(t, l) + ix]
                        h.true("topography marker %s t%d p%d %s" % (name, t, l, ix), (isinstance(x, float) and x != x) if mi[ix] else (isinstance(x, (int, float)) and x == 1))
        if c["ps"]:
            break
        # assembling of the output dataset
        out, dims = h.returns("dataset prepared", m.similar_xarray_dataset, ds, lev)
        h.true("dimensions", list(dims) == ["time", "plev", "lat", "lon"] and dict(out.sizes) == dict(time=T, plev=len(new), lat=J, lon=I))
        for n in ("time", "lat", "lon"):
            h.true("coordinate " + n, np.array_equal(out[n].values, ds[n].values) and out[n].attrs.get("units") == ds[n].attrs["units"])
        h.true("coordinate plev", np.array_equal(np.asarray(out["plev"].values, dtype=float), keepnew) and out["plev"].attrs.get("units") == "hPa")
        h.true("attributes", out.attrs.get("source") == "somewhere")
        h.eq("surface pressure", h.mk(out["PS"].values) if h.sym else out["PS"].values, h.mk(o(ps)))
        data = np.asarray(val)
        kw = dict(new_coordinate_system=dims) if name == "U" else {}
        out = h.returns("variable stored", m.update_new_variable_to_pressure, name, data, ds, out, **kw)
        h.true("stored dimensions", out[name].dims == ("time", "plev", "lat", "lon"))
        h.eq("stored values", h.mk(out[name].values) if h.sym else out[name].values, h.mk(data) if h.sym else data)
        h.true("stored attributes", out[name].attrs.get("units") == "m/s" and name in str(out[name].attrs.get("description", "")))
        if topo is not None:
            out = h.returns("topography stored", m.update_new_variable_to_pressure, "topo", np.asarray(topo), ds, out, default_attrs={}, new_coordinate_system=dims)
            h.true("topography stored in place", out["topo"].dims == ("time", "plev", "lat", "lon") and out["topo"].shape == (T, len(new), J, I))
        h.true("attributes of the source unchanged", ds[name].attrs == at)
    h.eq("input field unchanged", h.mk(ds["U"].values) if h.sym else ds["U"].values, h.mk(keepU))
    h.true("pressure levels unchanged", np.array_equal(new, keepnew))
