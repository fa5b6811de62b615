"""The scripts that analyse whole files (scripts/lubis_et_al_2025 and scripts/mdtf_predigest_data) executed from their source on symbolic
fields, with files in memory and a stand-in for the analysis class whose results are different linear functions of everything it is given;
every stored value is compared with the analysis of its own time step on correctly oriented axes."""
import builtins
import collections
import inspect
import os
import sys
import types
import numpy as np

BOUNDS = "files of 2-3 times, 2-3 pressure levels, 3-4 latitudes, 2-3 longitudes, all field values symbolic; latitude and level stored in either direction (fixed for the predigestion script); first two years of the loop over years; whole months of 28 and 29 (thorough 30, 31) days with 4 time steps per day on 2x3x2 points; seasonal files of all years, 4 of them with symbolic values"
OUTSIDE = "the analysis itself (C08-C18); the netCDF file format and its reduced precision; the years to process; scripts/nhn_grl2022 (its environment pins an older version of the package); plotting"
KMAX = 49
FLUX = ["adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro"]
INTERP = ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"]
REF = ["qref", "uref", "ptref"]


def configs(tier):
    r = []
    g = [(2, 3, 3, 2)] + ([(3, 2, 4, 3)] if tier == "thorough" else [])
    for T, K, J, I in g:
        for s in ("budget", "heating"):
            for fy in (0, 1):
                for fz in (0, 1):
                    r.append(dict(name="%s_%dx%dx%dx%d_lat%s_lev%s" % (s, T, K, J, I, "down" if fy else "up", "up" if fz else "down"), s=s, T=T, K=K, J=J, I=I, fy=fy, fz=fz))
    for yr, mo, days in [(2024, 2, 29), (2023, 2, 28)] + ([(2023, 4, 30), (2021, 12, 31)] if tier == "thorough" else []):
        r.append(dict(name="predigest_%d_%02d" % (yr, mo), s="predigest", T=4 * days, yr=yr, mo=mo, K=2, J=3, I=2, fy=1, fz=1))
    r.append(dict(name="seasons", s="seasons"))
    return r


def weight(name, n):
    """fixed generic coefficients"""
    return 0.1 + (sum(ord(c) * (i + 3) for i, c in enumerate(name)) * 37 % 101 + n * 17 % 103 * 1.37) / 211.0


def functional(name, a):
    s = 0.0
    for n, x in enumerate(np.ma.getdata(a).ravel() if isinstance(a, np.ndarray) else [a]):
        s = s + x * weight(name, n)
    return s


def field(h, name, shape, s):
    """a result of the analysis: different in every element, shifted by a value that depends on all that was given"""
    c = weight(name, 5) * 10 + 0.01 * np.arange(int(np.prod(shape))).reshape(shape)
    r = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        r[ix] = s + float(c[ix])
    return h.mk(r)


class Analysis:
    """stand-in for the analysis classes"""
    def __init__(self, h, kind, *args, **kw):
        sig = inspect.signature(getattr(h.pkg.oopinterface, "QGField" + kind))
        a = sig.bind(*args, **kw)
        a.apply_defaults()
        a = a.arguments
        xlon, ylat, plev, u, v, t = [a[n] for n in ("xlon", "ylat", "plev", "u_field", "v_field", "t_field")]
        kmax, dz, eq_boundary_index, nh = a["kmax"], a["dz"], a.get("eq_boundary_index"), a["northern_hemisphere_results_only"]
        for n, q in sig.parameters.items():
            if q.default is not q.empty and n not in ("kmax", "dz", "eq_boundary_index", "northern_hemisphere_results_only"):
                assert a[n] == q.default or n == "npart" and a[n] == len(ylat), "default of " + n
        x, y, p = [np.asarray(np.ma.getdata(a), dtype=float) for a in (xlon, ylat, plev)]
        assert (np.diff(y) > 0).all() and (np.diff(p) < 0).all(), "latitude must ascend and pressure descend"
        self.h, self.kmax, self.nlat, self.nlon, self.equator_idx = h, kmax, len(y), len(x), len(y) // 2 + 1
        for n, a in (("u", u), ("v", v), ("t", t)):
            assert np.shape(a) == (len(p), len(y), len(x)), "shape of the fields"
        self.s = given(kind, x, y, p, u, v, t, kmax, dz, eq_boundary_index, nh)
        self.height = np.arange(kmax) * dz
        self.done = set()
        self._layerwise_flux_terms_storage = types.SimpleNamespace()

    def _get(self, names, shape):
        return [field(self.h, n, shape, self.s) for n in names]

    def _need(self, *names):
        for n in names:
            assert n in self.done, "computed before " + n

    def interpolate_fields(self, return_named_tuple=True):
        self.done.add("fields")
        if return_named_tuple:
            return collections.namedtuple("Interpolated_fields", ["QGPV", "U", "V", "Theta", "Static_stability"])(*self._get(INTERP, (self.kmax, self.nlat, self.nlon)), np.zeros(self.kmax))

    def compute_reference_states(self, return_named_tuple=True, northern_hemisphere_results_only=None):
        self._need("fields")
        self.done.add("reference")
        if return_named_tuple:
            return collections.namedtuple("Reference_states", ["Qref", "Uref", "PTref"])(*self._get(REF, (self.kmax, self.nlat)))

    def compute_lwa_and_barotropic_fluxes(self, return_named_tuple=True, northern_hemisphere_results_only=None, ncforce=None):
        self._need("fields", "reference")
        self.done.add("fluxes")
        if return_named_tuple:
            return collections.namedtuple("LWA_and_fluxes", FLUX + ["lwa"])(*[getattr(self, n) for n in FLUX + ["lwa"]])

    def compute_ncforce_from_heating_rate(self, heating_rate):
        self._need("fields", "reference")

        return field(self.h, "forcing", (self.kmax, self.nlat, self.nlon), self.s + functional("heating", np.asarray(np.ma.getdata(heating_rate))))


    def compute_layerwise_lwa_fluxes(self, ncforce=None):
        self._need("fields", "reference")
        self.done.add("layerwise")
        f = 0.0 if ncforce is None else functional("forcing", np.asarray(ncforce))
        self._layerwise_flux_terms_storage.ncforce = field(self.h, "layer", (self.nlon, self.nlat, self.kmax), self.s + f)

    def __getattr__(self, n):
        if n in INTERP:
            self._need("fields")
            return field(self.h, n, (self.kmax, self.nlat, self.nlon), self.s)
        if n in REF:
            self._need("reference")
            return field(self.h, n, (self.kmax, self.nlat), self.s)
        if n in FLUX:
            self._need("fluxes")
            return field(self.h, n, (self.nlat, self.nlon), self.s)
        if n == "lwa":
            self._need("fluxes")
            return field(self.h, n, (self.kmax, self.nlat, self.nlon), self.s)
        raise AttributeError(n)


def given(kind, x, y, p, u, v, t, kmax, dz, jb, nh):
    """a number that depends on everything the analysis is given"""
    nh = 0.0 if nh is None else float(bool(nh))
    s = {"NHN22": 0.0, "NH18": 7.0}[kind] + 0.3 * kmax + 0.01 * dz + (5 if jb is None else jb) * 0.7 + 3 * nh
    for n, a in (("x", x), ("y", y), ("p", p)):
        s = s + float(functional(n, a)) * 1e-3
    for n, a in (("u", u), ("v", v), ("t", t)):
        s = s + functional(n, np.asarray(np.ma.getdata(a)))
    return s


class Variable:
    def __init__(self, h, data, **attrs):
        self.h, self.data_, self.units = h, data, "unit"
        self.__dict__.update(attrs)
        self.shape = np.shape(data)
        self.attrs_ = list(attrs) + ["units"]

    def ncattrs(self):
        return self.attrs_

    def __getitem__(self, ix):
        r = self.data_[ix]
        return np.ma.MaskedArray(np.array(r)) if not self.h.sym or r.dtype != object else Masked(self.h.mk(np.array(r)))

    def __setitem__(self, ix, v):
        self.data_[ix] = np.asarray(np.ma.getdata(v) if not isinstance(v, Masked) else v.data, dtype=object)


class Masked:
    """what a file hands out for symbolic values: an array with .data"""
    def __init__(self, a):
        self.data, self.shape, self.ndim, self.size = a, a.shape, a.ndim, a.size
        self.mask = np.ma.nomask

    def __getitem__(self, ix):
        return Masked(self.data[ix])

    def __array__(self, dtype=None, copy=None):
        return np.array(self.data, dtype=dtype or object)

    def filled(self, *a):
        return self.data

    def __len__(self):
        return len(self.data)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.data, n)


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "neg", "pow"):
    setattr(Masked, "__%s__" % _op, (lambda o: lambda self, *a: getattr(self.data, o)(*a))("__%s__" % _op))


class File:
    """in-memory stand-in for netCDF4.Dataset"""
    def __init__(self, h, box, path, mode="r", *a, **k):
        self.h = h
        path = str(path)
        if mode == "r":
            self.variables = box["in"][box["find"](path)]
        else:
            assert path not in box["out"], "file written twice"
            self.variables, self.dims, self.open = {}, {}, True
            box["out"][path] = self

    def createDimension(self, n, size=None):
        self.dims[n] = size

    def createVariable(self, n, kind=None, dims=(), **k):
        self.variables[n] = v = Variable(self.h, np.full([self.dims[d] for d in dims], None, dtype=object))
        v.units, v.kind, v.dims = None, kind, dims
        return v

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def execute(h, path, mods, argv, name, opened=None):
    """run a script from its source with some modules replaced"""
    from fv import load as L, symnp
    src = os.path.join(L.SRC, "..", "..", "scripts", path)
    saved, sv = {n: sys.modules.get(n) for n in mods}, list(sys.argv)

    def rng(*a):
        return range(a[0], min(a[1], a[0] + 2)) if len(a) == 2 and a[0] >= 1900 else range(*a)
    proxy = symnp.make_proxy() if h.sym else None

    def imp(n, g=None, l=None, fromlist=(), level=0):
        r = builtins.__import__(n, g, l, fromlist, level)
        if h.sym and n == "numpy" and not fromlist:
            return proxy
        return r
    b = dict(builtins.__dict__, range=rng, print=lambda *a, **k: None, __import__=imp)
    if opened:
        b["open"] = opened
    try:
        sys.modules.update(mods)
        sys.argv = [path] + argv
        with builtins.open(src) as f:
            code = compile(f.read(), src, "exec")
        exec(code, {"__name__": name, "__builtins__": b, "__file__": src})
    finally:
        sys.argv = sv
        for n, v in saved.items():
            sys.modules.pop(n, None)
            if v is not None:
                sys.modules[n] = v


SEASONS = {"DJF": [1, 2, 12], "MAM": [3, 4, 5], "JJA": [6, 7, 8], "SON": [9, 10, 11]}


def seasons(h):
    """plot_from_predigest.py: seasonal means and covariances of the predigested files"""
    import xarray as xr
    J, I, K, years = 2, 2, KMAX, range(1979, 2024)
    full = {("DJF", 1979), ("SON", 1979), ("JJA", 2000), ("MAM", 2023)}
    y, x = np.array([-30.0, 30.0]), np.array([0.0, 180.0])
    shapes = dict(lwa_baro=(J, I), u_baro=(J, I), fawa=(K, J), uref=(K, J), ubar=(K, J))
    dims = {n: ("time",) + (("latitude", "longitude") if s == (J, I) else ("height", "latitude")) for n, s in shapes.items()}
    files, data, out = {}, {}, {}
    for se, months in SEASONS.items():
        for yr in years:
            for mo in months:
                T = 2 if mo == 2 else 1
                d = {n: (h.arr("%s%d%02d" % (n, yr, mo), (T,) + s, -2, 2) if (se, yr) in full and n != "fawa" else h.mk(np.sin(weight(n, yr * 13 + mo) * 50 + 1.7 * np.arange(T * s[0] * s[1])).reshape((T,) + s))) for n, s in shapes.items()}
                data[yr, mo] = d
                files["output_%d_%02d.nc" % (yr, mo)] = xr.Dataset({n: (dims[n], np.array(np.asarray(a), dtype=object if h.sym and (se, yr) in full else float)) for n, a in d.items()}, coords=dict(latitude=y, longitude=x))

    def one(f, *a, **k):
        return files[os.path.basename(str(f))].copy(deep=True)

    def many(fs, *a, **k):
        return xr.concat([one(f) for f in fs], dim="time")

    def written(self, path=None, *a, **k):
        assert path not in out, "file written twice"
        out[os.path.basename(str(path))] = {n: (v.dims, np.array(v.values)) for n, v in self.variables.items()}
    names = dict(open_dataset=one, load_dataset=one, open_mfdataset=many)
    saved = {n: getattr(xr, n) for n in names}
    to, dp = xr.Dataset.to_netcdf, xr.DataArray.data
    pl, pk = types.ModuleType("falwa.plot_utils"), types.ModuleType("falwa.stat_utils")
    pl.LatLonMapPlotter = pl.HeightLatPlotter = lambda *a, **k: types.SimpleNamespace(plot_and_save_variable=lambda *a, **k: None)
    pk.calculate_covariance = h.pkg.stat_utils.calculate_covariance
    try:
        for n, f in names.items():
            setattr(xr, n, f)
        xr.Dataset.to_netcdf = written
        if h.sym:
            xr.DataArray.data = property(lambda self: h.mk(self.variable.data), dp.fset)
        h.returns("script runs", execute, h, os.path.join("mdtf_predigest_data", "plot_from_predigest.py"), {"falwa.plot_utils": pl, "falwa.stat_utils": pk}, [], "__main__")
    finally:
        for n, f in saved.items():
            setattr(xr, n, f)
        xr.Dataset.to_netcdf, xr.DataArray.data = to, dp
    h.true("one file per season and year", len(out) == len(SEASONS) * len(years))
    for se, months in SEASONS.items():
        for yr in years:
            o = [v for n, v in out.items() if se in n and str(yr) in n]
            h.true("file of %s %d" % (se, yr), len(o) == 1)
            if len(o) != 1:
                return
            v = o[0]
            a = {n: np.concatenate([np.asarray(data[yr, mo][n]) for mo in months]) for n in shapes}
            T = len(a["uref"])
            mean = {n: sum(q[t] for t in range(T)) * (1.0 / T) for n, q in a.items()}
            mean["delta_u"] = mean["ubar"] - mean["uref"]
            mean["lwa_u_covariance"] = sum((a["lwa_baro"][t] - mean["lwa_baro"]) * (a["u_baro"][t] - mean["u_baro"]) for t in range(T)) * (1.0 / (T - 1))
            if (se, yr) not in full and yr % 9:
                continue
            for n in ("lwa_u_covariance", "lwa_baro", "u_baro", "uref", "ubar", "delta_u"):
                h.true("%s stored" % n, n in v and v[n][0] == (("latitude", "longitude") if mean[n].shape == (J, I) and n not in ("uref", "ubar", "delta_u") else ("height", "latitude")))
                if n in v:
                    h.eq("%s %s %d" % (n, se, yr), h.mk(v[n][1]), h.mk(mean[n]))
            h.true("axes", all(n in v for n in ("latitude", "longitude", "height")) and np.array_equal(v["latitude"][1], y) and np.array_equal(v["longitude"][1], x) and np.array_equal(v["height"][1], 1000.0 * np.arange(K)))


def run(h, c):
    if c["s"] == "seasons":
        return seasons(h)
    T, K, J, I, s = c["T"], c["K"], c["J"], c["I"], c["s"]
    x, y = np.arange(I) * 360.0 / I, np.linspace(-90, 90, J)
    p = np.array([1000.0, 700.0, 400.0, 100.0])[:K]
    time = 7.0 + np.arange(T) * 6
    years = [1980, 1981] if s != "predigest" else [c["yr"]]
    names = ["U", "V", "T"] + (["DTDTMST"] if s == "heating" else [])
    F = {(n, yr): h.arr("%s%d" % (n, yr), (T, K, J, I), -2, 2) for n in names for yr in years}
    turn = (slice(None), slice(None, None, -1 if c["fz"] else 1), slice(None, None, -1 if c["fy"] else 1))
    box = dict(out={}, **{"in": {}})
    ax = dict(lat="latitude", lon="longitude") if s == "predigest" else dict(lat="lat", lon="lon")
    keep = {}
    for (n, yr), a in F.items():
        a = np.array(np.asarray(a)[turn], dtype=object if h.sym else float)
        keep[n, yr] = a
        box["in"][n, yr] = {"time": Variable(h, time + yr, units="hours", calendar="standard"), ax["lon"]: Variable(h, x), ax["lat"]: Variable(h, y[turn[2]]), "level": Variable(h, p[turn[1]]),
                            (n.lower() if s == "predigest" else n): Variable(h, np.array(a))}

    def find(path):
        b = os.path.basename(path)
        for n in names:
            for yr in years:
                if b in ("%s.%d_plev.nc" % (n, yr), "%d_%02d_%s.nc" % (yr, c.get("mo", 0), n.lower())):
                    return n, yr
        raise FileNotFoundError(path)
    box["find"] = find
    nc = types.ModuleType("netCDF4")
    nc.Dataset = lambda *a, **k: File(h, box, *a, **k)
    oop = types.ModuleType("falwa.oopinterface")
    oop.QGFieldNHN22 = lambda *a, **k: Analysis(h, "NHN22", *a, **k)
    oop.QGFieldNH18 = lambda *a, **k: Analysis(h, "NH18", *a, **k)
    mods = {"netCDF4": nc, "falwa.oopinterface": oop}
    if s == "predigest":
        import io
        h.returns("script runs", execute, h, os.path.join("mdtf_predigest_data", "predigest_data.py"), mods, [str(c["yr"]), str(c["mo"])], "__main__",
                  lambda f, *a, **k: io.StringIO('{"vol1": "/vol1/", "vol2": "/vol2/"}'))
    else:
        h.returns("script runs", execute, h, os.path.join("lubis_et_al_2025", "cal_lwa_budget_NHN22.py" if s == "budget" else "cal_ncforce_loop.py"), mods, [], "__main__")
    h.true("one file per year", len(box["out"]) == len(years))
    for yr, (path, out) in zip(years, sorted(box["out"].items())):
        h.true("file named after its period", str(yr) in os.path.basename(path))
        h.true("file closed", not out.open)
        v = out.variables

        def stored(n, want):
            if n not in v:
                h.true("stored " + n, False)
                return
            got = v[n].data_
            h.true("shape of " + n, got.shape == np.shape(want))
            if any(e is None for e in got.ravel()):
                h.true("every value stored in " + n, False)
                return
            h.eq("%s %d" % (n, yr), h.mk(got), h.mk(np.asarray(want)))
        stored("latitude", y)
        stored("longitude", x)
        h.true("units of the axes", v["latitude"].units == "degrees_north" and v["longitude"].units == "degrees_east")
        h.true("units of time", v["time"].units == "hours" and v["time"].calendar == "standard")
        if s != "predigest":
            stored("time", time + yr)
            stored("levelist", 1000.0 * np.exp(-np.arange(KMAX) / 7.0))
        S = [given("NH18" if s == "predigest" else "NHN22", x, y, p, *[np.asarray(F[n, yr])[t] for n in ("U", "V", "T")], KMAX, 1000., None if s == "predigest" else 5, False) for t in range(T)]
        all_ = lambda n, shape: np.stack([np.asarray(field(h, n, shape, S[t])) for t in range(T)])
        d3, d2, dr = (KMAX, J, I), (J, I), (KMAX, J)
        if s == "budget":
            for n in INTERP + ["lwa"]:
                stored(n, all_(n, d3))
            for n in FLUX:
                stored({"convergence_zonal_advective_flux": "adv_flux_conv"}.get(n, n), all_(n, d2))
            for n in REF:
                stored(n, all_(n, dr))
        elif s == "heating":
            w = []
            for t in range(T):
                f = field(h, "forcing", d3, S[t] + functional("heating", np.asarray(F["DTDTMST", yr])[t]))
                w.append(np.swapaxes(np.asarray(field(h, "layer", (I, J, KMAX), S[t] + functional("forcing", np.asarray(f)))), 0, 2))
            stored("ncforce_3D", np.stack(w))
        else:
            for n in ("lwa_baro", "u_baro"):
                stored(n, all_(n, d2))
            zonal = lambda a: sum(a[..., i] for i in range(I)) * (1.0 / I)
            stored("fawa", zonal(all_("lwa", d3)))
            stored("ubar", zonal(all_("interpolated_u", d3)))
            stored("uref", all_("uref", dr))
    for k, a in keep.items():
        n = k[0].lower() if s == "predigest" else k[0]
        b = box["in"][k][n].data_
        h.eq("input file unchanged %s %d" % k, h.mk(b), h.mk(a))
