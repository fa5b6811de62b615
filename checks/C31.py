"""netcdf_utils.extract_one_timeslice on in-memory datasets of symbolic values (opening and writing of files replaced by stand-ins that
return the dataset and record what is written): the written dataset against the requested snapshots of the original."""
import contextlib
import importlib.util
import os
import sys
import numpy as np
import xarray as xr

BOUNDS = "datasets of 4 times x 2 latitudes x 3 longitudes with two time-dependent variables (all values symbolic, the time dimension first or last), one independent of time, scalar variable, coordinates; time indexes omitted, one, several, unordered and negative; two extractions in a row; a dataset of 40 times"
OUTSIDE = "the file format written and the decoding of files by xarray; larger datasets"


def configs(tier):
    ts = [None, [0], [2], [1, 3], [3, 0, 2], [-1]]
    if tier == "thorough":
        ts += [[a, b] for a in range(4) for b in range(4) if a != b]
    r = [dict(name="times_%s_%s" % ("default" if t is None else "_".join(map(str, t)), o), t=t, last=o == "last") for t in ts for o in ("first", "last")]
    r.append(dict(name="forty_times", t=[35, 3, 17], last=False, T=40))
    return r + [dict(name="two_extractions", t=[2], last=False, again=True), dict(name="one_time_only", t=None, last=False, T=1)]


@contextlib.contextmanager
def module(h, files, out):
    from fv import load as L, symnp
    def opened(f, *a, **k):
        return files[os.fspath(f[0] if isinstance(f, (list, tuple)) else f)]
    def written(self, path=None, mode="w", *a, **k):
        out.append((os.fspath(path), mode, self.copy(deep=True)))
    names = ("open_dataset", "load_dataset", "open_mfdataset")
    saved = {n: getattr(xr, n) for n in names}
    to = xr.Dataset.to_netcdf
    wb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        for n in names:
            setattr(xr, n, opened)
        xr.Dataset.to_netcdf = written
        spec = importlib.util.spec_from_file_location("falwa.netcdf_utils", os.path.join(L.SRC, "netcdf_utils.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m.print = lambda *a, **k: None
        if h.sym:
            p = symnp.make_proxy()
            for n, v in list(m.__dict__.items()):
                if v is np:
                    m.__dict__[n] = p
        yield m
    finally:
        for n in names:
            setattr(xr, n, saved[n])
        xr.Dataset.to_netcdf = to
        sys.dont_write_bytecode = wb


def values(h, v):
    return h.mk(np.asarray(v.values, dtype=object)) if v.dtype == object else v.values


def run(h, c):
    T, J, I = c.get("T", 4), 2, 3
    u, t2 = h.arr("u", (T, J, I), -2, 2), h.arr("p", (T, J, I), -2, 2)
    fixed, sc = h.arr("land", (J, I), -2, 2), h.num("scalar", -2, 2)
    d = ("latitude", "longitude", "time") if c["last"] else ("time", "latitude", "longitude")
    tr = lambda a: np.moveaxis(np.asarray(a), 0, -1) if c["last"] else np.asarray(a)
    ds = xr.Dataset({"u": (d, tr(u), {"units": "m/s"}), "p": (d, tr(t2)), "land": (("latitude", "longitude"), np.asarray(fixed)), "ref": ((), np.asarray(sc, dtype=object) if h.sym else sc)},
                    coords=dict(time=np.arange(T) * 6.0 + 1.0, latitude=np.linspace(-90, 90, J), longitude=np.linspace(0, 240, I)), attrs={"source": "somewhere"})
    out = []
    with module(h, {"in.nc": ds, "other.nc": ds.isel(longitude=slice(None, None, -1))}, out) as m:
        if c.get("again"):
            m.extract_one_timeslice("other.nc", "first.nc", [1])
        if c["t"] is None:
            h.returns("extraction", m.extract_one_timeslice, "in.nc", "out.nc")
        else:
            arg = list(c["t"])
            h.returns("extraction", m.extract_one_timeslice, "in.nc", "out.nc", arg)
            h.true("argument unchanged", arg == c["t"])
        if c.get("again"):
            m.extract_one_timeslice("in.nc", "default.nc")
    t = [0] if c["t"] is None else c["t"]
    want = (["first.nc"] if c.get("again") else []) + ["out.nc"] + (["default.nc"] if c.get("again") else [])
    h.true("files written", [o[0] for o in out] == want and all(o[1] == "w" for o in out))
    w = {o[0]: o[2] for o in out}
    for f, t in [("out.nc", t)] + ([("default.nc", [0])] if c.get("again") else []):
        if f not in w:
            continue
        r = w[f]
        h.true(f + " variables", set(r.data_vars) == set(ds.data_vars) and set(r.coords) == set(ds.coords))
        for n, v in (("u", u), ("p", t2)):
            h.true("%s %s dimensions" % (f, n), tuple(r[n].dims) == d)
            if tuple(r[n].dims) == d:
                h.eq("%s %s" % (f, n), values(h, r[n]), tr(np.asarray(v)[t]))
        h.eq(f + " land", values(h, r["land"]), fixed)
        h.eq(f + " ref", values(h, r["ref"]), sc)
        h.true(f + " coordinates", bool(np.array_equal(r.time.values, ds.time.values[t])) and bool(np.array_equal(r.latitude, ds.latitude)) and bool(np.array_equal(r.longitude, ds.longitude)))
        h.true(f + " attributes", r.attrs == ds.attrs and r["u"].attrs == ds["u"].attrs)
    h.eq("dataset unchanged", values(h, ds["u"]), tr(u))
    h.eq("second variable unchanged", values(h, ds["p"]), tr(t2))
