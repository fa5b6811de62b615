"""integrate_budget executed on datasets of symbolic budget terms with time axes of every resolution; the trapezoidal
time integrals in seconds, the change of wave activity and the residual compared element by element."""
import numpy as np
import xarray as xr

BOUNDS = "2-4 (thorough 6) regular and irregular time steps in ns/us/ms/s resolution and as time deltas, 2 latitudes, 2 longitudes, optional extra dimension; all values symbolic; 12 (thorough 40) time steps"
OUTSIDE = "calendar (cftime) axes; longer series"
DEF = dict(lwa_baro="lwa_baro", convergence_zonal_advective_flux="convergence_zonal_advective_flux",
           divergence_eddy_momentum_flux="divergence_eddy_momentum_flux", meridional_heat_flux="meridional_heat_flux")


def configs(tier):
    r = []
    for n in (2, 3, 4, 12) + ((6, 40) if tier == "thorough" else ()):
        for unit in ("ns", "us", "ms", "s", "td"):
            for names in range(5):
                r.append(dict(name="n%d_%s_v%d" % (n, unit, names), n=n, unit=unit, names=names))
    return r


TN = ["time", "date", "datetime", "valid_time", "t_axis"]


def run(h, c):
    n, k = c["n"], c["names"]
    sec = np.cumsum(h.generic("dt%d" % n, (n,), 1800, 90000).astype(int))
    if k == 0:
        sec = np.arange(n) * 21600
    base = np.datetime64("2005-01-23T00:00:00", "s")
    t = (base + sec.astype("timedelta64[s]")).astype("datetime64[%s]" % c["unit"]) if c["unit"] != "td" else sec.astype("timedelta64[s]").astype("timedelta64[ns]")
    tn = TN[k]
    dims = [(tn, "ylat", "xlon"), ("ylat", "xlon", tn), (tn, "ens", "ylat", "xlon"), ("ylat", tn, "xlon"), (tn, "ylat")][k]
    sizes = {tn: n, "ylat": 2, "xlon": 2, "ens": 2}
    shp = tuple(sizes[d] for d in dims)
    ax = dims.index(tn)
    names = dict(DEF)
    vn = {}
    if k == 4:
        names = {x: "my_" + x for x in DEF}
        vn = dict(names, time=tn)
    if k == 3:
        names["lwa_baro"] = "L"
        vn = {"lwa_baro": "L"}
    A = {x: np.asarray(h.arr(x, shp, -2, 2)).view(np.ndarray) for x in DEF}
    ds = xr.Dataset({names[x]: (dims, A[x]) for x in DEF}, coords={tn: t, "ylat": [0.0, 10.0]}, attrs={"protocol": "x"})
    ds["other"] = (dims, np.asarray(h.arr("other", shp, -2, 2)).view(np.ndarray))
    keep = ds.copy(deep=True)
    B = h.pkg.xarrayinterface.integrate_budget
    r = h.returns("integrates", B, ds, var_names=vn) if vn else h.returns("integrates", B, ds)
    if not isinstance(r, xr.Dataset):
        return

    def integral(a):
        a = np.moveaxis(a, ax, 0)
        s = a[0] * 0.0
        for i in range(n - 1):
            s = s + (a[i] + a[i + 1]) * (0.5 * float(sec[i + 1] - sec[i]))
        return s
    I = {x: integral(A[x]) for x in DEF}
    d = np.moveaxis(A["lwa_baro"], ax, 0)
    dl = d[-1] - d[0]
    rest = [x for x in dims if x != tn]
    out = {"delta_lwa": dl}
    for x in list(DEF)[1:]:
        out["integrated_" + x] = I[x]
    out["residual"] = dl - I["convergence_zonal_advective_flux"] - I["divergence_eddy_momentum_flux"] - I["meridional_heat_flux"]
    for x, s in out.items():
        if x not in r:
            h.fail(x, "missing")
            continue
        h.true(x + " dims", list(r[x].dims) == rest)
        h.eq(x, h.mk(np.asarray(r[x].values)), h.mk(s))
    h.eq("seconds", float(r.attrs["integration_seconds"]), float(sec[-1] - sec[0]))
    h.true("start", r.attrs["integration_start"] == str(t[0]))
    h.true("stop", r.attrs["integration_stop"] == str(t[-1]))
    h.true("attributes kept", r.attrs.get("protocol") == "x")
    for x in ds:
        h.eq("input unchanged " + x, h.mk(ds[x].values), h.mk(keep[x].values))
    # part of the record
    if n > 2:
        q = B(ds.isel({tn: slice(1, None)}), var_names=vn)
        h.eq("sub-interval", h.mk(np.asarray(q["delta_lwa"].values)), h.mk(d[-1] - d[1]))
        h.eq("sub-interval seconds", float(q.attrs["integration_seconds"]), float(sec[-1] - sec[1]))
