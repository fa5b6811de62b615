"""hemisphere_to_globe executed on datasets of symbolic values: northern/southern data, both latitude orders, variables
with and without latitude, extra dimensions, detected and user-given names."""
import numpy as np
import xarray as xr

BOUNDS = "hemispheres of 2-4 latitudes, 2 longitudes, 2 times; all values symbolic; latitudes concrete (regular and irregular), equator within 1e-5 degrees; ordinary size: 15 (thorough 46) latitudes per hemisphere"
OUTSIDE = "larger datasets; the code does not branch on field values"


def configs(tier):
    r = []
    for n in (2, 3, 4, 15) + ((5, 7, 46) if tier == "thorough" else ()):
        for hem in (1, -1):
            for first in (0, 1):
                for names in range(6):
                    r.append(dict(name="n%d_h%d_eq%d_v%d" % (n, hem, first, names), n=n, hem=hem, first=first, names=names))
    return r


LAT = ["ylat", "lat", "latitude", "lat", "myl", "latitude"]
V = ["v", "V", None, "v", "wind_v", "vv"]
DIMS = [("lat",), ("time", "lat", "lon"), ("lat", "lon"), ("lon", "lat", "time"), ("lev", "lat", "lon"), ("lon", "lat")]


def run(h, c):
    n, k = c["n"], c["names"]
    lat = h.generic("lat%d" % n, (n,), 1, 8).cumsum()
    if k % 2:
        lat = np.linspace(0, 90, n)
    lat[0] = [0.0, 5e-5, 0.0, -3e-5, 0.0, 0.0][k]
    lat = c["hem"] * lat
    order = slice(None) if c["first"] else slice(None, None, -1)
    lat = lat[order]
    yn = LAT[k]
    sizes = dict(lat=n, lon=2, time=2, lev=2)
    dims = [yn if d == "lat" else d for d in DIMS[k]]
    shp = tuple(sizes[d] for d in DIMS[k])

    def mk(nm):
        a = np.asarray(h.arr(nm, shp, -2, 2))
        return (dims, a.view(np.ndarray))
    data = {"u": mk("u"), "t2": mk("t2"), "z": ([d for d in dims if d != yn], np.asarray(h.arr("z", tuple(s for d, s in zip(DIMS[k], shp) if d != "lat"), -2, 2)).view(np.ndarray))}
    vn = V[k]
    if vn:
        data[vn] = mk("v")
    coords = {yn: lat}
    if "lon" in dims:
        coords["lon"] = np.arange(2.0)
    ds = xr.Dataset(data, coords=coords, attrs={"a": 1})
    keep = ds.copy(deep=True)
    vnames = {}
    if k >= 4:
        vnames["ylat"] = yn
    if k == 4:
        vnames["v"] = vn
    if k == 5:
        vnames["v"] = "vv"
    G = h.pkg.xarrayinterface.hemisphere_to_globe
    g = h.tryto(G, ds, var_names=vnames) if vnames else h.tryto(G, ds)
    h.returns("accepted", lambda: g if isinstance(g, xr.Dataset) else 1 / 0)
    if not isinstance(g, xr.Dataset):
        return
    # the other hemisphere carries the mirrored rows without the equator, in the order of the latitude axis
    mirror = [-x for x in lat[::-1]]
    if c["first"]:
        want = mirror[:-1] + list(lat)
        src = [(n - 1 - j, 1) for j in range(n - 1)] + [(j, 0) for j in range(n)]
    else:
        want = list(lat) + mirror[1:]
        src = [(j, 0) for j in range(n)] + [(n - 1 - j, 1) for j in range(1, n)]
    h.eq("latitudes", np.array(g[yn].values, dtype=float), np.array(want))
    d = np.diff(np.array(want)[np.abs(want) > 1e-3])
    h.true("monotone latitudes", bool(np.all(d > 0) or np.all(d < 0)))
    for nm in data:
        a = np.asarray(ds[nm].values)
        if nm == "z":
            h.true(nm + " dims", g[nm].dims == ds[nm].dims)
            h.eq(nm, h.mk(g[nm].values), h.mk(a))
            continue
        ax = dims.index(yn)
        h.true(nm + " dims", list(g[nm].dims) == dims)
        sg = -1 if nm == vn else 1
        rows = [np.take(a, j, axis=ax) * (sg if m else 1) for j, m in src]
        h.eq(nm, h.mk(np.asarray(g[nm].values)), h.mk(np.stack(rows, axis=ax)))
    for nm in data:
        h.eq("input unchanged " + nm, h.mk(ds[nm].values), h.mk(keep[nm].values))
    h.eq("input latitude unchanged", np.array(ds[yn].values), lat)
    # a dataset that does not start or end at the equator
    off = ds.isel({yn: slice(1, None) if c["first"] else slice(0, -1)})
    if off[yn].size:
        h.raises("no equator", AssertionError, G, off, **({"var_names": vnames} if vnames else {}))
