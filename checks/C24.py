"""QGDataset on symbolic datasets in every storage order next to the array interface on the slices taken by label; and, with
a recording class in place of the analysis class, which arrays are handed over and where each returned value is labelled."""
import itertools
import numpy as np
import xarray as xr
from checks import qg, pairs

BOUNDS = "both classes (and a recording stand-in for them), grids of 4-5 latitudes, 3 longitudes, 4 levels; latitude and level stored in either direction (forcing and heating rate in either, independently); 0-3 extra dimensions of size 1-3, with labels in any order or without; all standard dimension and variable names and user-defined ones; dataset, single arrays, datasets per variable and overrides as input; global and northern-hemisphere-only; positional and keyword options; every returned dataset, attribute and property; PV, forcing and flux kernels real, reference-state kernels replaced by a simple function of what they are asked for"
OUTSIDE = "longitude order; repeated labels; datasets backed by dask arrays"
ASSUME = qg.ASSUME
NAMES = {"plev": ["plev", "lev", "level", "isobaricInhPa", "pressure_level", "P"], "ylat": ["ylat", "lat", "latitude", "Y"],
         "xlon": ["xlon", "lon", "longitude", "X"], "u": ["u", "U", "wind"], "v": ["v", "V", "northward"], "t": ["t", "T", "temp"]}
OTHERS = [(), ("time",), ("time", "member"), ("run", "time", "member")]
SIZES = {"time": 2, "member": 3, "run": 1}
OUT = {"interpolate_fields": ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"], "compute_reference_states": ["qref", "uref", "ptref"],
       "compute_lwa_only": ["lwa_baro", "u_baro", "lwa"],
       "compute_lwa_and_barotropic_fluxes": ["adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux",
                                             "meridional_heat_flux", "lwa_baro", "u_baro", "ncforce_baro", "flux_vector_lambda_baro", "flux_vector_phi_baro", "lwa"],
       "compute_layerwise_lwa_fluxes": ["lwa", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"]}
GLOBAL = OUT["interpolate_fields"]


def configs(tier):
    r = []
    t = tier == "thorough"
    dirs = list(itertools.product((False, True), (False, True)))
    for cls in ("NH18", "NHN22", "hemispheric stand-in", "global stand-in"):
        for o in range(4):
            for yd, pa in dirs:
                k = 2 * yd + pa
                if "stand-in" not in cls and (o > 1 and not t):
                    continue
                r.append(dict(name="%s_%s_%s%s" % (cls, "x".join(OTHERS[o]) or "single", "south first" if not yd else "north first", "_top first" if pa else ""),
                              cls=cls, o=o, yd=yd, pa=pa, J=5 - (k + o) % 2, nh=bool((k + o // 2 + o) % 2), nam=(k + 2 * o), form=(k + o) % 5, fy=bool(k % 3), fp=bool((k + o) % 3 == 1)))
                if t:
                    r.append(dict(r[-1], name=r[-1]["name"] + "_2", J=4 + (k + o) % 2, nh=not r[-1]["nh"], nam=k + o + 3, form=(k + o + 2) % 5, fy=not r[-1]["fy"], fp=not r[-1]["fp"]))
    return r


class Simple:
    """reference states as a simple function of what they are requested for"""

    def __init__(self, h, d):
        self.h, self.d = h, d

    def value(self, k):
        nd, K = self.d["nd"], self.d["K"]
        pv, uu, pt = [np.asarray(k[n], dtype=object) for n in ("pv", "uu", "pt")]
        m = lambda x: x[:, -nd:, :].sum(axis=0) * (1.0 / x.shape[0])
        return [self.h.mk(x) for x in (m(pv), m(uu) * 0.5, m(pt))]

    def refs(self, *a, **k):
        q, u, t = self.value(dict(k, **dict(zip(("pv", "uu", "pt", "stat"), a))))
        return q, u, t, 1

    def first(self, *a, **k):
        k = dict(k, **dict(zip(("pv", "uu", "vort", "pt", "tn0"), a)))
        self.last = self.value(k)
        nd, K = self.d["nd"], self.d["K"]
        n = nd - self.d["jb"] - 2
        z = np.zeros((nd, K))
        return (self.last[0],) + tuple(z.copy() for _ in range(4)) + (np.zeros((n, K - 1)), np.zeros((n, n, K - 1)))

    def before(self, *a, **k):
        n = self.d["nd"] - self.d["jb"] - 2
        return np.eye(n), np.zeros((n, n)), np.zeros((n, n)), np.zeros(n)

    def sweep(self, *a, **k):
        q, u, t = self.last
        jb = self.d["jb"]
        return t[jb:], q.copy(), u[jb:]

    def on(self):
        return qg.replaced(self.h, compute_reference_states=self.refs, compute_qref_and_fawa_first=self.first,
                           matrix_b4_inversion=self.before, matrix_after_inversion=lambda *a, **k: None, upward_sweep=self.sweep)


def stand_in(h, hemispheric):
    """analysis class whose outputs are free symbols and that records what it is given"""

    class Recorder:
        made = []

        def __init__(self, xlon, ylat, plev, u, v, t, *args, **kw):
            self.n = len(Recorder.made)
            Recorder.made.append(self)
            self.given = dict(xlon=xlon, ylat=ylat, plev=plev, u=u, v=v, t=t, args=args, kw=kw)
            self.calls = []
            nh = kw.get("northern_hemisphere_results_only", False)
            self.xlon, self.ylat = np.asarray(xlon), np.asarray(ylat)
            self.ylat_ref_states = self.ylat[len(ylat) // 2:] if nh else self.ylat
            self.height = qg.DZ * np.arange(3)
            self.kmax, self.dz, self.maxit, self.tol, self.npart, self.rjac, self.scale_height = 3, qg.DZ, 11, 0.1, 7, 0.9, 1.3
            self.cp, self.dry_gas_constant, self.omega, self.planet_radius, self.prefactor = 3.4, 1.1, 0.8, 1.6, 2.2

        def val(self, m):
            y = self.ylat if m in GLOBAL or m == "ncforce" else self.ylat_ref_states
            ax = "k" if m == "stability" else {"ncforce": "kli"}.get(m) or pairs.AXES[m]
            s = tuple({"k": 3, "l": len(y), "i": len(self.xlon)}[a] for a in ax)
            return h.arr("out%d %s" % (self.n, m), ((2,) if m == "stability" and hemispheric else ()) + s, -1, 1)

        def __getattr__(self, m):
            if m == "static_stability":
                s = self.val("stability")
                return (s[0], s[1]) if hemispheric else s
            if m in pairs.AXES:
                return self.val(m)
            if m in OUT:
                return lambda **k: self.calls.append((m, k))
            if m == "compute_ncforce_from_heating_rate":
                return lambda heating_rate: (self.calls.append((m, dict(heating_rate=heating_rate))), self.val("ncforce"))[1]
            raise AttributeError(m)

    Recorder.made = []
    return Recorder


def dataset(h, c):
    J = c["J"]
    z = qg.DZ * np.arange(4)
    y, x = qg.lats(J, False), np.arange(3) * 120.0
    p = qg.P0 * np.exp(-z / qg.PAR["scale_height"])
    other = OTHERS[c["o"]]
    names = {k: v[c["nam"] % len(v)] for k, v in NAMES.items()}
    user = {k: n for k, n in names.items() if n == NAMES[k][-1]}
    labels = {"time": np.array([7, 3]), "member": np.array(["b", "a", "c"]), "run": np.array([2.5])}
    shape = tuple(SIZES[n] for n in other)
    data = {}
    for ix in np.ndindex(*shape):
        pre = "".join(map(str, ix))
        if "stand-in" in c["cls"]:
            data[ix] = tuple(h.arr(pre + n, (4, J, 3), -1, 1) for n in "uvt")
        else:
            saved = h.generic
            h.generic = lambda n, *a: saved(pre + n, *a)
            num = h.num
            h.num = lambda n, *a: num(pre + n, *a)
            data[ix] = qg.fields(h, (4, J, 3), z, "uvt" if c["o"] < 2 else "v", amp=0.02, tamp=0.002, cells=lambda n, i: i in ((1, 2, 1), (2, 3, 0)))
            del h.generic, h.num
    coords = {n: labels[n] for n in other if not (n == "member" and c["nam"] % 2)}
    return dict(z=z, y=y, x=x, p=p, other=other, names=names, user=user, labels=labels, shape=shape, data=data, coords=coords)


def array(h, c, D, cube, core, ys, ps, yd, pd, name=None):
    """DataArray of cube(ix) with the given core dimensions, stored in the given directions"""
    a = np.empty(D["shape"] + tuple(len(v) for v in (ps, ys, D["x"])), dtype=object)
    for ix in np.ndindex(*D["shape"]):
        a[ix] = np.asarray(cube(ix), dtype=object)
    ys, ps = np.asarray(ys), np.asarray(ps)
    if yd:
        a, ys = a[..., ::-1, :], ys[::-1]
    if pd:
        a, ps = a[..., ::-1, :, :], ps[::-1]
    a = a if h.sym else a.astype(float)
    return xr.DataArray(a.copy(), dims=D["other"] + core, coords=dict(D["coords"], **dict(zip(core, (ps, ys, D["x"])))), name=name)


def run(h, c):
    qg.stub_ranges()
    X = h.pkg.xarrayinterface
    D = dataset(h, c)
    nm, J = D["names"], c["J"]
    core = (nm["plev"], nm["ylat"], nm["xlon"])
    A = {n: array(h, c, D, lambda ix: D["data"][ix]["uvt".index(n)], core, D["y"], D["p"], c["yd"], c["pa"], nm[n]) for n in "uvt"}
    names = dict(D["user"])
    form = c["form"]
    if form == 0:
        args = (xr.Dataset({nm[n]: A[n] for n in "uvt"}),)
    elif form == 1:
        args = (A["u"], A["v"], A["t"])
    elif form == 2:
        args = tuple(A[n].to_dataset() for n in "uvt")
    elif form == 3:
        args = (xr.Dataset({nm["u"]: A["u"], nm["v"]: A["u"] * 2.0, nm["t"]: A["t"]}), A["v"])
    else:
        args = (xr.Dataset({nm["u"]: A["u"], nm["v"]: A["v"]}), None, A["t"].to_dataset())
    kw = dict(qg.PAR, northern_hemisphere_results_only=c["nh"], data_on_evenly_spaced_pseudoheight_grid=True)
    pos = ()
    stand = "stand-in" in c["cls"]
    if stand:
        cls = stand_in(h, c["cls"].startswith("hemi"))
        pos = (17, 5)
    else:
        cls = getattr(h.pkg.oopinterface, "QGField" + c["cls"])
        if c["cls"] == "NHN22":
            kw["eq_boundary_index"] = 0
    more = {} if c["cls"] == "NH18" and c["nam"] % 2 else dict(qgfield=cls)
    if pos:
        more["qgfield_args"] = pos
    ya = qg.analysis_lats(J)
    d = dict(nd=len(ya) // 2 + 1, K=4, jb=0)
    nz = D["z"] if not stand else qg.DZ * np.arange(3)
    q = {ix: h.arr("heating%s" % (ix,), (4, J, 3), -1, 1) for ix in np.ndindex(*D["shape"])}
    nc = {ix: h.arr("forcing%s" % (ix,), (len(nz), J, 3), -1, 1) for ix in np.ndindex(*D["shape"])}
    Q = array(h, c, D, lambda ix: q[ix], core, D["y"], D["p"], c["fy"], c["fp"])
    NC = array(h, c, D, lambda ix: nc[ix], ("height", "lat", "lon"), D["y"], nz, c["fy"], c["fp"])
    with Simple(h, d).on():
        ds = X.QGDataset(*args, var_names=names or None, qgfield_kwargs=kw, **more)
        F = {}
        for n, ix in enumerate(np.ndindex(*D["shape"])):
            if stand:
                o = cls.made[n]
                for m, w in (("xlon", D["x"]), ("ylat", D["y"]), ("plev", D["p"]), ("u", D["data"][ix][0]), ("v", D["data"][ix][1]), ("t", D["data"][ix][2])):
                    h.eq("given %s %s" % (m, ix), o.given[m], w)
                h.true("options", o.given["args"] == pos and o.given["kw"] == kw)
            else:
                o = cls(D["x"], D["y"], D["p"], *D["data"][ix], **kw)
            F[ix] = o
        h.eq("objects", len(ds.fields), len(F))
        for step in OUT:
            k = {}
            if step in ("compute_lwa_and_barotropic_fluxes", "compute_layerwise_lwa_fluxes"):
                k["ncforce"] = NC
            got = getattr(ds, step)(**k)
            for ix in F:
                if stand:
                    h.true("%s called" % step, F[ix].calls[-1][0] == step)
                    f = F[ix].calls[-1][1].get("ncforce")
                    if k:
                        h.eq("forcing given %s" % (ix,), np.asarray(f), nc[ix])
                elif k:
                    getattr(F[ix], step)(ncforce=nc[ix])
                else:
                    getattr(F[ix], step)()
            h.true("variables of " + step, set(OUT[step]) == {m for m in got.data_vars if not m.startswith("static")})
            for m in OUT[step]:
                labelled(h, D, F, m, got[m], c)
                labelled(h, D, F, m, getattr(ds, m), c)
            if step == "interpolate_fields":
                stability(h, D, F, got)
            for m in ("kmax", "dz", "maxit", "tol", "npart", "rjac", "scale_height", "cp", "dry_gas_constant", "omega", "planet_radius", "prefactor"):
                h.eq("attribute " + m, got.attrs[m], getattr(next(iter(F.values())), m))
            h.true("class named", got.attrs["protocol"] == cls.__name__)
            h.true("without dataset", getattr(ds, step)(return_dataset=False, **k) is None)
            if k:
                getattr(ds, step)()
                if stand:
                    h.true("no forcing", all(F[ix].calls[-1][1].get("ncforce") is None for ix in F))
        got = ds.compute_ncforce_from_heating_rate(heating_rate=Q)
        R = {}
        for ix in F:
            if stand:
                h.eq("heating given %s" % (ix,), np.asarray(F[ix].calls[-1][1]["heating_rate"]), q[ix])
                R[ix] = F[ix].val("ncforce")
            else:
                R[ix] = F[ix].compute_ncforce_from_heating_rate(heating_rate=q[ix])
        labelled(h, D, F, "ncforce", got, c, R)


def labelled(h, D, F, m, da, c, R=None):
    """every value of the DataArray by its labels"""
    o = next(iter(F.values()))
    north = c["nh"] and m not in GLOBAL and m != "ncforce"
    y = [v for v in D["y"] if v > -1e-9] if north else list(D["y"])
    ax = "kli" if m == "ncforce" else pairs.AXES[m]
    co = {"k": ("height", list(o.height)), "l": ("ylat", y), "i": ("xlon", list(D["x"]))}
    h.true("dimensions of " + m, tuple(da.dims) == D["other"] + tuple(co[a][0] for a in ax) and da.name == m)
    pos = []
    for a in ax:
        n, v = co[a]
        lab = list(np.asarray(da[n].values, dtype=float))
        h.eq("labels %s of %s" % (n, m), sorted(lab), sorted(v))
        pos.append([int(np.argmin(np.abs(np.array(lab) - w))) for w in v])
    for n in D["other"]:
        want = list(D["labels"][n]) if n in D["coords"] else list(range(SIZES[n]))
        h.true("labels %s of %s" % (n, m), sorted(map(str, da[n].values)) == sorted(map(str, want)))
    for ix in F:
        s = da
        for n, i in zip(D["other"], ix):
            s = s.sel({n: D["labels"][n][i]}) if n in D["coords"] else s.isel({n: i})
        h.eq("%s %s" % (m, ix), np.asarray(s.data, dtype=object)[np.ix_(*pos)], R[ix] if R else getattr(F[ix], m))


def stability(h, D, F, got):
    for ix in F:
        s = F[ix].static_stability
        g = got
        for n, i in zip(D["other"], ix):
            g = g.sel({n: D["labels"][n][i]}) if n in D["coords"] else g.isel({n: i})
        if isinstance(s, tuple):
            h.true("stability of both hemispheres", {"static_stability_n", "static_stability_s"} <= set(g.data_vars))
            h.eq("southern stability %s" % (ix,), g["static_stability_s"].data, s[0])
            h.eq("northern stability %s" % (ix,), g["static_stability_n"].data, s[1])
        else:
            h.eq("stability %s" % (ix,), g["static_stability"].data, s)
