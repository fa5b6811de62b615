"""Construction of the analysis objects: symbolic coordinate vectors (which are rejected), shapes, masked arrays, and the
grids and constants derived from symbolic spacings and parameters."""
import math
import numpy as np
from checks import qg

BOUNDS = "both classes (and the alias QGField); 4-5 pressure levels and 4-7 latitudes with symbolic values in strictly ascending or descending order, number of pseudoheight levels below or above the reach of the data (decided symbolically); level data evenly spaced or not; symbolic latitude spacing; symbolic scale height and level spacing for the derived heights and normalisation; every single wrong dimension of every field; parameters omitted or given by position; masked u, v, T and latitudes with symbolic data and a mix of masked elements"
OUTSIDE = "coordinate vectors that are not monotone; latitudes that are not evenly spaced; even latitude counts with a row on the equator; a top level within 1e-9 of the last pseudoheight"
ASSUME = qg.ASSUME
P0 = 1000.0


def configs(tier):
    r = []
    t = tier == "thorough"
    for cls in ("NH18", "NHN22"):
        for order in ("descending", "ascending"):
            for ev in (False, True):
                for kmax, dz in [(4, 1.1), (2, 3.0)] + ([(7, 0.6), (12, 0.25)] if t else []):
                    r.append(dict(name="%s_plev_%s_%s_%d" % (cls, order, "even" if ev else "interpolated", kmax), kind="plev", cls=cls, order=order, ev=ev, kmax=kmax, dz=dz))
        for order in ("descending", "ascending"):
            for n in (4, 5, 6, 7):
                r.append(dict(name="%s_ylat_%s_%d" % (cls, order, n), kind="ylat", cls=cls, order=order, n=n))
        for n in (5, 7):
            r.append(dict(name="%s_no_equator_%d" % (cls, n), kind="noeq", cls=cls, n=n))
        for n in (4, 5):
            r.append(dict(name="%s_shapes_%d" % (cls, n), kind="shapes", cls=cls, n=n))
            for m in ("u", "v", "t", "y", "uvty"):
                r.append(dict(name="%s_masked_%s_%d" % (cls, m, n), kind="masked", cls=cls, n=n, m=m))
        for n, I in [(5, 3), (4, 4), (7, 5), (10, 6)]:
            for ev in (False, True):
                r.append(dict(name="%s_derived_%dx%d_%s" % (cls, n, I, "even" if ev else "interpolated"), kind="derived", cls=cls, n=n, I=I, ev=ev))
    for cls in ("NH18", "NHN22", ""):
        for n in (15, 16):
            r.append(dict(name="QGField%s_defaults_%d" % (cls, n), kind="defaults", cls=cls, n=n))
    r.append(dict(name="alias", kind="alias", cls="NH18"))
    return r


def build(h, c, x, y, p, f=None, **k):
    K, J, I = len(p), len(y), len(x)
    f = f or [h.generic(n, (K, J, I), -1, 1) + 3 for n in "uvt"]
    return getattr(h.pkg.oopinterface, "QGField" + c["cls"])(x, y, p, f[0], f[1], f[2], **dict(qg.PAR, **k))


def lon(I):
    return np.arange(I) * 360.0 / I


def steps(h, n, first, lo, hi):
    """strictly ascending values (symbolic)"""
    v = [h.num("first", *first)]
    for k in range(n - 1):
        v.append(v[-1] + h.num("step%d" % k, lo, hi))
    return v


def plev(h, c):
    v = steps(h, 4, (20.0, 200.0), 5.0, 250.0)
    p = h.mk(np.array(v if c["order"] == "ascending" else v[::-1], dtype=object))
    kw = dict(data_on_evenly_spaced_pseudoheight_grid=True) if c["ev"] else dict(kmax=c["kmax"], dz=c["dz"])
    f = lambda: build(h, c, lon(3), qg.lats(5), p, **kw)
    if c["order"] == "ascending":
        h.raises("ascending pressure", TypeError, f)
        return
    if not c["ev"] and bool(p[-1] > P0 * math.exp(-(c["kmax"] - 1) * c["dz"] / qg.PAR["scale_height"])):
        h.raises("levels beyond the data", ValueError, f)
        return
    o = h.returns("valid levels", f)
    H = qg.PAR["scale_height"]
    h.eq("plev", o.plev, p)
    if c["ev"]:
        z = [-H * h.np.log(x / P0) for x in p]
        h.eq("kmax", o.kmax, 4)
        h.eq("height", o.height, z)
        h.eq("dz", o.dz, z[1] - z[0])
    else:
        h.eq("kmax", o.kmax, c["kmax"])
        h.eq("height", o.height, [c["dz"] * k for k in range(c["kmax"])])
        h.eq("dz", o.dz, c["dz"])


def ylat(h, c):
    n = c["n"]
    z = qg.DZ * np.arange(4)
    p = P0 * np.exp(-z / qg.PAR["scale_height"])
    kw = dict(data_on_evenly_spaced_pseudoheight_grid=True)
    s = h.num("spacing", 10.0, 180.0 / n)
    if c["order"] == "descending":
        y = h.mk(np.array([s * (0.5 * (n - 1) - j) for j in range(n)], dtype=object))
        h.raises("descending latitudes", TypeError, lambda: build(h, c, lon(3), y, p, **kw))
        return
    if n % 2:
        y = h.mk(np.array([s * (j - n // 2) for j in range(n)], dtype=object))
        o = h.returns("ascending latitudes", lambda: build(h, c, lon(3), y, p, **kw))
        h.eq("latitudes", o.ylat, y)
        h.eq("analysis grid size", o.dphi, math.pi / (n - 1))
        h.true("no interpolation", not o.need_latitude_interpolation)
    else:
        for y in (qg.lats(n), qg.lats(n, False)):
            o = h.returns("ascending latitudes", lambda: build(h, c, lon(3), y, p, **kw))
            h.eq("latitudes", o.ylat, y)
            h.eq("analysis grid size", o.dphi, math.pi / n)
            h.true("interpolation", o.need_latitude_interpolation)


def noeq(h, c):
    n = c["n"]
    s = h.num("spacing", 10.0, 120.0 / n)
    d = h.num("offset", 1.0, 9.0)
    y = h.mk(np.array([s * (j - n // 2) + d for j in range(n)], dtype=object))
    p = P0 * np.exp(-qg.DZ * np.arange(4) / qg.PAR["scale_height"])
    h.raises("odd count without equator", TypeError, lambda: build(h, c, lon(3), y, p, data_on_evenly_spaced_pseudoheight_grid=True))


def shapes(h, c):
    n = c["n"]
    z = qg.DZ * np.arange(4)
    p = P0 * np.exp(-z / qg.PAR["scale_height"])
    good = (4, n, 3)
    wrong = [(K, J, I) for K in (1, 3, 4, 5) for J in (1, n - 1, n, n + 1) for I in (1, 2, 3, 4) if (K, J, I) != good]
    wrong += [(n, 3), (4, n), (3,), (), (1, 4, n, 3), (4, n, 3, 1), (3, n, 4), (4, 3, n)]
    for ev in (True, False):
        kw = dict(data_on_evenly_spaced_pseudoheight_grid=True) if ev else dict(kmax=4, dz=0.4)
        h.returns("matching shapes", lambda: build(h, c, lon(3), qg.lats(n), p, **kw))
        for w in range(3):
            for s in wrong:
                f = [h.generic(m, s if i == w else good, -1, 1) + 3 for i, m in enumerate("uvt")]
                h.raises("%s of shape %s" % ("uvt"[w], s), (TypeError, ValueError), lambda: build(h, c, lon(3), qg.lats(n), p, f, **kw))


def masked(h, c):
    qg.stub_ranges()
    o, d = qg.make(h, c["cls"], c["n"], 3, 4)
    f = {k: d[k] for k in "uvt"}
    y = d["y"]
    for k in "uvt":
        if k in c["m"]:
            m = np.zeros(np.shape(f[k]), dtype=bool)
            if k != "v":
                m[::2, 1, 1:] = True
            f[k] = np.ma.MaskedArray(f[k], mask=m)
    if "y" in c["m"]:
        y = np.ma.MaskedArray(y, mask=[False] * len(y) if c["m"] == "y" else [True] + [False] * (len(y) - 1))
    o2 = h.returns("masked input", lambda: getattr(h.pkg.oopinterface, "QGField" + c["cls"])(d["x"], y, d["p"], f["u"], f["v"], f["t"], **d["kw"]))
    h.eq("latitudes", o2.ylat, d["y"])
    for k in ("u_field", "v_field", "theta_field"):
        h.true(k + " plain", not isinstance(getattr(o2, k), np.ma.MaskedArray))
        h.eq(k, getattr(o2, k), getattr(o, k))
    o.interpolate_fields(return_named_tuple=False)
    o2.interpolate_fields(return_named_tuple=False)
    for k in ("qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"):
        h.eq(k, getattr(o2, k), getattr(o, k))


def derived(h, c):
    n, I = c["n"], c["I"]
    H = h.num("scale_height", 0.8, 2.0)
    dz = h.num("dz", 0.3, 0.6)
    K, kmax = 5, 6
    kap = qg.PAR["dry_gas_constant"] / qg.PAR["cp"]
    y = qg.lats(n, False)
    if c["ev"]:
        p = P0 * np.exp(-0.4 * np.arange(K))
        kw = dict(data_on_evenly_spaced_pseudoheight_grid=True)
        kmax, dz = K, H * 0.4
    else:
        p = np.array([990.0, 700.0, 400.0, 100.0, 5.0])
        kw = dict(kmax=kmax, dz=dz)
    f = [h.generic(m, (K, n, I), -1, 1) + 3 for m in "uvt"]
    more = dict(maxit=123, tol=0.037, rjac=0.91, cp=3.7, dry_gas_constant=1.3, omega=0.63, planet_radius=1.9)
    A = n + 1 - n % 2
    for nh in (False, True):
        for npart in (None, 17):
            k2 = dict(kw, scale_height=H, northern_hemisphere_results_only=nh, **more)
            if npart:
                k2["npart"] = npart
            jb = 0
            if c["cls"] == "NHN22":
                jb = k2["eq_boundary_index"] = 1
            o = h.returns("construction", lambda: build(h, c, lon(I), y, p, f, **k2))
            for m in more:
                h.eq(m, getattr(o, m), more[m])
            h.eq("scale height", o.scale_height, H)
            h.eq("partitions", o.npart, npart or A)
            h.eq("latitude spacing", o.dphi, math.pi / (A - 1))
            h.eq("longitude spacing", o.dlambda, 2 * math.pi / I)
            h.eq("number of levels", o.kmax, kmax)
            h.eq("level spacing", o.dz, dz)
            h.eq("heights", o.height, [dz * i for i in range(kmax)])
            s = 0.0
            for i in range(1, kmax - 1):
                s = s + (h.np.exp(-i * dz / H) if not c["ev"] else math.exp(-0.4 * i)) * dz
            h.eq("normalisation", o.prefactor, s)
            h.eq("hemisphere rows", o.equator_idx, A // 2 + 1)
            h.eq("rows solved for", o.jd, A // 2 + 1 - jb)
            h.eq("boundary index", o.eq_boundary_index, jb)
            h.eq("reference latitudes", o.ylat_ref_states, [v for v in y if v > -1e-9] if nh else y)
            full = np.linspace(-90, 90, A) if n % 2 == 0 else y
            h.eq("analysis latitudes", o.ylat_ref_states_analysis, full[full > -1e-9] if nh else full)
            h.true("option", o.northern_hemisphere_results_only == nh)
            th = np.array([[[f[2][a, b, i] for i in range(I)] for b in range(n)] for a in range(K)], dtype=object)
            for a in range(K):
                e = math.log(P0 / p[a]) * more["dry_gas_constant"] / more["cp"]
                th[a] = th[a] * math.exp(e)
            for m, v in (("u_field", f[0]), ("v_field", f[1]), ("theta_field", th)):
                h.eq(m, getattr(o, m), v if n % 2 else qg.lin(y, v, 1, np.linspace(-90, 90, A)))


DEFAULTS = dict(kmax=49, maxit=100000, dz=1000.0, npart=None, tol=1e-5, rjac=0.95, scale_height=7000.0, cp=1004.0, dry_gas_constant=287.0,
                omega=7.29e-5, planet_radius=6.378e6, northern_hemisphere_results_only=False)


def defaults(h, c):
    """parameters omitted, in part or all given by position"""
    n = c["n"]
    A = n + 1 - n % 2
    y = qg.lats(n, False)
    p = np.array([1000.0, 500.0, 100.0, 10.0, 0.9])
    f = [h.arr(m, (5, n, 2), -2, 2) for m in "uvt"]
    cls = getattr(h.pkg.oopinterface, "QGField" + c["cls"])
    other = dict(kmax=40, maxit=77, dz=900.0, npart=31, tol=0.02, rjac=0.9, scale_height=7100.0, cp=1010.0, dry_gas_constant=290.0, omega=6e-5, planet_radius=3e6, northern_hemisphere_results_only=True)
    if c["cls"] == "NHN22":
        other["eq_boundary_index"] = 4
    for given in range(len(other) + 1):
        w = dict(DEFAULTS, eq_boundary_index=5 if c["cls"] == "NHN22" else 0)
        w.update(list(other.items())[:given])
        o = h.returns("construction", lambda: cls(lon(2), y, p, f[0], f[1], f[2], *list(other.values())[:given]))
        label = "%d given: " % given
        w["npart"] = w["npart"] or A
        for m in w:
            h.eq(label + m, getattr(o, m), w[m])
        h.eq(label + "heights", o.height, [w["dz"] * i for i in range(w["kmax"])])
        h.eq(label + "rows solved for", o.jd, A // 2 + 1 - w["eq_boundary_index"])
        if n % 2 and given in (0, 6, 7, 8, 9):
            h.eq(label + "potential temperature", o.theta_field, np.asarray(f[2]) * ((1000.0 / p) ** (w["dry_gas_constant"] / w["cp"]))[:, None, None])


def alias(h, c):
    M = h.pkg.oopinterface
    h.true("QGField is QGFieldNH18", issubclass(M.QGField, M.QGFieldNH18))
    o, d = qg.make(h, "", 5, 3, 4)
    o2, _ = qg.make(h, "NH18", 5, 3, 4, u=(d["u"], d["v"], d["t"]))
    for k in ("u_field", "v_field", "theta_field", "height"):
        h.eq(k, getattr(o, k), getattr(o2, k))
    p = P0 * np.exp(-qg.DZ * np.arange(4) / qg.PAR["scale_height"])
    h.raises("abstract base class", TypeError, lambda: M.QGFieldBase(lon(3), qg.lats(5), p, d["u"], d["v"], d["t"]))


def run(h, c):
    globals()[c["kind"]](h, c)
