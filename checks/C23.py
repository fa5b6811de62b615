"""The storage classes of data_storage.py executed on symbolic arrays: every hemispheric property is written and read
back (that hemisphere, the other one, the globe) in both modes and several orders."""
import math
import numpy as np

BOUNDS = "grids of 5, 7 (thorough 9) latitudes, 2 longitudes, 2 levels; writes of half, half + equator and shorter blocks; all values symbolic; ordinary size: 21 (thorough 61) latitudes"
OUTSIDE = "other sizes"


def configs(tier):
    r = []
    for nlat in (5, 7, 21) + ((9, 11, 61) if tier == "thorough" else ()):
        for nh in (0, 1):
            for cls in ("ReferenceStatesStorage", "LayerwiseFluxTermsStorage", "BarotropicFluxTermsStorage"):
                r.append(dict(name="%s_%d_nh%d" % (cls[:9], nlat, nh), cls=cls, nlat=nlat, nh=nh))
    return r


def fields(cls):
    n = []
    for k in dir(cls):
        if k.endswith("_nhem") and k[:-5] + "_shem" in dir(cls):
            n.append(k[:-5])
    return n


NAMES = {
    "ReferenceStatesStorage": ["qref", "uref", "ptref"],
    "LayerwiseFluxTermsStorage": ["lwa", "astar1", "astar2", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term", "ncforce"],
    "BarotropicFluxTermsStorage": ["ua1baro", "ua2baro", "ep1baro", "ep2baro", "ep3baro", "ep4", "ncforce_baro", "u_baro", "lwa_baro", "astar1_baro", "astar2_baro"],
}
K, I = 2, 2


def make(h, cls, nlat, nh):
    D = h.pkg.data_storage
    n = nlat // 2 + 1 if nh else nlat
    if cls == "ReferenceStatesStorage":
        return getattr(D, cls)(pydim=(K, n), fdim=(n, K), swapaxis_1=0, swapaxis_2=1, northern_hemisphere_results_only=bool(nh)), lambda j: (j, K), 0, n
    if cls == "LayerwiseFluxTermsStorage":
        return getattr(D, cls)(pydim=(K, n, I), fdim=(I, n, K), swapaxis_1=0, swapaxis_2=2, northern_hemisphere_results_only=bool(nh)), lambda j: (I, j, K), 1, n
    return getattr(D, cls)(pydim=(n, I), fdim=(I, n), swapaxis_1=0, swapaxis_2=1, northern_hemisphere_results_only=bool(nh)), lambda j: (I, j), 1, n


def run(h, c):
    nlat, nh = c["nlat"], c["nh"]
    st, shp, ax, n = make(h, c["cls"], nlat, nh)
    half = nlat // 2
    full = half + 1
    D = h.pkg.data_storage
    rows = lambda a, s: a[(slice(None),) * ax + (s,)]
    for f in NAMES[c["cls"]]:
        g0 = h.arr(f + ".g", shp(n), -2, 2)
        getattr(st, f)[...] = g0
        for m in (full, half, 1):
            x = h.arr("%s.n%d" % (f, m), shp(m), -2, 2)
            before = np.array(getattr(st, f))
            kx = np.array(x)
            setattr(st, f + "_nhem", x)
            g = getattr(st, f)
            h.eq("%s north written %d" % (f, m), rows(g, slice(n - m, n)), x)
            h.eq("%s rest kept %d" % (f, m), rows(g, slice(0, n - m)), rows(before, slice(0, n - m)))
            h.eq("%s north read %d" % (f, m), getattr(st, f + "_nhem"), rows(g, slice(n - full, n)))
            h.eq("%s input unchanged %d" % (f, m), x, kx)
            y = h.arr("%s.s%d" % (f, m), shp(m), -2, 2)
            if nh:
                h.raises("%s no southern write %d" % (f, m), D.InvalidCallOfSHemVariables, setattr, st, f + "_shem", y)
                h.raises("%s no southern read %d" % (f, m), D.InvalidCallOfSHemVariables, getattr, st, f + "_shem")
                h.eq("%s untouched %d" % (f, m), getattr(st, f), g)
                continue
            before = np.array(getattr(st, f))
            setattr(st, f + "_shem", y)
            g = getattr(st, f)
            h.eq("%s south written %d" % (f, m), rows(g, slice(0, m)), rows(y, slice(None, None, -1)))
            h.eq("%s rest kept s%d" % (f, m), rows(g, slice(m, n)), rows(before, slice(m, n)))
            h.eq("%s south read %d" % (f, m), getattr(st, f + "_shem"), rows(g, slice(0, full)))
    # separate objects, separate memory; axis order
    s2, _, _, _ = make(h, c["cls"], nlat, nh)
    f = NAMES[c["cls"]][0]
    h.eq("fresh storage", getattr(s2, f), np.zeros(shp(n)))
    g = getattr(st, f)
    t = np.swapaxes(g, 0, -1)
    h.eq("python order", st.fortran_to_python(g), t)
    h.eq("round trip", st.python_to_fortran(st.fortran_to_python(g)), g)
    if c["cls"] == "ReferenceStatesStorage":
        om = h.num("omega", 0.5, 2)
        lat = np.linspace(-90, 90, nlat)[-n:]
        sp = np.empty((n, K), dtype=object)
        for j in range(n):
            for k in range(K):
                sp[j, k] = st.qref[j, k] * 2 * om * math.sin(math.radians(lat[j]))
        keep = np.array(st.qref)
        h.eq("physical qref", st.qref_correct_unit(lat, om), sp.T)
        h.eq("physical qref fortran", st.qref_correct_unit(lat, om, python_indexing=False), sp)
        h.eq("stored unchanged", st.qref, keep)
