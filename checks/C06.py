"""zonal_convergence, meridional_divergence, curl_2d and z_derivative_of_prod executed on symbolic fields
(and symbolic radius and spacings); every element compared with the documented difference formula."""
import numpy as np

BOUNDS = ("grids up to 5x5 (thorough 7x8), kmax up to 5; fields in [-2,2], planet radius and spacings symbolic in [0.5,2]; "
          "cos(latitude) profiles: regular sphere with poles, hemisphere, generic, rows below and at the tolerance; ordinary size: 33x18 (thorough 91x36) points and 20 levels, all values symbolic")
OUTSIDE = "larger grids; single-longitude grids; rounding"


def clats(n):
    lat = np.linspace(-90, 90, n)
    r = {"sphere": np.cos(np.deg2rad(lat)), "hemi": np.cos(np.deg2rad(np.linspace(0, 90, n))),
         "generic": np.cos(np.deg2rad(np.linspace(-71, 64, n)))}
    t = np.cos(np.deg2rad(np.linspace(-80, 80, n))).copy()
    t[n // 2] = 5e-6
    t[0] = 0.02
    r["tiny"] = t
    t2 = r["generic"].copy()
    t2[1] = 2e-5
    r["small"] = t2
    return r


def configs(tier):
    r = []
    g = [(3, 3), (5, 5), (4, 4)] + ([(7, 8), (6, 2), (9, 5)] if tier == "thorough" else [(4, 2)])
    for nlat, nlon in g + [(33, 18)] + ([(91, 36)] if tier == "thorough" else []):
        for k in ("sphere", "hemi", "generic", "tiny", "small"):
            r.append(dict(name="2d_%dx%d_%s" % (nlat, nlon, k), kind="2d", nlat=nlat, nlon=nlon, clat=k))
    for n in ("f", "u", "v"):
        r.append(dict(name="2d_integers_%s" % n, kind="2d", nlat=4, nlon=3, clat="tiny", ints=(n,)))
    for n in ("g", "mult", "decay", "stat_n"):
        r.append(dict(name="zder_integers_%s" % n, kind="z", kmax=4, eq=2, nlon=2, ints=(n,)))
    for kmax, eq, nlon in [(3, 2, 2), (4, 3, 2), (5, 3, 3), (20, 13, 9)] + ([(6, 4, 3), (7, 2, 2)] if tier == "thorough" else []):
        r.append(dict(name="zder_k%d_eq%d_x%d" % (kmax, eq, nlon), kind="z", kmax=kmax, eq=eq, nlon=nlon))
    return r


def spec2d(f, u, v, c, a, dl, dp, tol):
    nlat, nlon = f.shape
    zc, md, cu = (np.zeros((nlat, nlon), dtype=object) for _ in range(3))
    for j in range(nlat):
        for i in range(nlon):
            e, w = (i + 1) % nlon, (i - 1) % nlon
            if abs(c[j]) > tol:
                zc[j, i] = -(f[j, e] - f[j, w]) / (a * c[j] * 2 * dl)
                if 0 < j < nlat - 1:
                    d, s = f[j + 1, i] * c[j + 1] - f[j - 1, i] * c[j - 1], 2
                elif j == 0:
                    d, s = f[1, i] * c[1] - f[0, i] * c[0], 1
                else:
                    d, s = f[j, i] * c[j] - f[j - 1, i] * c[j - 1], 1
                md[j, i] = d / (a * c[j] * s * dp)
            if 0 < j < nlat - 1:
                cu[j, i] = ((v[j, e] - v[j, w]) / (2 * dl) - (u[j + 1, i] * c[j + 1] - u[j - 1, i] * c[j - 1]) / (2 * dp)) / (a * c[j])
    return zc, md, cu


def run(h, c):
    U = h.pkg.utilities
    if c["kind"] == "z":
        K, E, X = c["kmax"], c["eq"], c["nlon"]
        J = 2 * E - 1
        sn, ss = h.arr("stat_n", (K,), 0.2, 2), h.arr("stat_s", (K,), 0.2, 2)
        dz = h.num("dz", 0.5, 2)
        dd = h.arr("decay", (K,), 0.1, 1)
        g = h.arr("g", (K, J, X), -2, 2)
        m = h.arr("mult", (K, J), -2, 2)
        r = U.z_derivative_of_prod(sn, ss, K, E, dz, dd, g, m)
        sp = np.zeros((K, J, X), dtype=object)
        for j in range(J):
            st = [ss[k] if j < E - 1 else (sn[k] if j > E - 1 else 0.5 * (ss[k] + sn[k])) for k in range(K)]
            for i in range(X):
                w = [dd[k] * g[k, j, i] / st[k] for k in range(K)]
                for k in range(K):
                    lo, hi = max(k - 1, 0), min(k + 1, K - 1)
                    sp[k, j, i] = m[k, j] * (w[hi] - w[lo]) / ((hi - lo) * dz)
        h.eq("z_derivative", r, sp)
        return
    nlat, nlon = c["nlat"], c["nlon"]
    cl = clats(nlat)[c["clat"]]
    tol = 1e-5
    f = h.arr("f", (nlat, nlon), -2, 2)
    u, v = h.arr("u", (nlat, nlon), -2, 2), h.arr("v", (nlat, nlon), -2, 2)
    a, dl, dp = h.num("radius", 0.5, 2), h.num("dlambda", 0.5, 2), h.num("dphi", 0.5, 2)
    keep = [np.array(x) for x in (f, u, v)]
    ckeep = cl.copy()
    other = h.generic("other", (nlat, nlon), -3, 3)                                   # other data first
    U.zonal_convergence(other, cl[::-1] + 0.1, 0.7), U.meridional_divergence(other, cl[::-1] + 0.1, 0.7), U.curl_2d(other, other, cl + 0.1, 0.7, 0.6)
    zc, md, cu = spec2d(f, u, v, cl, a, dl, dp, tol)
    h.eq("zonal_convergence", U.zonal_convergence(f, cl, dl, planet_radius=a), zc)
    h.eq("meridional_divergence", U.meridional_divergence(f, cl, dp, planet_radius=a), md)
    zc2, md2, _ = spec2d(f, u, v, cl, a, dl, dp, 0.03)
    h.eq("zonal_convergence tol", U.zonal_convergence(f, cl, dl, planet_radius=a, tol=0.03), zc2)
    h.eq("meridional_divergence tol", U.meridional_divergence(f, cl, dp, planet_radius=a, tol=0.03), md2)
    E = 6.378e6
    h.eq("default radius zonal", U.zonal_convergence(f, cl, dl), spec2d(f, u, v, cl, E, dl, dp, tol)[0])
    h.eq("default radius meridional", U.meridional_divergence(f, cl, dp), spec2d(f, u, v, cl, E, dl, dp, tol)[1])
    if min(cl[1:-1]) > 0:
        h.eq("curl", U.curl_2d(u, v, cl, dl, dp, planet_radius=a), cu)
        h.eq("default radius curl", U.curl_2d(u, v, cl, dl, dp), spec2d(f, u, v, cl, E, dl, dp, tol)[2])
    for p, q, n in zip((f, u, v), keep, "fuv"):
        h.eq("input unchanged " + n, p, q)
    h.eq("clat unchanged", cl, ckeep)
