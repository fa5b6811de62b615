"""The hemispheric and barotropic 2-D wrappers executed on a symbolic globe; the equivalent-latitude calls fork over
all assignments of values to contour bins; results compared with the profile, bracket and exceedance-integral
definitions of C03/C01 applied to the southern rows and to the mirror image of the northern rows."""
import numpy as np
from checks import C01, C03

BOUNDS = ("globes of 4..7 rows x 1..3 columns, every domain extent up to half the rows (and the default), contour number given or default; per hemisphere "
          "the extreme cells are designated, extreme values symbolic or generic, all others symbolic between them; force, averaged field symbolic; "
          "areas and length elements symmetric about the equator, planet radius given or default")
OUTSIDE = "larger grids; asymmetric grids; domains overlapping at the equator"
RE = 6.378e6


def configs(tier):
    g = [(4, 2, None, None), (5, 2, None, None), (5, 2, 2, 3), (6, 1, None, None), (6, 1, 2, 4), (4, 2, 2, 3)]
    if tier == "thorough":
        g += [(4, 3, None, None), (5, 2, 1, 2), (6, 2, 2, 3), (7, 1, 2, 5), (7, 1, None, 4), (6, 2, None, 2)]
    r = []
    for J, I, ns, n in g:
        for f in ("eqvlat", "bracket", "bracket0", "lwa", "ncforce", "opt00", "opt01", "opt10", "opt11", "theta", "inqref"):
            r.append(dict(name="%s_%dx%d_s%s_n%s" % (f, J, I, ns, n), f=f, J=J, I=I, ns=ns, n=n, max_paths=20000))
    gb = [(3, 2, None, False), (4, 1, None, True), (2, 3, 4, False), (4, 1, 3, True)] + ([(5, 1, None, True), (3, 2, 4, True), (4, 2, 3, False)] if tier == "thorough" else [])
    for J, I, n, part in gb:
        r.append(dict(name="baro_%dx%d_n%s_%d" % (J, I, n, part), f="baro", J=J, I=I, ns=None, n=n, part=part, max_paths=20000))
    r.append(dict(name="baroin_4x3", f="baroin", J=4, I=3, ns=None, n=None))
    for gx in ((0, 1, 2, 0), (2, 1, 1, 2), (1, 2, 0, 1)):
        for f in ("bracket", "opt10", "opt11", "ncforce", "theta"):
            r.append(dict(name="%s_6x1_n4_%d%d%d%d" % ((f,) + gx), f=f, J=6, I=1, ns=3, n=4, gx=gx, max_paths=20000))
    for f in ("bracket", "lwa", "ncforce", "opt11", "theta"):
        r.append(dict(name="%s_integers" % f, f=f, J=6, I=2, ns=None, n=3, intfield=1, gen=3))
    for f in ("baroin", "inqref"):
        r.append(dict(name="%s_integers" % f, f=f, J=4, I=2, ns=None, n=None, ints=("q",)))
    r.append(dict(name="baro_integers", f="baro", J=4, I=2, ns=None, n=3, part=True, intfield=1))
    return r


def globe(h, J, I, ns):
    """southern rows and northern rows with designated extremes, rows in between free"""
    free = (J * I) < 8
    es, en = (0, ns * I - 1), (min(1, ns * I - 2), 0 if ns * I > 1 and min(1, ns * I - 2) else ns * I - 1)
    if "gx" in h.cfg:
        es, en = h.cfg["gx"][:2], h.cfg["gx"][2:]
    s, ms, Ds = C03.field(h, "qs", ns, I, es[0], es[1], free)
    n, mn, Dn = C03.field(h, "qn", ns, I, en[0], en[1], free)
    mid = J - 2 * ns
    q = np.empty((J, I), dtype=object)
    q[:ns] = s
    q[J - ns:] = n
    if mid:
        q[ns:J - ns] = h.arr("qm", (mid, I), -2, 2)
    if h.cfg.get("intfield"):
        return h.lay(q.astype(int)), (ms, Ds), (mn, Dn)
    return h.mk(q), (ms, Ds), (mn, Dn)


def sym_area(h, J, I, a):
    w = np.array(h.generic("area", (J, I), 0.5, 1.5))
    w = w + w[::-1]
    return w / w.sum() * 4 * np.pi * a ** 2


def run(h, c):
    J, I, n = c["J"], c["I"], c["n"]
    W = h.pkg.wrapper
    y = np.linspace(-86, 86, J)
    dmu = h.generic("dmu", (J,), 0.3, 2)
    dmu = dmu + dmu[::-1]
    a = 1.3 if n else RE
    kr = {"planet_radius": a} if n else {}
    area = sym_area(h, J, I, a)
    if c["f"] not in ("bracket0", "opt00"):
        oq, oa = h.generic("oq", (J, I), -3, 3), sym_area(h, J, I, 2.0)[:, ::-1]    # other data first
        k2 = {k: c[x] for k, x in (("nlat_s", "ns"), ("n_points", "n")) if c[x]}
        W.barotropic_eqlat_lwa(y, oq, oa, dmu[::-1] + 0.1, n, planet_radius=2.0)
        W.qgpv_eqlat_lwa_options(y, oq, oa, dmu + 0.1, vgrad=-oq, ncforce=oq * 0.5, planet_radius=2.0, **k2)
        W.theta_lwa(y, oq, oa, dmu + 0.1, planet_radius=2.0, **k2)
    if c["f"] == "baroin":
        q, ref = h.arr("q", (J, I), -2, 2), h.arr("Q", (J,), -2, 2)
        nn, ss, _ = C01.spec(q, ref, dmu)
        h.eq("lwa", W.barotropic_input_qref_to_compute_lwa(y, ref, q, area, dmu), nn + ss)
        return
    if c["f"] == "inqref":
        q, ref = h.arr("q", (J, I), -2, 2), h.arr("Q", (J,), -2, 2)
        ns = c["ns"] or J // 2
        kw = {"nlat_s": c["ns"]} if c["ns"] else {}
        L = W.qgpv_input_qref_to_compute_lwa(y, ref, q, area, dmu, **kw)
        sp = np.zeros((J, I), dtype=object)
        for sl in (slice(0, ns), slice(J - ns, J)):
            nn, ss, _ = C01.spec(q[sl], ref[sl], dmu[sl])
            sp[sl] = nn + ss
        h.eq("lwa", L, sp)
        return
    if c["f"] == "baro":
        q, m, D = C03.field(h, "q", J, I, 1, J * I - 1, J * I < 8)
        with h.eager("basis.eqvlat_fawa"):
            Q, L = W.barotropic_eqlat_lwa(y, q, area, dmu, n, return_partitioned_lwa=c["part"], **kr)
        sp, _ = C03.profile(y, q, area, m, m + D, n or J, a)
        h.eq("qref", Q, sp)
        nn, ss, _ = C01.spec(q, Q, dmu)
        if c["part"]:
            h.eq("anticyclonic", L[0], nn)
            h.eq("cyclonic", L[1], ss)
        else:
            h.eq("lwa", L, nn + ss)
        return
    ns = c["ns"] or J // 2
    npt = n or ns
    q, (ms, Ds), (mn, Dn) = globe(h, J, I, ns)
    keep = np.array(q)
    kw = dict(kr)
    if c["ns"]:
        kw["nlat_s"] = c["ns"]
    if n:
        kw["n_points"] = n
    f = c["f"]
    vg = h.arr("vg", (J, I), -2, 2) if f in ("bracket", "opt10", "opt11") else None
    nc = h.arr("nc", (J, I), -2, 2) if f in ("ncforce", "opt01", "opt11") else None
    B = L = S = None
    with h.eager("basis.eqvlat_fawa", "basis.eqvlat_vgrad"):
        if f == "eqvlat":
            Q = W.eqvlat_hemispheric(y, q, area, **kw)
        elif f == "bracket":
            Q, B = W.eqvlat_bracket_hemispheric(y, q, area, vgrad=vg, **kw)
        elif f == "bracket0":
            Q, B = W.eqvlat_bracket_hemispheric(y, q, area, **kw)
            h.true("no bracket", B is None)
        elif f == "lwa":
            Q, L = W.qgpv_eqlat_lwa(y, q, area, dmu, **kw)
        elif f == "ncforce":
            Q, L, S = W.qgpv_eqlat_lwa_ncforce(y, q, nc, area, dmu, **kw)
        elif f == "theta":
            Q, L = W.theta_lwa(y, q, area, dmu, **kw)
        else:
            o = {}
            if vg is not None:
                o["vgrad"] = vg
            if nc is not None:
                o["ncforce"] = nc
            d = W.qgpv_eqlat_lwa_options(y, q, area, dmu, **o, **kw)
            h.true("outputs", sorted(d) == sorted(["qref", "lwa_result"] + (["brac_result"] if vg is not None else []) + (["capsigma"] if nc is not None else [])))
            Q, L, B, S = d["qref"], d["lwa_result"], d.get("brac_result"), d.get("capsigma")
    south, north = slice(0, ns), slice(J - ns, J)
    sg = 1.0 if f == "theta" else -1.0
    qs, qn = q[south], sg * q[north][::-1]
    Qs, Bs = C03.profile(y[:ns], qs, area[:ns], ms, ms + Ds, npt, a, None if vg is None else vg[south])
    Qn, Bn = C03.profile(y[:ns], qn, area[:ns], mn if sg > 0 else -(mn + Dn), mn + Dn if sg > 0 else -mn, npt, a, None if vg is None else -vg[north][::-1])
    sp = np.zeros((J,), dtype=object)
    sp[south] = Qs
    sp[north] = [sg * x for x in Qn[::-1]]
    h.eq("qref", Q, sp)
    if vg is not None:
        sb = np.zeros((J,), dtype=object)
        sb[south] = Bs
        sb[north] = [-x for x in Bn[::-1]]
        h.eq("bracket", B, sb)
    if L is not None:
        sl, sf = np.zeros((J, I), dtype=object), np.zeros((J, I), dtype=object)
        for rows in (south, north):
            if f == "theta" and rows is north:
                a1, a2, _ = C01.spec(qn, Q[north][::-1], dmu[:ns])
                sl[rows] = (a1 + a2)[::-1]
            else:
                a1, a2, ff = C01.spec(q[rows], Q[rows], dmu[rows], None if nc is None else nc[rows])
                sl[rows], sf[rows] = a1 + a2, ff
        h.eq("lwa", L, sl)
        if S is not None:
            h.eq("capsigma", S, sf)
    h.eq("input unchanged", q, keep)
