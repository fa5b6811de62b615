"""BarotropicField executed on a symbolic field for every combination of optional arguments and several access
orders; equivalent latitudes and wave activity compared with the C03/C01 definitions on the sphere metric."""
import math
import numpy as np
from checks import C01, C03

BOUNDS = ("fields of up to 3x2, 4x1, 2x3, 5x1 (thorough 4x2, 6x1) with designated extremes, extreme values symbolic or generic and all others symbolic; "
          "area, latitude increments, partition count, radius, partitioning given or omitted; six access orders")
OUTSIDE = "larger grids; irregular default metrics"
RE = 6.378e6


def configs(tier):
    g = [(3, 2, None), (4, 1, 3), (5, 1, None), (2, 3, 3)] + ([(4, 2, 3), (6, 1, 4), (3, 3, 2)] if tier == "thorough" else [])
    r = []
    for J, I, n in g:
        for area in (0, 1):
            for dphi in (0, 1):
                for part in (0, 1):
                    order = ["el", "le", "lel", "ele", "ll", "lle"][(area * 4 + dphi * 2 + part + J) % 6]
                    r.append(dict(name="b%dx%d_n%s_a%d_d%d_p%d_%s" % (J, I, n, area, dphi, part, order), J=J, I=I, n=n, area=area, dphi=dphi, part=part, order=order, max_paths=20000))
    for part in (0, 1):
        r.append(dict(name="integer_coordinates_p%d" % part, J=5, I=1, n=3, area=0, dphi=0, part=part, order="el", icoord=1, max_paths=20000))
        r.append(dict(name="integers_p%d" % part, J=5, I=3, n=4, area=part, dphi=0, part=part, order="le", icoord=1, intfield=1))
    return r


def run(h, c):
    J, I = c["J"], c["I"]
    y = np.linspace(-90, 90, J) if J > 2 else np.array([-75.0, 74.0])
    x = np.arange(I) * 360.0 / I
    if c.get("icoord"):
        x, y = np.round(x).astype(int), np.round(y).astype(int)
    a = 2.3 if c["n"] else RE
    kw = {"planet_radius": a} if c["n"] else {}
    if c["n"]:
        kw["n_partitions"] = c["n"]
    dphi = math.pi / (J - 1) * np.ones(J)
    if c["dphi"]:
        dphi = h.generic("dphi", (J,), 0.8, 1.2)
        dphi = dphi / dphi.sum() * math.pi * 0.8
        kw["dphi"] = dphi
    area = np.array([[2 * math.pi * a ** 2 * math.cos(math.radians(y[j])) * dphi[j] / I for i in range(I)] for j in range(J)])
    if c["area"]:
        area = h.generic("area", (J, I), 0.5, 1.5)
        area = area / area.sum() * 4 * math.pi * a ** 2
        kw["area"] = area
    q, m, D = C03.field(h, "q", J, I, J * I - 2, 1 if J * I > 3 else 0, J * I < 6)
    keep = np.array(q)
    if c["part"]:
        kw["return_partitioned_lwa"] = True
    B = h.pkg.barotropic_field.BarotropicField
    with h.eager("basis.eqvlat_fawa", "basis.eqvlat_vgrad"):
        o2 = B(x, y, pv_field=h.generic("other", (J, I), -3, 3), n_partitions=J, planet_radius=1.7)     # another object
        o2.lwa
        o = B(x, y, pv_field=q, **kw)
        o2.equivalent_latitudes
        got = [(s, o.equivalent_latitudes if s == "e" else o.lwa) for s in c["order"]]
        if "e" not in c["order"]:
            got.append(("e", o.equivalent_latitudes))
    sp, _ = C03.profile(y, q, area, m, m + D, c["n"] or J, a)
    Q = [v for s, v in got if s == "e"][0]
    dmu = [a * abs(math.cos(math.radians(y[j]))) * dphi[j] for j in range(J)]
    nn, ss, _ = C01.spec(q, Q, dmu)
    for k, (s, v) in enumerate(got):
        if s == "e":
            h.eq("eqvlat%d" % k, v, sp)
        elif c["part"]:
            h.eq("anticyclonic%d" % k, v[0], nn)
            h.eq("cyclonic%d" % k, v[1], ss)
        else:
            h.eq("lwa%d" % k, v, nn + ss)
    h.eq("input unchanged", q, keep)
