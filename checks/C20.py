"""Both 3-D classes driven through a symbolic sequence of calls (each call selected by a solver variable, execution forked
over its values) on partly symbolic fields and kernel results: which calls and properties raise, the values of the results
against those of a straight run of another object on the same data, with a third object on other data run in between."""
import numpy as np
from checks import qg

BOUNDS = "every sequence of up to 3 of the 6 calls (interpolate, reference states, wave activity only, layerwise fluxes, barotropic fluxes with and without forcing) from a fresh object, and of 2 calls (3 thorough) after the reference states; grids of 5x3x4 points (even: 4x3x4); converged and non-converged reference states; some winds, PV values and reference PV values symbolic"
OUTSIDE = "longer sequences; concurrent use of one object from several threads"
ASSUME = ["the PV and reference-state kernels return arbitrary finite values (their own contracts: C08, C10-C12)"]
KERNELS = ["compute_flux_dirinv", "compute_lwa_only_nhn22"]

ACTS = ["interpolate_fields", "compute_reference_states", "compute_lwa_only", "compute_layerwise_lwa_fluxes", "compute_lwa_and_barotropic_fluxes",
        "compute_lwa_and_barotropic_fluxes without forcing"]
PROPS = {
    "I": ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "static_stability"],
    "R": ["qref", "uref", "ptref"],
    "L": ["lwa"],
    "B": ["lwa_baro", "u_baro"],
    "Y": ["ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term", "layerwise_flux_terms_storage"],
    "F": ["adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux",
          "flux_vector_lambda_baro", "flux_vector_phi_baro", "ncforce_baro"],
}


def configs(tier):
    r = []
    for cls in ("NH18", "NHN22"):
        for nh in (0, 1):
            for pre, n in (("", 3), ("01", 2 if tier == "quick" else 3)):
                r.append(dict(name="%s_nh%d_after%s" % (cls, nh, pre), cls=cls, nh=nh, J=5, pre=pre, n=n, bad="", err=False))
        r.append(dict(name="%s_even" % cls, cls=cls, nh=0, J=4, pre="01", n=2, bad="", err=False))
    for bad, err in (("n", 0), ("s", 0), ("ns", 0), ("s", 1), ("n", 1)):
        r.append(dict(name="NH18_nonconvergent_%s_%s" % (bad, "error" if err else "warning"), cls="NH18", nh=0, J=5, pre="0" if tier == "quick" else "",
                      n=2 if tier == "quick" else 3, bad=bad, err=bool(err)))
    return r


def seq(x):
    """list of arrays in a property's value"""
    if isinstance(x, tuple):
        return list(x)
    if type(x).__name__ == "LayerwiseFluxTermsStorage":
        return [getattr(x, n) for n in ("lwa", "astar1", "astar2", "ncforce", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term")]
    return [x]


def snap(h, x):
    return [h.mk(np.array(v, dtype=object)) for v in seq(x)]


def step(o, a, nc):
    if a == 0:
        return o.interpolate_fields()
    if a == 1:
        return o.compute_reference_states()
    if a == 2:
        return o.compute_lwa_only()
    if a == 3:
        return o.compute_layerwise_lwa_fluxes(ncforce=nc)
    if a == 4:
        return o.compute_lwa_and_barotropic_fluxes(ncforce=nc)
    return o.compute_lwa_and_barotropic_fluxes()


def run(h, c):
    qg.stub_ranges()
    kw = {}
    if c["cls"] == "NH18":
        kw = dict(maxit=50, raise_error_for_nonconvergence=c["err"])
    J = c["J"]
    spot = lambda n, ix: ix[0] == 1 and ix[2] == 1
    mk = lambda u=None: qg.make(h, c["cls"], J, 3, 4, nh=c["nh"], jb=0, sym="u", poles=False, cells=spot, u=u, **kw)
    straight, d = mk()
    K, JJ, I = d["K"], d["J"], d["nlon"]
    fields = (d["u"], d["v"], d["t"])
    nc = h.mk(h.generic("nc", (K, J, I), -1, 1).astype(object))
    other = [h.mk(x) for x in (h.generic("ou", (4, J, 3), -1, 1), h.generic("ov", (4, J, 3), -1, 1))]
    hems = "n" if c["nh"] else "ns"

    def plug(tag, scale):
        P = {"pv": h.mk(h.generic(tag + "pv", (I, JJ, K), -scale, scale).astype(object)), "avort": h.mk(h.generic(tag + "av", (I, JJ, K), -1, 1).astype(object))}
        p = np.array(P["pv"], dtype=object)
        for j in range(JJ):
            p[1, j, 1] = p[1, j, 1] + h.num("%spv%d" % (tag, j), -0.1, 0.1)
        P["pv"] = h.mk(p)
        for e in hems:
            q = h.generic(tag + "q" + e, (d["nd"], K), -scale, scale).astype(object)
            q[1, 1] = q[1, 1] + h.num("%sq%s" % (tag, e), -0.2, 0.2)
            P["q" + e] = h.mk(q)
            P["u" + e] = h.mk(h.generic(tag + "u" + e, (d["nd"], K), -1, 1))
            P["t" + e] = h.mk(h.generic(tag + "t" + e, (d["nd"], K), 2, 5))
        return P
    P, PO = plug("", 0.5), plug("o", 0.4)
    good = {}
    with qg.plugged(h, d, P):
        for a in (0, 1, 2):
            step(straight, a, nc)
        short = {n: snap(h, getattr(straight, n)) for n in PROPS["L"] + PROPS["B"]}
        for a in (3, 4):
            step(straight, a, nc)
        for ns in PROPS.values():
            for n in ns:
                good[n] = snap(h, getattr(straight, n))
        step(straight, 5, nc)
        zero = snap(h, straight.ncforce_baro)
    for x in zero:
        h.eq("no forcing", x, 0.0)
    before = [h.mk(np.array(x, dtype=object)) for x in fields + (nc, d["x"], d["y"], d["p"])]
    o, _ = mk(fields)
    o2, d2 = mk((other[0], other[1], d["t"]))
    h.true("reference states of fresh object", not o.nonconvergent_uref)
    acts = [int(a) for a in c["pre"]]
    for i in range(c["n"]):
        s = h.num("call %d" % i, 0, len(ACTS))
        for a in range(len(ACTS)):
            if a == len(ACTS) - 1 or s < a + 1:
                break
        acts.append(a)
    done, ok = set(), []
    bad = bool(c["bad"])
    forced = None
    kept = []
    with qg.plugged(h, d, P, iters={e: 51 for e in c["bad"]}):
        for n, a in enumerate(acts):
            label = "%s as call %d" % (ACTS[a], n)
            if a == 0:
                need = True
            elif a == 1:
                need = "I" in done and not (bad and c["err"])
            elif a == 2:
                need = "R" in done
            else:
                need = "R" in done and not bad
            if need:
                r = h.returns(label, step, o, a, nc)
                if a != 2 and a != 3 and hasattr(r, "_fields"):
                    kept.append((label, [(f, getattr(r, f), snap(h, getattr(r, f))) for f in r._fields]))
                done |= {0: {"I"}, 1: {"R"}, 2: {"L", "B"}, 3: {"L", "Y"}}.get(a, {"L", "B", "F"})
                ok.append(a)
                if a > 3:
                    forced = a == 4
            else:
                h.raises(label + " refused", Exception, step, o, a, nc)
    with qg.plugged(h, d2, PO):
        for a in (0, 1, 2, 3, 4):
            step(o2, a, nc)
    for grp, ns in PROPS.items():
        for n in ns:
            if grp not in done and n.endswith("_storage"):
                continue                    # the container itself; also holds what compute_lwa_only stored
            if grp not in done:
                h.raises(n + " refused", Exception, getattr, o, n)
                continue
            v = h.tryto(getattr, o, n)
            w = good[n] if n != "ncforce_baro" or forced else zero
            if grp == "B" and [a for a in ok if a in (2, 4, 5)][-1] == 2:
                w = short[n]            # rows it does not define: C18
            if hasattr(v, "exc"):
                h.fail(n, repr(v))
                continue
            for i, (x, y) in enumerate(zip(seq(v), w)):
                h.eq("%s.%d" % (n, i) if len(w) > 1 else n, x, y)
    for label, fs in kept:
        for f, x, y in fs:
            if f == "u_baro" and 2 in ok:
                continue                    # rows compute_lwa_only does not define: C18
            for p, q in zip(seq(x), y):
                h.eq("%s returned by %s" % (f, label), p, q)
    for n, x, y in zip(("u", "v", "t", "forcing", "longitudes", "latitudes", "levels"), fields + (nc, d["x"], d["y"], d["p"]), before):
        h.eq("caller's " + n, x, y)
