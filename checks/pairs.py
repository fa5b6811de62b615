"""Runs of two analysis objects on related inputs (C15, C16, C17): every output of both, and the arguments with which the
reference states are requested."""
import numpy as np
from checks import qg

# name -> axes (k level, l latitude, i longitude)
FIRST = {"qgpv": "kli", "interpolated_u": "kli", "interpolated_v": "kli", "interpolated_theta": "kli"}
REFS = {"qref": "kl", "uref": "kl", "ptref": "kl"}
LAYER = {n: "kli" for n in ("ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term")}
STORE = {n: "kli" for n in ("astar1", "astar2", "ncforce")}
BARO = {n: "li" for n in ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux",
                          "meridional_heat_flux", "flux_vector_lambda_baro", "flux_vector_phi_baro", "ncforce_baro", "lwa_baro", "u_baro")}
BARO["lwa"] = "kli"
AXES = dict(list(FIRST.items()) + list(REFS.items()) + list(LAYER.items()) + list(STORE.items()) + list(BARO.items()) + [("forcing", "kli")])
ONLY = {"lwa": "kli", "lwa_baro": "li", "u_baro": "li"}


def arr(x):
    return np.array(x, dtype=object)


def first_step(o):
    o.interpolate_fields(return_named_tuple=False)
    r = {n: arr(getattr(o, n)) for n in FIRST}
    s = o.static_stability
    r["stability"] = [arr(x) for x in (s if isinstance(s, tuple) else (s,))]
    return r


def rest(o, nc, only=True):
    """outputs of the remaining steps"""
    r = {}
    o.compute_reference_states(return_named_tuple=False)
    r.update({n: arr(getattr(o, n)) for n in REFS})
    if only:
        o.compute_lwa_only()
        r.update({"only " + n: arr(getattr(o, n)) for n in ONLY})
    o.compute_layerwise_lwa_fluxes(ncforce=nc)
    st = o.layerwise_flux_terms_storage
    r.update({n: arr(getattr(o, n)) for n in LAYER})
    if not o.need_latitude_interpolation:
        r.update({n: arr(st.fortran_to_python(getattr(st, n))) for n in STORE})
    o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=nc)
    r.update({n: arr(getattr(o, n)) for n in BARO})
    return r


ORDERS = {"compute_reference_states": ["pv", "uu", "pt", "stat"]}


class Asked:
    """kernel stubs that record what the reference states are requested for"""

    def __init__(self, h, d):
        self.h, self.d, self.seen = h, d, []

    def refs(self, *a, **k):
        k = dict(k, **dict(zip(("pv", "uu", "pt", "stat"), a)))
        self.seen.append({n: arr(k[n]) for n in ("pv", "uu", "pt", "stat")})
        z = np.zeros((self.d["nd"], self.d["K"]))
        return z, z.copy(), z.copy(), 1

    def first(self, *a, **k):
        k = dict(k, **dict(zip(("pv", "uu", "vort", "pt", "tn0"), a)))
        self.seen.append({n: arr(k[n]) for n in ("pv", "uu", "vort", "pt", "tn0")})
        nd, K = self.d["nd"], self.d["K"]
        n = nd - self.d["jb"] - 2
        z = np.zeros((nd, K))
        return (z,) + tuple(z.copy() for _ in range(4)) + (np.zeros((n, K - 1)), np.zeros((n, n, K - 1)))

    def before(self, *a, **k):
        self.seen[-1].update({n: arr(k[n]) for n in ("statn",) if n in k})
        n = self.d["nd"] - self.d["jb"] - 2
        return np.eye(n), np.zeros((n, n)), np.zeros((n, n)), np.zeros(n)

    def sweep(self, *a, **k):
        self.seen[-1].update({n: arr(k[n]) for n in ("tb",) if n in k})
        z = np.zeros((self.d["nd"] - self.d["jb"], self.d["K"]))
        return z, np.zeros((self.d["nd"], self.d["K"])), z.copy()

    def __enter__(self):
        self.cm = qg.replaced(self.h, compute_reference_states=self.refs, compute_qref_and_fawa_first=self.first,
                              matrix_b4_inversion=self.before, matrix_after_inversion=lambda *a, **k: None, upward_sweep=self.sweep)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)
