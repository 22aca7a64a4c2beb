"""Catalogue of lens profiles: parameter domains and what each profile claims.

Domains are the documented / default parameter limits restricted to values real callers use
(positive masses and scale radii, |e| < 0.5 ...).  ``build(name)`` returns a Hypothesis
strategy for the keyword dictionary of one profile.
"""

import math

from hypothesis import strategies as st

from harness.gen import angle, center, ellip, fl, logf, uni

AMP = logf(0.05, 3.0, special=(1.0,))
LEN = logf(0.08, 8.0, special=(1.0, 0.5, 2.0))


class P(object):
    def __init__(
        self, name, params, pot=True, tol=2e-7, htol=2e-7, ptol=None, ctr=("center_x", "center_y"), ell=True, lin=(), post=None,
        lens=(), rmin=0.02, rmax=12.0, init=None, weight=2, slow=False, sym=True, hess=True, grad=True, dims=(), nonlens=False,
        emax=0.4, emin=0.0, e_pairs=None, angles=(), arc=False, cut=False, atol=1e-9, sym_tol=None, sym_atol=1e-9, rrel=None, kinks=(), region=None, noaxis=False,
    ):
        self.name = name
        self.params = params
        self.pot = pot
        tol, htol = max(tol, 1e-5), max(htol, 1e-5)
        self.tol = tol  # relative tolerance deflection vs potential
        self.htol = htol  # relative tolerance hessian vs deflection
        self.ctr = ctr
        self.lin = tuple(lin)  # parameters the profile is linear in (all jointly)
        self.post = post
        self.lens = tuple(lens)  # length-scale parameters giving special radii
        self.rmin, self.rmax = rmin, rmax
        self.init = init or {}
        self.slow = slow
        self.sym = sym
        self.hess = hess
        self.grad = grad
        self.emax = emax
        self.e_pairs = e_pairs if e_pairs is not None else ((("e1", "e2"),) if "ELL" in params else ())
        self.angles = tuple(angles)  # direction-like parameters (rotate with the frame)
        self.arc = arc
        self.cut = cut  # potential has a branch cut at phi = +-pi
        self.atol = atol  # absolute deflection accuracy
        self.sym_tol = sym_tol if sym_tol is not None else 2 * htol
        self.sym_atol = sym_atol
        self.kinks = kinks  # (key, factor) radii where the Hessian jumps
        self.region = region  # (kw, x, y) -> bool: the Hessian jumps at the boundary
        self.noaxis = noaxis
        self.rrel = rrel  # (key, factor): evaluate only at r >= factor * kw[key]
        self.emin = emin

    def kw(self):
        d = {}
        for k, s in self.params.items():
            if k == "ELL":
                continue
            d[k] = s
        if self.ctr:
            d[self.ctr[0]] = center()
            d[self.ctr[1]] = center()
        if self.e_pairs:
            d["_E"] = st.tuples(*[ellip(self.emax, self.emin) for _ in self.e_pairs])
        pairs = self.e_pairs

        def fix(kw):
            kw = dict(kw)
            if pairs:
                es = kw.pop("_E")
                for (k1, k2), e in zip(pairs, es):
                    kw[k1], kw[k2] = e[0], e[1]
            if self.post:
                kw = self.post(kw)
            return kw

        return st.fixed_dictionaries(d).map(fix)


def _order(small, big, ratio=1.05):
    def post(kw):
        a, b = sorted([kw[small], kw[big]])
        if b < ratio * a:
            b = ratio * a * 1.2
        kw[small], kw[big] = a, b
        return kw

    return post


def _chain(*fs):
    def post(kw):
        for f in fs:
            kw = f(kw)
        return kw

    return post


def _avoid(key, other, rel=0.02):
    """Keep two lengths from (nearly) coinciding where the closed form is singular."""

    def post(kw):
        if abs(kw[key] / kw[other] - 1) < rel:
            kw[key] = kw[other] * (1 + 2 * rel)
        return kw

    return post


E = {"ELL": 1}
EPLG = fl(1.4, 2.7, special=(2.0, 1.9, 2.1, 1.999999, 1.5, 2.5))

CAT = {}


def _add(name, params, **kw):
    CAT[name] = P(name, params, **kw)


_add("BPL", dict(E, b=AMP, a=fl(1.2, 2.7), a_c=fl(1.1, 2.7), r_c=LEN), lens=("r_c",), tol=1e-2, htol=1e-2, rrel=("r_c", 0.3), slow=True, noaxis=True)
_add("CHAMELEON", dict(E, alpha_1=AMP, w_c=LEN, w_t=LEN), post=_order("w_c", "w_t"), lin=("alpha_1",), htol=1e-2, emax=0.35)
_add("CNFW", dict(Rs=LEN, alpha_Rs=AMP, r_core=LEN), post=_avoid("r_core", "Rs", 0.2), lin=("alpha_Rs",), lens=("Rs", "r_core"), tol=2e-3, htol=1e-2)
_add("CNFW_ELLIPSE_POTENTIAL", dict(E, Rs=LEN, alpha_Rs=AMP, r_core=LEN), post=_avoid("r_core", "Rs", 0.2), lin=("alpha_Rs",), tol=2e-3, htol=2e-2, sym_tol=0.2, rmin=0.1, rrel=("r_core", 0.2))
_add("CONVERGENCE", dict(kappa=fl(-1, 1)), ctr=("ra_0", "dec_0"), lin=("kappa",))
_add("coreBURKERT", dict(Rs=LEN, alpha_Rs=AMP, r_core=LEN), post=_avoid("r_core", "Rs"), lin=("alpha_Rs",), lens=("Rs", "r_core"), htol=1e-4, tol=1e-4)
_add("CORED_DENSITY", dict(sigma0=AMP, r_core=LEN), lin=("sigma0",), lens=("r_core",), atol=1e-6, tol=1e-3)
_add("CORED_DENSITY_2", dict(sigma0=AMP, r_core=LEN), lin=("sigma0",), lens=("r_core",))
_add("CORED_DENSITY_EXP", dict(kappa_0=AMP, theta_c=LEN), lin=("kappa_0",), lens=("theta_c",))
for _n in ("CORED_DENSITY_MST", "CORED_DENSITY_2_MST", "CORED_DENSITY_EXP_MST", "CORED_DENSITY_ULDM_MST"):
    _add(_n, dict(lambda_approx=fl(0.7, 1.3, special=(1.0,)), r_core=LEN), atol=1e-6)
_add("CSE", dict(E, a=AMP, s=LEN), lin=("a",), lens=("s",))
_add("CTNFW_GAUSS_DEC", dict(r_s=logf(0.5, 5), r_core=logf(0.05, 0.4), r_trunc=logf(3, 20), a=fl(1.0, 4.0), rho_s=AMP), lin=("rho_s",), slow=True)
_add("DIPOLE", dict(com_x=center(), com_y=center(), phi_dipole=angle(), coupling=fl(-0.3, 0.3)), ctr=None, angles=("phi_dipole",), pot=False, hess=False)
_add("EPL", dict(E, theta_E=AMP, gamma=EPLG))
_add("EPL_NUMBA", dict(E, theta_E=AMP, gamma=EPLG))
_add("EPL_Q_PHI", dict(theta_E=AMP, gamma=EPLG, q=fl(0.35, 1.0, special=(1.0,)), phi=angle()), angles=("phi",))
_A4 = fl(-0.08, 0.08)
for _n in ("EPL_BOXYDISKY", "EPL_BOXYDISKY_ELL"):
    _add(_n, dict(E, theta_E=AMP, gamma=EPLG, a4_a=_A4), emax=0.3, tol=1e-5, htol=1e-5)
_M34 = dict(E, theta_E=AMP, gamma=EPLG, a3_a=_A4, delta_phi_m3=fl(-0.52, 0.52), a4_a=_A4, delta_phi_m4=fl(-0.39, 0.39))
_M134 = dict(_M34, a1_a=_A4, delta_phi_m1=angle())
_add("EPL_MULTIPOLE_M3M4", _M34, emax=0.3)
_add("EPL_MULTIPOLE_M3M4_ELL", _M34, emax=0.3, tol=1e-5, htol=1e-5)
_add("EPL_MULTIPOLE_M1M3M4", _M134, emax=0.3)
_add("EPL_MULTIPOLE_M1M3M4_ELL", _M134, emax=0.3, tol=1e-5, htol=1e-5)
_FX = fl(-0.05, 0.05)
_add("FLEXION", dict(g1=_FX, g2=_FX, g3=_FX, g4=_FX), ctr=("ra_0", "dec_0"), lin=("g1", "g2", "g3", "g4"))
_add("FLEXIONFG", dict(F1=_FX, F2=_FX, G1=_FX, G2=_FX), ctr=("ra_0", "dec_0"), lin=("F1", "F2", "G1", "G2"))
_add("GAUSSIAN", dict(amp=AMP, sigma=LEN), lin=("amp",))
_add("GAUSSIAN_ELLIPSE_KAPPA", dict(E, amp=AMP, sigma=LEN), lin=("amp",), tol=1e-4, htol=1e-4, slow=True)
_add("GAUSSIAN_ELLIPSE_POTENTIAL", dict(E, amp=AMP, sigma=LEN), lin=("amp",), htol=5e-5)
_add("GAUSSIAN_POTENTIAL", dict(amp=AMP, sigma_x=LEN, sigma_y=LEN), lin=("amp",))
_add("GNFW", dict(Rs=LEN, alpha_Rs=AMP, gamma_in=fl(0.2, 2.0, special=(1.0, 0.5, 1.5))), lin=("alpha_Rs",), lens=("Rs",), tol=1e-3, htol=1e-3, slow=True)
_add("GNFW_ELLIPSE_GAUSS_DEC", dict(E, Rs=logf(0.5, 8), alpha_Rs=AMP, gamma_in=fl(0.5, 1.6)), lin=("alpha_Rs",), slow=True, emin=0.03, tol=2e-3, htol=2e-2, rrel=("Rs", 0.5))
_add("HERNQUIST", dict(sigma0=AMP, Rs=LEN), lin=("sigma0",), lens=("Rs",), tol=1e-5, htol=1e-4)
_add("HERNQUIST_ELLIPSE_POTENTIAL", dict(E, sigma0=AMP, Rs=LEN), lin=("sigma0",), tol=1e-5, htol=1e-4)
_add("HERNQUIST_ELLIPSE_CSE", dict(E, sigma0=AMP, Rs=LEN), lin=("sigma0",))
_add("HESSIAN", dict(f_xx=fl(-1, 1), f_yy=fl(-1, 1), f_xy=fl(-1, 1)), ctr=("ra_0", "dec_0"), lin=("f_xx", "f_yy", "f_xy", "f_yx"), post=lambda kw: dict(kw, f_yx=kw["f_xy"]))
_M = st.sampled_from([1, 2, 3, 4, 5, 6])
_add("MULTIPOLE", dict(m=_M, a_m=fl(-0.2, 0.2), phi_m=angle(), r_E=LEN), lin=("a_m",), angles=("phi_m",))
_add("MULTIPOLE_ELL", dict(m=st.sampled_from([1, 3, 4]), a_m=fl(-0.2, 0.2), varphi_m=angle(), q=fl(0.4, 0.99, special=(0.8,)), phi_ref=angle(), r_E=LEN), lin=("a_m",), angles=("phi_ref",), tol=1e-5, htol=1e-5)
_LA = st.lists(AMP, min_size=1, max_size=4)
_LL = st.lists(LEN, min_size=4, max_size=4)


def _mg(kw):
    kw["sigma"] = kw["sigma"][: len(kw["amp"])]
    return kw


_add("MULTI_GAUSSIAN", dict(amp=_LA, sigma=_LL, scale_factor=fl(0.3, 2, special=(1.0,))), post=_mg, lin=("scale_factor",))
_add("MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", dict(E, amp=_LA, sigma=_LL, scale_factor=fl(0.3, 2, special=(1.0,))), post=_mg, lin=("scale_factor",), htol=5e-5)
_add("MULTI_GAUSSIAN_ELLIPSE_KAPPA", dict(E, amp=_LA, sigma=_LL, scale_factor=fl(0.3, 2, special=(1.0,))), post=_mg, lin=("scale_factor",), tol=1e-4, htol=1e-4, slow=True)
_add("NFW", dict(Rs=LEN, alpha_Rs=AMP), lin=("alpha_Rs",), lens=("Rs",), tol=1e-5, htol=1e-5)
_add("NFW_ELLIPSE_CSE", dict(E, Rs=LEN, alpha_Rs=AMP), lin=("alpha_Rs",))
_add("NFW_ELLIPSE_GAUSS_DEC", dict(E, Rs=logf(0.5, 8), alpha_Rs=AMP), lin=("alpha_Rs",), tol=1e-4, htol=1e-4, slow=True, emin=0.03)
_add("NFW_ELLIPSE_POTENTIAL", dict(E, Rs=LEN, alpha_Rs=AMP), lin=("alpha_Rs",), tol=1e-5, htol=2e-2, sym_tol=0.2, rrel=("Rs", 0.02))
_ZI = dict(z_lens=0.5, z_source=1.5)
_add("NFW_MC", dict(logM=fl(9, 13), concentration=fl(3, 15)), init=_ZI, tol=1e-5, htol=1e-5)
_add("NFW_MC_ELLIPSE_POTENTIAL", dict(E, logM=fl(9, 13), concentration=fl(3, 15)), init=_ZI, tol=1e-5, htol=1e-5)
_add("NIE", dict(E, theta_E=AMP, s_scale=logf(0.01, 2)), htol=3e-4, emax=0.4)
_add("NIE_POTENTIAL", dict(E, theta_E=AMP, theta_c=logf(0.01, 2)), emax=0.2)
_add("NIE_SIMPLE", dict(b=AMP, s=logf(0.01, 2), q=fl(0.4, 0.98)), htol=3e-4, ctr=None, sym_tol=1e-3)
_add("PJAFFE", dict(sigma0=AMP, Ra=LEN, Rs=LEN), post=_order("Ra", "Rs", 1.1), lin=("sigma0",), lens=("Ra", "Rs"), tol=1e-5, htol=1e-5)
_add("PJAFFE_ELLIPSE_POTENTIAL", dict(E, sigma0=AMP, Ra=LEN, Rs=LEN), post=_order("Ra", "Rs", 1.1), lin=("sigma0",), tol=1e-5, htol=2e-4)
_add("POINT_MASS", dict(theta_E=AMP))
_add("POINT_MASS_LOG_SCALED", dict(log10_theta_E=fl(-2, 0.5)))
_add("PSEUDO_DPL", dict(Rs=LEN, alpha_Rs=AMP, gamma_inner=fl(0.3, 2.5), gamma_outer=fl(2.6, 5.0)), pot=False, lin=("alpha_Rs",), lens=("Rs",), htol=1e-5)
_add("SERSIC", dict(k_eff=AMP, R_sersic=LEN, n_sersic=fl(0.6, 6, special=(1.0, 4.0))), lin=("k_eff",), lens=("R_sersic",), tol=1e-5, htol=1e-3)
_add("SERSIC_ELLIPSE_POTENTIAL", dict(E, k_eff=AMP, R_sersic=LEN, n_sersic=fl(0.6, 6, special=(1.0, 4.0))), lin=("k_eff",), tol=1e-5, htol=1e-3)
_add("SERSIC_ELLIPSE_KAPPA", dict(E, k_eff=AMP, R_sersic=LEN, n_sersic=fl(0.6, 4, special=(1.0, 4.0))), lin=("k_eff",), tol=1e-3, htol=1e-3, slow=True, pot=False)
_add("SERSIC_ELLIPSE_GAUSS_DEC", dict(E, k_eff=AMP, R_sersic=logf(0.3, 3), n_sersic=fl(0.6, 5, special=(1.0, 4.0))), lin=("k_eff",), tol=1e-4, htol=1e-4, slow=True, emin=0.03)
_CF = st.lists(fl(-0.1, 0.1), min_size=1, max_size=10)
_add("SHAPELETS_CART", dict(coeffs=_CF, beta=logf(0.3, 3)), lin=("coeffs",), rmax=4.0, htol=1e-6)
_add("SHAPELETS_POLAR", dict(coeffs=st.sampled_from([1, 3, 6, 10]).flatmap(lambda n: st.lists(fl(-0.1, 0.1), min_size=n, max_size=n)), beta=logf(0.3, 3)), lin=("coeffs",), rmax=4.0)
_add("SHEAR", dict(gamma1=fl(-0.4, 0.4), gamma2=fl(-0.4, 0.4)), ctr=("ra_0", "dec_0"), lin=("gamma1", "gamma2"))
_add("SHEAR_GAMMA_PSI", dict(gamma_ext=fl(0, 0.4), psi_ext=angle()), ctr=("ra_0", "dec_0"), lin=("gamma_ext",), angles=("psi_ext",))
_add("SHEAR_REDUCED", dict(gamma1=fl(-0.4, 0.4), gamma2=fl(-0.4, 0.4)), ctr=("ra_0", "dec_0"))
_add("SHIFT", dict(alpha_x=fl(-2, 2), alpha_y=fl(-2, 2)), ctr=None, lin=("alpha_x", "alpha_y"), pot=False)
_add("SIE", dict(E, theta_E=AMP), htol=3e-4)
_add("SIS", dict(theta_E=AMP), lin=("theta_E",))
_add("SIS_TRUNCATED", dict(theta_E=AMP, r_trunc=LEN), post=lambda kw: dict(kw, r_trunc=kw["theta_E"] * (1.05 + kw["r_trunc"])), lens=("r_trunc", "theta_E"), kinks=(("r_trunc", 1.0), ("r_trunc", 2.0)))
_add("SPEP", dict(E, theta_E=AMP, gamma=fl(1.4, 2.8, special=(2.0, 1.9, 2.1))))
_add("SPP", dict(theta_E=AMP, gamma=fl(1.3, 2.8, special=(2.0, 1.9, 2.1))))
_add("SPL_CORE", dict(sigma0=AMP, r_core=LEN, gamma=fl(1.2, 4.5, special=(3.0, 2.0))), pot=False, lin=("sigma0",), lens=("r_core",), htol=1e-5)
_add("TNFW", dict(Rs=LEN, alpha_Rs=AMP, r_trunc=LEN), lin=("alpha_Rs",), lens=("Rs", "r_trunc"), tol=1e-5, htol=1e-5)
_add("TNFW_ELLIPSE_POTENTIAL", dict(E, Rs=LEN, alpha_Rs=AMP, r_trunc=LEN), lin=("alpha_Rs",), tol=1e-5, htol=2e-2, sym_tol=0.2, rrel=("Rs", 0.1))
_add("TNFWC", dict(Rs=LEN, alpha_Rs=AMP, r_trunc=LEN, r_core=LEN), post=_chain(_avoid("r_core", "Rs"), _avoid("r_trunc", "Rs"), _avoid("r_trunc", "r_core")), pot=False, lin=("alpha_Rs",), lens=("Rs",), htol=1e-4)
_CW = dict(alpha_1=AMP)
_D = dict(alpha_1=AMP, ratio=logf(0.2, 5), w_c1=LEN, w_t1=LEN, w_c2=LEN, w_t2=LEN)
_add("DOUBLE_CHAMELEON", _D, e_pairs=(("e11", "e21"), ("e12", "e22")), post=_chain(_order("w_c1", "w_t1"), _order("w_c2", "w_t2")), lin=("alpha_1",), htol=1e-2, emax=0.35)
_T = dict(alpha_1=AMP, ratio12=logf(0.2, 5), ratio13=logf(0.2, 5), w_c1=LEN, w_t1=LEN, w_c2=LEN, w_t2=LEN, w_c3=LEN, w_t3=LEN)
_add("TRIPLE_CHAMELEON", _T, e_pairs=(("e11", "e21"), ("e12", "e22"), ("e13", "e23")), post=_chain(_order("w_c1", "w_t1"), _order("w_c2", "w_t2"), _order("w_c3", "w_t3")), lin=("alpha_1",), htol=1e-2, emax=0.35)
_add("ULDM", dict(kappa_0=fl(0.05, 0.9), theta_c=LEN, slope=fl(3.6, 9.5)), lin=("kappa_0",), lens=("theta_c",), tol=1e-5, htol=1e-5)
def _slice_inside(kw, x, y):
    import numpy as np

    c, s_ = np.cos(kw["psi"]), np.sin(kw["psi"])
    x, y = x - kw["center_x"], y - kw["center_y"]
    return ((x * c + y * s_) / kw["a"]) ** 2 + ((-x * s_ + y * c) / kw["b"]) ** 2 < 1


_add("ElliSLICE", dict(a=LEN, b=LEN, psi=fl(-1.5, 1.5), sigma_0=AMP), post=_order("b", "a", 1.1), lin=("sigma_0",), angles=("psi",), tol=1e-5, htol=1e-4, sym_tol=2e-3, sym_atol=1e-4, rmax=3.0, atol=1e-5, region=_slice_inside)
_add("GreenBoschNFW", dict(f_b=logf(0.05, 1.0), c_s=fl(8, 30), Rs=logf(0.5, 3), rho0ang=AMP), rmax=2.0, lin=("rho0ang",), slow=True, tol=1e-3, htol=1e-3, pot=False)
_add("CONST_MAG", dict(mu_r=fl(0.7, 2), mu_t=fl(1.5, 20), parity=st.sampled_from([-1, 1]), phi_G=fl(0, 3.14159)), ctr=("center_x", "center_y"), angles=("phi_G",))
_add("ARC_PERT", dict(coeff=fl(-0.3, 0.3), d_r=logf(0.2, 2), d_phi=logf(0.2, 2)), lin=("coeff",), cut=True)
_TS = fl(1.5, 12)
_RS = fl(0.6, 1.6, special=(1.0,))
_CV = logf(0.1, 0.8)
_ARC = dict(tangential_stretch=_TS, curvature=_CV, direction=angle())
_add("CURVED_ARC_CONST", _ARC, angles=("direction",), arc=True, rmax=0.6, pot=False, htol=1e-4, sym=False)
_add("CURVED_ARC_CONST_MST", dict(_ARC, radial_stretch=_RS), angles=("direction",), arc=True, rmax=0.6, pot=False, htol=1e-4, sym=False)
_add("CURVED_ARC_SIS_MST", dict(_ARC, radial_stretch=_RS), angles=("direction",), arc=True, rmax=0.6, atol=1e-7)
def _spp(kw):
    # power-law slope 1.3 < gamma < 2.7
    u = (1.0 / kw["radial_stretch"] - 1) / (1 - 1.0 / kw["tangential_stretch"])
    u = min(max(u, -0.6), 0.6)
    kw["radial_stretch"] = 1.0 / (1 + u * (1 - 1.0 / kw["tangential_stretch"]))
    return kw


_add("CURVED_ARC_SPP", dict(_ARC, radial_stretch=_RS), post=_spp, angles=("direction",), arc=True, rmax=0.6, atol=1e-7)
_add("CURVED_ARC_SPT", dict(_ARC, radial_stretch=_RS, gamma1=fl(-0.1, 0.1), gamma2=fl(-0.1, 0.1)), arc=True, rmax=0.6, pot=False, htol=1e-4, sym=False)


def _tan_diff(kw):
    # the quadrupole needed for the stretch gradient stays a moderate perturbation
    ts, rs = kw["tangential_stretch"], kw["radial_stretch"]
    if abs(ts / rs - 1) < 0.15:
        rs = kw["radial_stretch"] = 0.7 * ts
    lim = 0.5 * kw["curvature"] * abs(1 - ts / rs)
    kw["dtan_dtan"] = min(max(kw["dtan_dtan"], -lim), lim)
    return kw


_add("CURVED_ARC_TAN_DIFF", dict(_ARC, radial_stretch=_RS, dtan_dtan=fl(-1, 1)), post=_tan_diff, angles=("direction",), arc=True, rmax=0.6, htol=3e-4, atol=1e-7)

#: not covered: PEMD / SPEMD need fastell4py (not installed); LOS* are covered by C08;
#: INTERPOL / INTERPOL_SCALED / RADIAL_INTERPOL / SYNTHESIS / TABULATED_DEFLECTIONS take data
#: and have their own facets.

#: SHAPELETS_POLAR: derivatives and Hessian are wrong (known finding, pinned by the repository's tests)
BROKEN = ("SHAPELETS_POLAR",)
FAST = sorted(n for n in CAT if not CAT[n].slow and n not in BROKEN)
SLOW = sorted(n for n in CAT if CAT[n].slow)


def instance(name):
    from lenstronomy.LensModel.profile_list_base import lens_class

    p = CAT[name]
    return lens_class(name, profile_kwargs=dict(p.init) if p.init else None)


def call_kw(kw):
    import numpy as np

    out = {}
    for k, v in kw.items():
        out[k] = np.array(v, dtype=float) if isinstance(v, list) else v
    return out


def origin(name, kw):
    p = CAT[name]
    if p.ctr:
        return kw[p.ctr[0]], kw[p.ctr[1]]
    if name == "DIPOLE":
        return kw["com_x"], kw["com_y"]
    return 0.0, 0.0
