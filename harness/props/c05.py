"""C05: profiles that describe the same lens agree."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import center, ellip, fl, logf, angle, points

PROP = Property(
    "C05",
    rule="A case is one pair of descriptions of the same lens (two profiles in a coinciding limit, a composite profile and the sum of its "
    "parts, or a tabulated and an analytic version), one parameter set and 1-4 positions. Non-trivial: deflection non-zero.",
    assumptions=["profiles that are documented approximations of one another (Gaussian / cored-ellipsoid decompositions, interpolation) are compared at 1-2 %",
                 "limits (truncation to infinity, core to zero) are taken at finite but extreme values, with matching tolerance"],
    title="Alternative descriptions of the same lens agree",
    statement="Profiles that coincide in a limit (isothermal slope, zero ellipticity, vanishing core, infinite truncation, unit inner slope), "
    "re-parameterised versions of one profile, and composite profiles versus the sum of their documented parts give the same potential "
    "differences, deflections and Hessians. Interpolated or tabulated lenses reproduce the fields they were built from inside the table.",
    over=["inputs"],
    quant="all pairs of equivalent descriptions, parameters and positions",
    why="Each class is tested against numbers produced by itself or one neighbour at one parameter value; the equivalences must hold over the whole domain.",
    files=["lenstronomy/LensModel/Profiles", "lenstronomy/Util/param_util.py"],
    mechanism=[("shared parameter conventions between profile classes", "lenstronomy/LensModel/Profiles/*.py")],
)

E = ellip(0.4)
AMP, LEN = lp.AMP, lp.LEN
G = lp.EPLG
REL = {}


class Rel(object):
    def __init__(self, strat, build, tol=1e-6, htol=None, pot=True, hess=True, pmin=0.05, pmax=8.0, ptol=None):
        self.strat, self.build, self.tol, self.htol, self.pot, self.hess = strat, build, tol, htol or tol, pot, hess
        self.pmin, self.pmax = pmin, pmax
        self.ptol = ptol or tol


def C():
    return dict(cx=center(), cy=center())


def S(**kw):
    d = dict(C())
    d.update(kw)
    return st.fixed_dictionaries(d)


def ctr(v):
    return dict(center_x=v["cx"], center_y=v["cy"])


def ra(v):
    return dict(ra_0=v["cx"], dec_0=v["cy"])


def ee(v):
    return dict(e1=v["e"][0], e2=v["e"][1])


def phiq(e):
    c = min(math.hypot(*e), 0.9999)
    return math.atan2(e[1], e[0]) / 2, (1 - c) / (1 + c)


def add(name, strat, build, **kw):
    REL[name] = Rel(strat, build, **kw)


def one(m, kw):
    return [(1.0, m, kw)]


add("EPL(2)=SIE", S(t=AMP, e=E), lambda v: (one("EPL", dict(theta_E=v["t"], gamma=2.0, **ee(v), **ctr(v))), one("SIE", dict(theta_E=v["t"], **ee(v), **ctr(v)))), tol=2e-4, htol=5e-3)
add("EPL=EPL_NUMBA", S(t=AMP, g=G, e=E), lambda v: tuple(one(m, dict(theta_E=v["t"], gamma=v["g"], **ee(v), **ctr(v))) for m in ("EPL", "EPL_NUMBA")), tol=1e-6)
add("EPL=EPL_Q_PHI", S(t=AMP, g=G, e=E), lambda v: (one("EPL", dict(theta_E=v["t"], gamma=v["g"], **ee(v), **ctr(v))), one("EPL_Q_PHI", dict(theta_E=v["t"], gamma=v["g"], q=phiq(v["e"])[1], phi=phiq(v["e"])[0], **ctr(v)))))
add("EPL(e=0)=SPP", S(t=AMP, g=G), lambda v: (one("EPL", dict(theta_E=v["t"], gamma=v["g"], e1=0.0, e2=0.0, **ctr(v))), one("SPP", dict(theta_E=v["t"], gamma=v["g"], **ctr(v)))), tol=1e-4)
add("SPEP(e=0)=SPP", S(t=AMP, g=fl(1.4, 2.8)), lambda v: (one("SPEP", dict(theta_E=v["t"], gamma=v["g"], e1=0.0, e2=0.0, **ctr(v))), one("SPP", dict(theta_E=v["t"], gamma=v["g"], **ctr(v)))), tol=1e-5)
add("SPP(2)=SIS", S(t=AMP), lambda v: (one("SPP", dict(theta_E=v["t"], gamma=2.0, **ctr(v))), one("SIS", dict(theta_E=v["t"], **ctr(v)))))
add("SIE(e=0)=SIS", S(t=AMP), lambda v: (one("SIE", dict(theta_E=v["t"], e1=0.0, e2=0.0, **ctr(v))), one("SIS", dict(theta_E=v["t"], **ctr(v)))), tol=2e-4, htol=5e-3)
add("NIE(s->0)=SIE", S(t=AMP, e=E), lambda v: (one("NIE", dict(theta_E=v["t"], s_scale=1e-7, **ee(v), **ctr(v))), one("SIE", dict(theta_E=v["t"], **ee(v), **ctr(v)))), tol=1e-4, htol=5e-3)
add("SIS_TRUNCATED(inf)=SIS", S(t=AMP), lambda v: (one("SIS_TRUNCATED", dict(theta_E=v["t"], r_trunc=100.0, **ctr(v))), one("SIS", dict(theta_E=v["t"], **ctr(v)))))
add("POINT_MASS log", S(l=fl(-2, 0.5)), lambda v: (one("POINT_MASS_LOG_SCALED", dict(log10_theta_E=v["l"], **ctr(v))), one("POINT_MASS", dict(theta_E=10 ** v["l"], **ctr(v)))))
add("SHEAR polar", S(g=fl(0, 0.4), p=angle()), lambda v: (one("SHEAR_GAMMA_PSI", dict(gamma_ext=v["g"], psi_ext=v["p"], **ra(v))), one("SHEAR", dict(gamma1=v["g"] * math.cos(2 * v["p"]), gamma2=v["g"] * math.sin(2 * v["p"]), **ra(v)))))
add("HESSIAN=CONVERGENCE+SHEAR", S(k=fl(-0.5, 0.5), a=fl(-0.4, 0.4), b=fl(-0.4, 0.4)),
    lambda v: (one("HESSIAN", dict(f_xx=v["k"] + v["a"], f_yy=v["k"] - v["a"], f_xy=v["b"], f_yx=v["b"], **ra(v))),
               [(1.0, "CONVERGENCE", dict(kappa=v["k"], **ra(v))), (1.0, "SHEAR", dict(gamma1=v["a"], gamma2=v["b"], **ra(v)))]))


def _red(v):
    g1, g2 = v["a"], v["b"]
    k = 1 - 1.0 / math.sqrt(1 - g1**2 - g2**2)
    return (one("SHEAR_REDUCED", dict(gamma1=g1, gamma2=g2, **ra(v))),
            [(1.0, "CONVERGENCE", dict(kappa=k, **ra(v))), (1.0, "SHEAR", dict(gamma1=(1 - k) * g1, gamma2=(1 - k) * g2, **ra(v)))])


add("SHEAR_REDUCED", S(a=fl(-0.4, 0.4), b=fl(-0.4, 0.4)), _red)
_L = st.lists(st.tuples(AMP, LEN), min_size=1, max_size=4)
add("MULTI_GAUSSIAN=sum", S(c=_L, f=fl(0.3, 2)), lambda v: (one("MULTI_GAUSSIAN", dict(amp=np.array([a for a, s in v["c"]]), sigma=np.array([s for a, s in v["c"]]), scale_factor=v["f"], **ctr(v))),
                                                          [(v["f"], "GAUSSIAN", dict(amp=a, sigma=s, **ctr(v))) for a, s in v["c"]]))
add("MULTI_GAUSSIAN_EP=sum", S(c=_L, f=fl(0.3, 2), e=E), lambda v: (one("MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", dict(amp=np.array([a for a, s in v["c"]]), sigma=np.array([s for a, s in v["c"]]), scale_factor=v["f"], **ee(v), **ctr(v))),
                                                                  [(v["f"], "GAUSSIAN_ELLIPSE_POTENTIAL", dict(amp=a, sigma=s, **ee(v), **ctr(v))) for a, s in v["c"]]), htol=1e-3)
_E3 = ellip(0.4, 0.03)
add("MULTI_GAUSSIAN_EK=sum", S(c=_L, f=fl(0.3, 2), e=_E3), lambda v: (one("MULTI_GAUSSIAN_ELLIPSE_KAPPA", dict(amp=np.array([a for a, s in v["c"]]), sigma=np.array([s for a, s in v["c"]]), scale_factor=v["f"], **ee(v), **ctr(v))),
                                                                    [(v["f"], "GAUSSIAN_ELLIPSE_KAPPA", dict(amp=a, sigma=s, **ee(v), **ctr(v))) for a, s in v["c"]]), tol=1e-6)
add("GAUSSIAN_EK(e->0)=GAUSSIAN", S(a=AMP, s=LEN), lambda v: (one("GAUSSIAN_ELLIPSE_KAPPA", dict(amp=v["a"], sigma=v["s"], e1=0.0, e2=0.0, **ctr(v))), one("GAUSSIAN", dict(amp=v["a"], sigma=v["s"], **ctr(v)))), tol=1e-3, pot=False)
_EPM = dict(t=AMP, g=G, e=_E3, a1=fl(-0.08, 0.08), d1=angle(), a3=fl(-0.08, 0.08), d3=fl(-0.52, 0.52), a4=fl(-0.08, 0.08), d4=fl(-0.39, 0.39))


def _epm(m1):
    def f(v):
        phi, q = phiq(v["e"])
        kw = dict(theta_E=v["t"], gamma=v["g"], a3_a=v["a3"], delta_phi_m3=v["d3"], a4_a=v["a4"], delta_phi_m4=v["d4"], **ee(v), **ctr(v))
        parts = [(1.0, "EPL", dict(theta_E=v["t"], gamma=v["g"], **ee(v), **ctr(v)))]
        rs = v["t"] / math.sqrt(q)
        parts.append((1.0, "MULTIPOLE", dict(m=3, a_m=v["a3"] * rs, phi_m=phi + v["d3"], **ctr(v))))
        parts.append((1.0, "MULTIPOLE", dict(m=4, a_m=v["a4"] * rs, phi_m=phi + v["d4"], **ctr(v))))
        name = "EPL_MULTIPOLE_M3M4"
        if m1:
            name = "EPL_MULTIPOLE_M1M3M4"
            kw.update(a1_a=v["a1"], delta_phi_m1=v["d1"])
            parts.append((1.0, "MULTIPOLE", dict(m=1, a_m=v["a1"] * rs, phi_m=phi + v["d1"], r_E=v["t"], **ctr(v))))
        return one(name, kw), parts

    return f


def _epm_ell(m1):
    def f(v):
        phi, q = phiq(v["e"])
        kw = dict(theta_E=v["t"], gamma=v["g"], a3_a=v["a3"], delta_phi_m3=v["d3"], a4_a=v["a4"], delta_phi_m4=v["d4"], **ee(v), **ctr(v))
        parts = [(1.0, "EPL", dict(theta_E=v["t"], gamma=v["g"], **ee(v), **ctr(v)))]
        todo = [(3, "a3", "d3"), (4, "a4", "d4")]
        name = "EPL_MULTIPOLE_M3M4_ELL"
        if m1:
            name = "EPL_MULTIPOLE_M1M3M4_ELL"
            kw.update(a1_a=v["a1"], delta_phi_m1=v["d1"])
            todo.append((1, "a1", "d1"))
        for m, a, d in todo:
            parts.append((1.0, "MULTIPOLE_ELL", dict(m=m, a_m=v[a] * v["t"], varphi_m=v[d], q=q, phi_ref=phi, r_E=v["t"], **ctr(v))))
        return one(name, kw), parts

    return f


add("EPL_M3M4=sum", S(**_EPM), _epm(False), tol=1e-5)
add("EPL_M1M3M4=sum", S(**_EPM), _epm(True), tol=1e-5)
add("EPL_M3M4_ELL=sum", S(**_EPM), _epm_ell(False), tol=1e-5)
add("EPL_M1M3M4_ELL=sum", S(**_EPM), _epm_ell(True), tol=1e-5)
add("BOXYDISKY=sum", S(**_EPM), lambda v: (one("EPL_BOXYDISKY", dict(theta_E=v["t"], gamma=v["g"], a4_a=v["a4"], **ee(v), **ctr(v))),
                                          [(1.0, "EPL", dict(theta_E=v["t"], gamma=v["g"], **ee(v), **ctr(v))), (1.0, "MULTIPOLE", dict(m=4, a_m=v["a4"] * v["t"] / math.sqrt(phiq(v["e"])[1]), phi_m=phiq(v["e"])[0], **ctr(v)))]), tol=1e-5)
add("BOXYDISKY_ELL=M3M4_ELL(a3=0)", S(**_EPM), lambda v: (one("EPL_BOXYDISKY_ELL", dict(theta_E=v["t"], gamma=v["g"], a4_a=v["a4"], **ee(v), **ctr(v))),
                                                         one("EPL_MULTIPOLE_M3M4_ELL", dict(theta_E=v["t"], gamma=v["g"], a3_a=0.0, delta_phi_m3=0.1, a4_a=v["a4"], delta_phi_m4=0.0, **ee(v), **ctr(v)))), tol=1e-5)
add("MULTIPOLE_ELL(q->1)=MULTIPOLE", S(m=st.sampled_from([1, 3, 4]), a=fl(-0.2, 0.2), p=angle(), r=angle(), t=LEN),
    lambda v: (one("MULTIPOLE_ELL", dict(m=v["m"], a_m=v["a"], varphi_m=v["p"], q=1.0, phi_ref=v["r"], r_E=v["t"], **ctr(v))),
               one("MULTIPOLE", dict(m=v["m"], a_m=v["a"], phi_m=v["p"] + v["r"], r_E=v["t"], **ctr(v)))), tol=5e-3)
add("MULTIPOLE_ELL(q=0.999)~MULTIPOLE", S(m=st.sampled_from([3, 4]), a=fl(-0.2, 0.2), p=angle(), r=angle(), t=LEN),
    lambda v: (one("MULTIPOLE_ELL", dict(m=v["m"], a_m=v["a"], varphi_m=v["p"], q=0.999, phi_ref=v["r"], r_E=v["t"], **ctr(v))),
               one("MULTIPOLE", dict(m=v["m"], a_m=v["a"], phi_m=v["p"] + v["r"], r_E=v["t"], **ctr(v)))), tol=2e-2, hess=False)
add("EPL_NUMBA(2)=EPL", S(t=AMP, e=E), lambda v: tuple(one(m, dict(theta_E=v["t"], gamma=2.0, **ee(v), **ctr(v))) for m in ("EPL_NUMBA", "EPL")), tol=1e-6)
_W = dict(a=AMP, w=LEN, f=logf(1.3, 5), e=ellip(0.35), r=logf(0.2, 5), w2=LEN, f2=logf(1.3, 5), e2=ellip(0.35), r3=logf(0.2, 5), w3=LEN, f3=logf(1.3, 5), e3=ellip(0.35))


def _dc(v):
    kw = dict(alpha_1=v["a"], ratio=v["r"], w_c1=v["w"], w_t1=v["w"] * v["f"], e11=v["e"][0], e21=v["e"][1], w_c2=v["w2"], w_t2=v["w2"] * v["f2"], e12=v["e2"][0], e22=v["e2"][1], **ctr(v))
    p = [(1.0, "CHAMELEON", dict(alpha_1=v["a"] / (1 + 1 / v["r"]), w_c=v["w"], w_t=v["w"] * v["f"], **ee(v), **ctr(v))),
         (1.0, "CHAMELEON", dict(alpha_1=v["a"] / (1 + v["r"]), w_c=v["w2"], w_t=v["w2"] * v["f2"], e1=v["e2"][0], e2=v["e2"][1], **ctr(v)))]
    return one("DOUBLE_CHAMELEON", kw), p


def _tc(v):
    r12, r13 = v["r"], v["r3"]
    kw = dict(alpha_1=v["a"], ratio12=r12, ratio13=r13, w_c1=v["w"], w_t1=v["w"] * v["f"], e11=v["e"][0], e21=v["e"][1], w_c2=v["w2"], w_t2=v["w2"] * v["f2"], e12=v["e2"][0], e22=v["e2"][1],
              w_c3=v["w3"], w_t3=v["w3"] * v["f3"], e13=v["e3"][0], e23=v["e3"][1], **ctr(v))
    n = 1 + 1 / r12 + 1 / r13
    a1 = v["a"] / n
    p = [(1.0, "CHAMELEON", dict(alpha_1=a1, w_c=v["w"], w_t=v["w"] * v["f"], **ee(v), **ctr(v))),
         (1.0, "CHAMELEON", dict(alpha_1=a1 / r12, w_c=v["w2"], w_t=v["w2"] * v["f2"], e1=v["e2"][0], e2=v["e2"][1], **ctr(v))),
         (1.0, "CHAMELEON", dict(alpha_1=a1 / r13, w_c=v["w3"], w_t=v["w3"] * v["f3"], e1=v["e3"][0], e2=v["e3"][1], **ctr(v)))]
    return one("TRIPLE_CHAMELEON", kw), p


add("DOUBLE_CHAMELEON=sum", S(**_W), _dc, tol=1e-6, htol=1e-2)
add("TRIPLE_CHAMELEON=sum", S(**_W), _tc, tol=1e-6, htol=1e-2)
for _ell, _sph, _pars in (
    ("NFW_ELLIPSE_POTENTIAL", "NFW", dict(Rs=LEN, alpha_Rs=AMP)), ("TNFW_ELLIPSE_POTENTIAL", "TNFW", dict(Rs=LEN, alpha_Rs=AMP, r_trunc=LEN)),
    ("HERNQUIST_ELLIPSE_POTENTIAL", "HERNQUIST", dict(sigma0=AMP, Rs=LEN)), ("SERSIC_ELLIPSE_POTENTIAL", "SERSIC", dict(k_eff=AMP, R_sersic=LEN, n_sersic=fl(0.6, 6))),
    ("GAUSSIAN_ELLIPSE_POTENTIAL", "GAUSSIAN", dict(amp=AMP, sigma=LEN)), ("CNFW_ELLIPSE_POTENTIAL", "CNFW", dict(Rs=LEN, alpha_Rs=AMP, r_core=logf(0.3, 0.8))),
    ("PJAFFE_ELLIPSE_POTENTIAL", "PJAFFE", dict(sigma0=AMP, Ra=logf(0.1, 0.9), Rs=logf(1.2, 5))), ("NFW_ELLIPSE_CSE", "NFW", dict(Rs=LEN, alpha_Rs=AMP)),
    ("HERNQUIST_ELLIPSE_CSE", "HERNQUIST", dict(sigma0=AMP, Rs=LEN)), ("SERSIC_ELLIPSE_KAPPA", "SERSIC", dict(k_eff=AMP, R_sersic=logf(0.3, 3), n_sersic=fl(0.8, 4))),
):
    def _mk(_ell=_ell, _sph=_sph, _pars=_pars):
        keys = list(_pars)

        def b(v):
            kw = {k: v[k] for k in keys}
            return one(_ell, dict(kw, e1=0.0, e2=0.0, **ctr(v))), one(_sph, dict(kw, **ctr(v)))

        cse = "CSE" in _ell
        add("%s(e=0)=%s" % (_ell, _sph), S(**_pars), b, tol=5e-3 if cse or "KAPPA" in _ell else 1e-4, htol=2e-2, pmin=0.2, pot="KAPPA" not in _ell)

    _mk()
add("TNFW(inf)=NFW", S(Rs=logf(0.3, 3), a=AMP), lambda v: (one("TNFW", dict(Rs=v["Rs"], alpha_Rs=v["a"], r_trunc=1e5, **ctr(v))), one("NFW", dict(Rs=v["Rs"], alpha_Rs=v["a"], **ctr(v)))), tol=1e-3)
add("CNFW(0)=NFW", S(Rs=logf(1.0, 5), a=AMP), lambda v: (one("CNFW", dict(Rs=v["Rs"], alpha_Rs=v["a"], r_core=1e-5, **ctr(v))), one("NFW", dict(Rs=v["Rs"], alpha_Rs=v["a"], **ctr(v)))), tol=5e-3, pmin=0.2, pot=False)
add("GNFW(1)=NFW", S(Rs=logf(0.3, 3), a=AMP), lambda v: (one("GNFW", dict(Rs=v["Rs"], alpha_Rs=v["a"], gamma_in=1.0, **ctr(v))), one("NFW", dict(Rs=v["Rs"], alpha_Rs=v["a"], **ctr(v)))), tol=2e-3)
add("TNFWC(0)=TNFW", S(Rs=logf(0.5, 3), a=AMP, f=logf(1.5, 8)), lambda v: (one("TNFWC", dict(Rs=v["Rs"], alpha_Rs=v["a"], r_core=1e-4 * v["Rs"], r_trunc=v["Rs"] * v["f"], **ctr(v))),
                                                                        one("PSEUDO_SKIP", {})), tol=5e-3)
REL.pop("TNFWC(0)=TNFW")
add("BPL(a=a_c)=EPL", S(b=AMP, g=fl(1.4, 2.6), e=ellip(0.35, 0.03)), lambda v: (one("BPL", dict(b=v["b"], a=v["g"], a_c=v["g"], r_c=0.3, **ee(v), **ctr(v))), one("EPL", dict(theta_E=v["b"], gamma=v["g"], **ee(v), **ctr(v)))), tol=1e-3, pot=False)
add("FLEXIONFG=FLEXION", S(a=fl(-.05, .05), b=fl(-.05, .05), c=fl(-.05, .05), d=fl(-.05, .05)),
    lambda v: (one("FLEXIONFG", dict(F1=v["a"], F2=v["b"], G1=v["c"], G2=v["d"], **ra(v))),
               one("FLEXION", dict(g1=(3 * v["a"] + v["c"]) / 2, g2=(v["b"] * 3 + v["d"]) / 2, g3=(v["a"] - v["c"]) / 2, g4=(v["b"] - v["d"]) / 2, **ra(v)))))
for _n, _m in (("CORED_DENSITY_MST", "CORED_DENSITY"), ("CORED_DENSITY_2_MST", "CORED_DENSITY_2")):
    add(_n, S(l=fl(0.7, 1.3), r=LEN), lambda v, _n=_n, _m=_m: (one(_n, dict(lambda_approx=v["l"], r_core=v["r"], **ctr(v))),
                                                               [(1.0, _m, dict(sigma0=(1 - v["l"]) / v["l"], r_core=v["r"], **ctr(v))), (-1.0, "CONVERGENCE", dict(kappa=(1 - v["l"]) / v["l"], **ra(v)))]), tol=1e-6, htol=1e-5)
for _n, _m in (("CORED_DENSITY_EXP_MST", "CORED_DENSITY_EXP"), ("CORED_DENSITY_ULDM_MST", "ULDM")):
    add(_n, S(l=fl(0.7, 1.3), r=LEN), lambda v, _n=_n, _m=_m: (one(_n, dict(lambda_approx=v["l"], r_core=v["r"], **ctr(v))),
                                                               [(1.0, _m, dict(kappa_0=(1 - v["l"]) / v["l"], theta_c=v["r"], **ctr(v))), (-1.0, "CONVERGENCE", dict(kappa=(1 - v["l"]) / v["l"], **ra(v)))]), tol=1e-6, htol=1e-5)
add("NFW_GAUSS_DEC~NFW_CSE", S(Rs=logf(0.5, 3), a=AMP, e=ellip(0.3, 0.03)), lambda v: (one("NFW_ELLIPSE_GAUSS_DEC", dict(Rs=v["Rs"], alpha_Rs=v["a"], **ee(v), **ctr(v))), one("NFW_ELLIPSE_CSE", dict(Rs=v["Rs"], alpha_Rs=v["a"], **ee(v), **ctr(v)))), tol=3e-2, htol=8e-2, pmin=0.3, pot=False)
add("SERSIC_GAUSS_DEC~SERSIC", S(k=AMP, R=logf(0.5, 3), n=fl(0.8, 3), e=ellip(0.01, 0.002)),
    lambda v: (one("SERSIC_ELLIPSE_GAUSS_DEC", dict(k_eff=v["k"], R_sersic=v["R"], n_sersic=v["n"], **ee(v), **ctr(v))), one("SERSIC", dict(k_eff=v["k"], R_sersic=v["R"], n_sersic=v["n"], **ctr(v)))), tol=5e-2, htol=0.12, pmin=0.3, pmax=3, pot=False)

SLOWREL = {"GNFW(1)=NFW", "NFW_GAUSS_DEC~NFW_CSE", "SERSIC_GAUSS_DEC~SERSIC", "BPL(a=a_c)=EPL", "MULTI_GAUSSIAN_EK=sum", "GAUSSIAN_EK(e->0)=GAUSSIAN",
           "SERSIC_ELLIPSE_KAPPA(e=0)=SERSIC"}


def strat(names):
    return st.sampled_from(sorted(names)).flatmap(
        lambda n: st.tuples(REL[n].strat, points(REL[n].pmin, REL[n].pmax, 2, 4)).map(lambda v: {"rel": n, "par": v[0], "pts": v[1]})
    )


def evaluate(parts, x, y, pot, hess):
    F, A, H = np.zeros_like(x), [0, 0], [0, 0, 0, 0]
    for w, m, kw in parts:
        prof = lp.instance(m)
        kw = {k: np.array(v, dtype=float) if isinstance(v, list) else v for k, v in kw.items()}
        a = prof.derivatives(x.copy(), y.copy(), **kw)
        A = [p + w * np.asarray(q) for p, q in zip(A, a)]
        if pot:
            F = F + w * np.asarray(prof.function(x.copy(), y.copy(), **kw))
        if hess:
            H = [p + w * np.asarray(q) + np.zeros_like(x) for p, q in zip(H, prof.hessian(x.copy(), y.copy(), **kw))]
    return F, [p + np.zeros_like(x) for p in A], H


def check(case, t):
    r = REL[case["rel"]]
    v = case["par"]
    t.label(case["rel"])
    a, b = r.build(v)
    x = np.array([v["cx"] + p[0] for p in case["pts"]])
    y = np.array([v["cy"] + p[1] for p in case["pts"]])
    F1, A1, H1 = evaluate(a, x, y, r.pot, r.hess)
    F2, A2, H2 = evaluate(b, x, y, r.pot, r.hess)
    t.finite(A2, "deflection")
    sc = np.hypot(*A2) + 1e-9
    if not np.any(sc > 1e-8):
        t.trivial()
    rr = np.hypot(x - v["cx"], y - v["cy"])
    for i in (0, 1):
        t.close(A1[i], A2[i], "%s: deflection_%s" % (case["rel"], "xy"[i]), rtol=0, atol=r.tol * sc + 1e-8)
    if r.pot:
        t.close(F1 - F1[0], F2 - F2[0], "%s: potential difference to the first point" % case["rel"], rtol=0, atol=r.ptol * (np.max(sc) * np.max(rr)) + 1e-7)
    if r.hess:
        hs = np.max(np.abs(H2), axis=0) + np.max(np.abs(H1), axis=0)
        for i in range(4):
            t.close(H1[i], H2[i], "%s: Hessian entry %d" % (case["rel"], i), rtol=0, atol=r.htol * hs + 1e-6)


PROP.add("pairs", lambda: strat(set(REL) - SLOWREL), check, quick=3600, thorough=50000, shards=6)
PROP.add("pairs-slow", lambda: strat(SLOWREL), check, quick=160, thorough=2000, shards=4)


# ------------------------------------------------------------------ tabulated lenses
def interp_strategy():
    return st.fixed_dictionaries({
        "scaled": st.booleans(), "do_interp": st.booleans(), "grid": st.booleans(), "hess": st.booleans(),
        "nx": st.integers(11, 26), "ny": st.integers(11, 26), "x0": fl(-3.0, -1.5), "y0": fl(-3.0, -1.5), "dx": fl(0.12, 0.3), "dy": fl(0.12, 0.3),
        "par": st.fixed_dictionaries(dict(theta_E=AMP, s_scale=logf(0.4, 1.0), e=E, center_x=center(), center_y=center(), gamma1=fl(-.2, .2), gamma2=fl(-.2, .2))),
        "scale": fl(0.2, 3.0), "u": st.lists(st.tuples(fl(0.02, 0.98), fl(0.02, 0.98), fl(0.05, 0.95), fl(0.05, 0.95)), min_size=1, max_size=5),
        "gn": st.tuples(st.integers(10, 14), st.integers(10, 14)),
    })


def bilinear(F, i, j, u, v):
    """F[row=y, column=x] at cell (i along x, j along y), fractional position (u, v)."""
    return F[j, i] * (1 - u) * (1 - v) + F[j, i + 1] * u * (1 - v) + F[j + 1, i] * (1 - u) * v + F[j + 1, i + 1] * u * v


def check_interp(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Profiles.interpol import Interpol, InterpolScaled

    p = case["par"]
    base = LensModel(["NIE", "SHEAR"])
    kw = [dict(theta_E=p["theta_E"], s_scale=p["s_scale"], e1=p["e"][0], e2=p["e"][1], center_x=p["center_x"], center_y=p["center_y"]),
          dict(gamma1=p["gamma1"], gamma2=p["gamma2"])]
    nx, ny = case["nx"], case["ny"]
    xs, ys = case["x0"] + case["dx"] * np.arange(nx), case["y0"] + case["dy"] * np.arange(ny)
    XX, YY = np.meshgrid(xs, ys)
    f = base.potential(XX.ravel(), YY.ravel(), kw).reshape(ny, nx)
    fx, fy = [a.reshape(ny, nx) for a in base.alpha(XX.ravel(), YY.ravel(), kw)]
    fxx, fxy, fyx, fyy = [a.reshape(ny, nx) for a in base.hessian(XX.ravel(), YY.ravel(), kw)]
    t.label("scaled" if case["scaled"] else "plain")
    t.label("do_interp" if case["do_interp"] else "first-call")
    t.label("square" if nx == ny else "rectangular")
    cls = InterpolScaled if case["scaled"] else Interpol
    prof = cls(grid=case["grid"], min_grid_number=100)
    s = case["scale"] if case["scaled"] else 1.0
    tab = dict(grid_interp_x=xs, grid_interp_y=ys, f_=f, f_x=fx, f_y=fy)
    if case["hess"]:
        tab.update(f_xx=fxx, f_yy=fyy, f_xy=fxy)
    if case["do_interp"]:
        inner = prof.interp_func if case["scaled"] else prof
        inner.do_interp(xs, ys, f, fx, fy, **({k: tab[k] for k in ("f_xx", "f_yy", "f_xy")} if case["hess"] else {}))
        tab = {}
    if case["scaled"]:
        tab["scale_factor"] = s
    ij = [(min(int(a * (nx - 1)), nx - 2), min(int(b * (ny - 1)), ny - 2), u, v) for a, b, u, v in case["u"]]
    nodes = ([xs[i] for i, j, u, v in ij], [ys[j] for i, j, u, v in ij])
    inter = ([xs[i] + u * case["dx"] for i, j, u, v in ij], [ys[j] + v * case["dy"] for i, j, u, v in ij])
    for kind, (px, py), uv in (("on a node", nodes, [(i, j, 0.0, 0.0) for i, j, u, v in ij]), ("between nodes", inter, ij)):
        px, py = np.array(px), np.array(py)
        exp = lambda F: np.array([s * bilinear(F, *q) for q in uv])  # noqa
        t.close(prof.function(px, py, **tab), exp(f), "tabulated potential " + kind, 1e-7, 1e-8)
        ax, ay = prof.derivatives(px, py, **tab)
        t.close(ax, exp(fx), "tabulated deflection x " + kind, 1e-7, 1e-8)
        t.close(ay, exp(fy), "tabulated deflection y " + kind, 1e-7, 1e-8)
        t.close(prof.function(float(px[0]), float(py[0]), **tab), exp(f)[0], "tabulated potential at a single position", 1e-7, 1e-8)
        if case["hess"]:
            H = prof.hessian(px, py, **tab)
            for h, F, n in zip(H, (fxx, fxy, fxy, fyy), ("xx", "xy", "yx", "yy")):
                t.close(h, exp(F), "tabulated Hessian %s %s" % (n, kind), 1e-7, 1e-8)
        elif kind == "between nodes":
            H = prof.hessian(px, py, **tab)
            dx, dy = case["dx"], case["dy"]
            gx = lambda F: np.array([s * ((F[j, i + 1] - F[j, i]) * (1 - v) + (F[j + 1, i + 1] - F[j + 1, i]) * v) / dx for i, j, u, v in ij])  # noqa
            gy = lambda F: np.array([s * ((F[j + 1, i] - F[j, i]) * (1 - u) + (F[j + 1, i + 1] - F[j, i + 1]) * u) / dy for i, j, u, v in ij])  # noqa
            for h, e, n in zip(H, (gx(fx), gy(fx), gx(fy), gy(fy)), ("xx", "xy", "yx", "yy")):
                t.close(h, e, "Hessian %s as differences of the tabulated deflection" % n, 1e-4, 1e-5)
    # evaluation on a regular grid of positions (fast path of grid=True)
    gx = np.linspace(xs[1], xs[-2], case["gn"][0])
    gy = np.linspace(ys[1], ys[-2], case["gn"][0])
    GX, GY = [a.ravel() for a in np.meshgrid(gx, gy)]
    pt = cls(grid=False)
    if case["do_interp"]:
        (pt.interp_func if case["scaled"] else pt).do_interp(xs, ys, f, fx, fy)
    t.close(prof.function(GX, GY, **tab), pt.function(GX, GY, **tab), "tabulated potential on a grid vs position by position", 1e-6, 1e-7)
    for a, b, n in zip(prof.derivatives(GX, GY, **tab), pt.derivatives(GX, GY, **tab), "xy"):
        t.close(a, b, "tabulated deflection %s on a grid vs position by position" % n, 1e-6, 1e-7)


PROP.add("tabulated", interp_strategy, check_interp, quick=160, thorough=3000, shards=2)


def radial_strategy():
    return st.fixed_dictionaries({"par": st.fixed_dictionaries(dict(amp=AMP, sigma=logf(0.5, 2.0), amp2=AMP, sigma2=logf(0.5, 2.0), cx=center(), cy=center())), "n": st.integers(90, 180),
                                  "rmax": fl(5, 9), "pts": points(0.2, 4.0, 1, 4), "hess_first": st.booleans()})


def check_radial(case, t):
    from lenstronomy.LensModel.Profiles.radial_interpolated import RadialInterpolate

    p = case["par"]
    prof = RadialInterpolate()
    G_ = lp.instance("GAUSSIAN")
    x = np.array([p["cx"] + q[0] for q in case["pts"]])
    y = np.array([p["cy"] + q[1] for q in case["pts"]])
    r_bin = np.linspace(0, case["rmax"], case["n"])
    for k, (amp, sg) in enumerate(((p["amp"], p["sigma"]), (p["amp2"], p["sigma2"]))):
        kap = amp / (2 * np.pi * sg**2) * np.exp(-r_bin**2 / 2 / sg**2)
        kw = dict(r_bin=r_bin, kappa_r=kap, center_x=p["cx"], center_y=p["cy"])
        gk = dict(amp=amp, sigma=sg, center_x=p["cx"], center_y=p["cy"])
        if k == 1:
            t.label("second table after set_dynamic")
            prof.set_dynamic()
        if case["hess_first"]:
            H = prof.hessian(x, y, **kw)
        a = prof.derivatives(x, y, **kw)
        b = G_.derivatives(x, y, **gk)
        sc = np.hypot(*b)
        for i in (0, 1):
            t.close(a[i], b[i], "radially tabulated deflection %s vs the profile tabulated" % "xy"[i], 0, 0.03 * sc + 1e-6)
        if not case["hess_first"]:
            H = prof.hessian(x, y, **kw)
        H2 = G_.hessian(x, y, **gk)
        hs = np.max(np.abs(H2), axis=0) + amp / (2 * np.pi * sg**2) * 0.5
        for i in range(4):
            t.close(H[i], H2[i], "radially tabulated Hessian entry %d vs the profile tabulated" % i, 0, 0.1 * hs)
        F, F2 = prof.function(x, y, **kw), G_.function(x, y, **gk)
        f0, g0 = prof.function(p["cx"] + 1.0, p["cy"], **kw), G_.function(p["cx"] + 1.0, p["cy"], **gk)
        t.close(F - f0, F2 - g0, "radially tabulated potential difference", 0, 0.03 * amp + 1e-6)


PROP.add("radial-tabulated", radial_strategy, check_radial, quick=60, thorough=1200, shards=2)


def dataless_strategy():
    return st.one_of(
        st.fixed_dictionaries({"kind": st.just("tabdef"), "par": st.fixed_dictionaries(dict(theta_E=AMP, gamma=fl(1.5, 2.5), e=E, cx=center(), cy=center())), "pts": points(0.2, 4, 1, 4)}),
        st.fixed_dictionaries({"kind": st.just("nfwmc"), "par": st.fixed_dictionaries(dict(logM=fl(9, 14), c=fl(3, 15), zl=fl(0.1, 0.8), dz=fl(0.2, 2), H0=fl(60, 80), Om=fl(0.2, 0.4), cx=center(), cy=center(), e=ellip(0.3), own=st.booleans())), "pts": points(0.1, 8, 1, 4)}),
        st.fixed_dictionaries({"kind": st.just("synthesis"), "par": st.fixed_dictionaries(dict(k=logf(0.2, 1), s=st.lists(logf(0.3, 3), min_size=2, max_size=2), w=st.lists(AMP, min_size=2, max_size=2), cx=center(), cy=center())), "pts": points(0.1, 4, 1, 4)}),
    )


def check_dataless(case, t):
    from lenstronomy.LensModel.lens_model import LensModel

    p = case["par"]
    k = case["kind"]
    t.label(k)
    x = np.array([p["cx"] + q[0] for q in case["pts"]])
    y = np.array([p["cy"] + q[1] for q in case["pts"]])
    c = dict(center_x=p["cx"], center_y=p["cy"])
    if k == "tabdef":
        from lenstronomy.LensModel.Profiles.numerical_deflections import TabulatedDeflections

        epl = lp.instance("EPL")
        kw = dict(theta_E=p["theta_E"], gamma=p["gamma"], e1=p["e"][0], e2=p["e"][1])
        tab = TabulatedDeflections(custom_class=lambda xx, yy, **kk: epl.derivatives(xx, yy, **kk))
        for a, b in zip(tab.derivatives(x, y, **kw, **c), epl.derivatives(x, y, **kw, **c)):
            t.close(a, b, "user-supplied deflection field", 1e-7, 1e-9)
        H2 = epl.hessian(x, y, **kw, **c)
        hs = np.max(np.abs(H2), axis=0)
        for a, b in zip(tab.hessian(x, y, **kw, **c), H2):
            t.close(a, b, "Hessian of a user-supplied deflection field", 0, 1e-3 * hs + 1e-3)
    elif k == "nfwmc":
        from astropy.cosmology import FlatLambdaCDM
        from lenstronomy.Cosmo.lens_cosmo import LensCosmo

        cosmo = FlatLambdaCDM(H0=p["H0"], Om0=p["Om"], Ob0=0.05) if p["own"] else FlatLambdaCDM(H0=70, Om0=0.3, Ob0=0.05)
        zs = p["zl"] + p["dz"]
        lc = LensCosmo(z_lens=p["zl"], z_source=zs, cosmo=cosmo)
        Rs, aRs = lc.nfw_physical2angle(10 ** p["logM"], p["c"])
        e = dict(e1=p["e"][0], e2=p["e"][1])
        prof_kw = [{"cosmo": cosmo if p["own"] else None}, {"cosmo": cosmo if p["own"] else None}]
        m1 = LensModel(["NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL"], profile_kwargs_list=prof_kw, lens_redshift_list=[p["zl"]] * 2, z_source=zs)
        m2 = LensModel(["NFW", "NFW_ELLIPSE_CSE"])  # the elliptical version is documented (and implemented) as the CSE decomposition
        mc = dict(logM=p["logM"], concentration=p["c"], **c)
        k1, k2 = [mc, dict(mc, **e)], [dict(Rs=Rs, alpha_Rs=aRs, **c), dict(Rs=Rs, alpha_Rs=aRs, **c, **e)]
        for which in (0, 1):
            for a, b, n in zip(m1.alpha(x, y, k1, k=[which]), m2.alpha(x, y, k2, k=[which]), "xy"):
                t.close(a, b, "NFW by mass and concentration: deflection " + n, 1e-5, 1e-9 * (aRs + 1e-9))
            for a, b in zip(m1.hessian(x, y, k1, k=[which]), m2.hessian(x, y, k2, k=[which])):
                t.close(a, b, "NFW by mass and concentration: Hessian", 1e-4, 1e-4 * aRs / Rs)
            t.close(m1.potential(x, y, k1, k=[which]), m2.potential(x, y, k2, k=[which]), "NFW by mass and concentration: potential", 1e-5, 1e-7 * aRs * Rs)
    else:
        # a synthesis of the very components the target is made of recovers it
        from lenstronomy.LensModel.Profiles.synthesis import SynthesisProfile

        s1 = p["s"][0]
        comps = [dict(amp=1.0, sigma=s1, **c), dict(amp=1.0, sigma=s1 * 2.5, **c)]
        tgt = dict(amp=p["w"][0], sigma=s1, **c)
        prof = SynthesisProfile("GAUSSIAN", "GAUSSIAN", comps, dict(lower_log_bound=-2, upper_log_bound=0.3 + math.log10(s1), num_r_evals=60, sigma=0.01))
        G_ = lp.instance("GAUSSIAN")
        b = G_.derivatives(x, y, **tgt)
        for a, b_ in zip(prof.derivatives(x, y, **tgt), b):
            t.close(a, b_, "synthesised deflection of a target inside the component space", 0, 1e-4 * np.hypot(*b) + 1e-7)
        for a, b_ in zip(prof.hessian(x, y, **tgt), G_.hessian(x, y, **tgt)):
            t.close(a, b_, "synthesised Hessian of a target inside the component space", 1e-4, 1e-4 * p["w"][0] / s1**2)


PROP.add("by-construction", dataless_strategy, check_dataless, quick=240, thorough=3000, shards=2)
