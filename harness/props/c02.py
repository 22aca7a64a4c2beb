"""C02: every radial mass quantity of a lens profile describes the same mass distribution."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import logf

PROP = Property(
    "C02",
    rule="A case is one lens profile with spherical keyword values and two radii r1<r2 (log-uniform, relative to the "
    "profile's own scales). Non-trivial: the convergence at r1 is non-zero and the reference quadrature converged.",
    assumptions=[
        "radii between 0.05 and 10 arcsec",
        "reference integrals: composite Gauss-Legendre in log radius, compared at two resolutions",
        "only closed-form profiles; profiles whose mass functions are documented as unavailable are skipped",
    ],
    title="Density, enclosed mass, deflection and convergence describe one mass",
    statement="For a lens profile evaluated with spherical parameters, the 3D density, the mass enclosed in a sphere, the projected "
    "surface density, the mass enclosed in a cylinder, the deflection angle and the convergence (half the trace of the Hessian) are "
    "mutually consistent: each is the integral, projection or derivative of the others with the same normalisation. Conversions between "
    "normalisation parameters (central density, deflection at the scale radius, Einstein radius, central surface density) are inverses of each other.",
    over=["inputs"],
    quant="all profiles offering mass or density functions, all positive amplitudes, scale radii and slopes, all radii",
    why="The tests compare a handful of parameter values and radii, often of one function against itself in another class; the "
    "consistency has to hold at every radius (inside, at and beyond each scale radius) and for every normalisation.",
    files=["lenstronomy/LensModel/Profiles", "lenstronomy/LensModel/profile_integrals.py"],
    mechanism=[("closed-form density/mass functions per profile", "lenstronomy/LensModel/Profiles/*.py"),
               ("default cylinder mass from the deflection", "lenstronomy/LensModel/Profiles/base_profile.py")],
)

R = logf(0.05, 10.0, special=(1.0, 0.5, 2.0))

# name -> which "lens" functions exist: d=density_lens, 3=mass_3d_lens, 2=mass_2d_lens
LENS = {
    "CHAMELEON": "d3", "CNFW": "d3", "CORED_DENSITY": "d3", "CORED_DENSITY_2": "d3", "CORED_DENSITY_EXP": "d3",
    "DOUBLE_CHAMELEON": "d3", "EPL": "d3", "EPL_Q_PHI": "d3", "GAUSSIAN": "d32", "HERNQUIST": "d32",
    "HERNQUIST_ELLIPSE_POTENTIAL": "d32", "HERNQUIST_ELLIPSE_CSE": "d32", "NFW": "d32", "NIE": "d3", "NFW_ELLIPSE_POTENTIAL": "d3",
    "PJAFFE": "d3", "PSEUDO_DPL": "d3", "SIE": "d32", "SIS": "d32", "SPEP": "d3", "SPL_CORE": "d32", "SPP": "d32", "TNFWC": "d3",
    "TRIPLE_CHAMELEON": "d3", "ULDM": "d3",
    "POINT_MASS": "3", "GNFW": "d3", "PJAFFE_ELLIPSE_POTENTIAL": "3",
}
# raw functions taking rho0-like amplitude: name -> (amp kw replaced, functions)
RAW = {
    "CNFW": ("alpha_Rs", "rho0", "d2s3"), "CORED_DENSITY": (None, None, "d2s3"), "CORED_DENSITY_2": (None, None, "d2s3"),
    "CORED_DENSITY_EXP": (None, None, "d2s3"), "GAUSSIAN": (None, None, "d2s3"), "HERNQUIST": ("sigma0", "rho0", "d2s3"),
    "NFW": ("alpha_Rs", "rho0", "d2s3"), "PJAFFE": ("sigma0", "rho0", "d2s3"), "PSEUDO_DPL": ("alpha_Rs", "rho0", "d2s3"),
    "SIS": ("theta_E", "rho0", "d2s3"), "SPP": ("theta_E", "rho0", "d2s3"), "SPL_CORE": ("sigma0", "rho0", "d2s3"),
    "TNFW": ("alpha_Rs", "rho0", "d2s3"), "TNFWC": ("alpha_Rs", "rho0", "d2s3"), "ULDM": (None, None, "d2s3"),
    "coreBURKERT": ("alpha_Rs", "rho0", "d2s3"), "GNFW": ("alpha_Rs", "rho0", "ds3"), "SIE": ("theta_E", "rho0", "d2s3"),
}


def _round(name, kw):
    kw = dict(kw)
    p = lp.CAT[name]
    for a, b in p.e_pairs:
        kw[a] = kw[b] = 0.0
    if name == "EPL_Q_PHI":
        kw["q"] = 1.0
    if p.ctr:
        kw[p.ctr[0]] = kw[p.ctr[1]] = 0.0
    if name == "SPL_CORE":
        g = kw["gamma"]
        for bad in (2.0, 3.0):
            if abs(g - bad) < 1e-3:
                kw["gamma"] = bad if bad == 3.0 else 2.05
    if name == "TNFWC":
        # core inside scale radius inside truncation
        a = sorted([kw["r_core"], kw["Rs"], kw["r_trunc"]])
        kw["r_core"], kw["Rs"], kw["r_trunc"] = a[0], a[1] * 1.1, a[2] * 1.3
    return kw


def _log_int(f, a, b, n=24, pieces=4):
    """int_a^b f(r) dr in log r with composite Gauss-Legendre, plus an error estimate."""
    out = []
    for m in (n, n - 7):
        u, w = np.polynomial.legendre.leggauss(m)
        tot = 0.0
        edges = np.linspace(math.log(a), math.log(b), pieces + 1)
        for lo, hi in zip(edges[:-1], edges[1:]):
            lr = 0.5 * (hi - lo) * u + 0.5 * (hi + lo)
            r = np.exp(lr)
            tot += np.sum(w * f(r) * r) * 0.5 * (hi - lo)
        out.append(tot)
    return out[0], abs(out[0] - out[1])


def _project(rho, R):
    """2 int_0^inf rho(sqrt(R^2+z^2)) dz with z = R sinh(u)."""
    out = []
    for m in (24, 17):
        u, w = np.polynomial.legendre.leggauss(m)
        tot = 0.0
        edges = np.linspace(0, 26.0, 27)
        for lo, hi in zip(edges[:-1], edges[1:]):
            v = 0.5 * (hi - lo) * u + 0.5 * (hi + lo)
            z = R * np.sinh(v)
            tot += np.sum(w * rho(np.sqrt(R**2 + z**2)) * R * np.cosh(v)) * 0.5 * (hi - lo)
        # power-law tail beyond the last node
        z1, z2 = R * math.sinh(25.0), R * math.sinh(26.0)
        d1, d2 = (float(rho(np.array([math.hypot(R, z)]))[0]) for z in (z1, z2))
        if d1 > 0 and d2 > 0:
            slope = -math.log(d2 / d1) / math.log(z2 / z1)
            if slope > 1.02:
                tot += d2 * z2 / (slope - 1)
        out.append(2 * tot)
    return out[0], abs(out[0] - out[1])


TOL = {"CNFW": 3e-3, "CNFW_ELLIPSE_POTENTIAL": 1e-2, "GNFW": 1e-3, "PSEUDO_DPL": 1e-3, "NIE": 2e-3, "CHAMELEON": 3e-2, "DOUBLE_CHAMELEON": 3e-2,
       "TRIPLE_CHAMELEON": 3e-2, "SIE": 1e-3, "NFW_ELLIPSE_POTENTIAL": 5e-2, "HERNQUIST": 1e-3, "TNFW_ELLIPSE_POTENTIAL": 1e-2, "PJAFFE_ELLIPSE_POTENTIAL": 1e-3,
       "HERNQUIST_ELLIPSE_CSE": 2e-3, "TNFWC": 1e-3}
NOPROJ = ()


def case_s(names):
    def make(name):
        return st.tuples(lp.CAT[name].kw(), R, R).map(
            lambda v: {"model": name, "kw": _round(name, v[0]), "r1": min(v[1], v[2]), "r2": max(v[1], v[2]) * 1.05}
        )

    return st.sampled_from(sorted(names)).flatmap(make)


def _cmp(t, got, want, err, rtol, what, scale=None, atol=0.0):
    s = abs(want) if scale is None else scale
    if not (math.isfinite(got) and math.isfinite(want)):
        t.fail("%s: non-finite (%r vs %r)" % (what, got, want))
    if err > 0.01 * abs(want):
        t.label("quadrature-unresolved")
        return
    if abs(got - want) > rtol * s + 5 * err + atol:
        t.fail("%s: %r, reference %r (rel. %.2e)" % (what, float(got), float(want), abs(got - want) / (abs(want) + 1e-300)))


def _lenskw(kw, p):
    return {k: v for k, v in lp.call_kw(kw).items() if not (p.ctr and k in p.ctr)}


def lens_check(case, t):
    name, kw, r1, r2 = case["model"], case["kw"], case["r1"], case["r2"]
    p = lp.CAT[name]
    prof = lp.instance(name)
    have = LENS[name]
    t.label(name)
    tol = TOL.get(name, 1e-4)
    k = _lenskw(kw, p)
    full = lp.call_kw(kw)
    # convergence and deflection along a generic direction
    c, s = math.cos(0.7), math.sin(0.7)
    x, y = np.array([r1 * c, r2 * c]), np.array([r1 * s, r2 * s])
    ax, ay = prof.derivatives(x, y, **full)
    alpha = ax * c + ay * s
    fxx, fxy, fyx, fyy = prof.hessian(x, y, **full)
    kappa = (fxx + fyy) / 2
    t.finite(alpha, "deflection")
    m2 = np.pi * np.array([r1, r2]) * alpha
    if "2" in have:
        for i, r in enumerate((r1, r2)):
            _cmp(t, float(prof.mass_2d_lens(r, **k)), m2[i], 0, tol, "cylinder mass vs deflection at r=%r" % r)
    if "3" in have:
        m3a, m3b = (float(prof.mass_3d_lens(r, **k)) for r in (r1, r2))
        if name == "POINT_MASS":
            _cmp(t, m3a, m2[0], 0, tol, "sphere mass vs deflection (point mass)")
            return
        if not m3a <= m3b * (1 + 1e-6):
            t.fail("sphere mass decreases outwards: M(%r)=%r, M(%r)=%r" % (r1, m3a, r2, m3b))
        if not m3a <= m2[0] * (1 + 2 * tol) + 1e-12:
            t.fail("mass in the sphere (%r) exceeds the mass in the cylinder (%r) at r=%r" % (m3a, m2[0], r1))
    if "d" in have:
        rho = lambda r: np.asarray(prof.density_lens(r, **k), dtype=float)  # noqa
        if "3" in have:
            want, err = _log_int(lambda r: 4 * np.pi * r**2 * rho(r), r1, r2)
            _cmp(t, m3b - m3a, want, err, tol, "sphere mass between %r and %r vs density integral" % (r1, r2), scale=abs(want) + 1e-2 * tol * abs(m3b) + 1e-6 * abs(m3b) / tol)
        want, err = _project(rho, r1)
        _cmp(t, float(kappa[0]), want, err, tol, "convergence vs projected density at R=%r" % r1, atol=0.1 * tol * float(alpha[0] / r1))


def _amp(prof, name, kw):
    if name in ("CNFW", "coreBURKERT"):
        # normalisation by definition: deflection at Rs
        return kw["alpha_Rs"]
    return 1.0


def raw_check(case, t):
    name, kw, r1, r2 = case["model"], case["kw"], case["r1"], case["r2"]
    amp, raw, have = RAW[name]
    p = lp.CAT[name]
    prof = lp.instance(name)
    t.label(name)
    tol = TOL.get(name, 1e-4)
    k = _lenskw(kw, p)
    if amp is not None:
        k[raw] = k.pop(amp)
    rho = lambda r: np.asarray(prof.density(r, **k), dtype=float)  # noqa
    sig = lambda r: np.asarray(prof.density_2d(r, np.zeros_like(r), **k), dtype=float)  # noqa
    want, err = _project(rho, r1)
    got = float(sig(np.array([r1]))[0])
    _cmp(t, got, want, err, tol, "projected density vs line-of-sight integral of the density at R=%r" % r1)
    if "3" in have:
        a, b = float(prof.mass_3d(r1, **k)), float(prof.mass_3d(r2, **k))
        want, err = _log_int(lambda r: 4 * np.pi * r**2 * rho(r), r1, r2)
        _cmp(t, b - a, want, err, tol, "sphere mass between %r and %r vs density integral" % (r1, r2), scale=abs(want) + 1e-6 * abs(b) / tol)
    if "2" in have:
        a, b = float(prof.mass_2d(r1, **k)), float(prof.mass_2d(r2, **k))
        want, err = _log_int(lambda r: 2 * np.pi * r * sig(r), r1, r2)
        _cmp(t, b - a, want, err, tol, "cylinder mass between %r and %r vs projected density integral" % (r1, r2), scale=abs(want) + 1e-6 * abs(b) / tol)


CONV = {
    "NFW": ("alpha2rho0", "rho02alpha", ("Rs",), "alpha_Rs", "rho0"),
    "TNFW": ("alpha2rho0", "rho02alpha", ("Rs",), "alpha_Rs", "rho0"),
    "TNFWC": ("alpha2rho0", "rho02alpha", ("Rs", "r_core", "r_trunc"), "alpha_Rs", "rho0"),
    "GNFW": ("alpha2rho0", "rho02alpha", ("Rs", "gamma_in"), "alpha_Rs", "rho0"),
    "PSEUDO_DPL": ("alpha2rho0", "rho02alpha", ("Rs", "gamma_inner", "gamma_outer"), "alpha_Rs", "rho0"),
    "HERNQUIST": ("sigma2rho", "rho2sigma", ("Rs",), "sigma0", "rho0"),
    "PJAFFE": ("sigma2rho", "rho2sigma", ("Ra", "Rs"), "sigma0", "rho0"),
    "SIS": ("theta2rho", "rho2theta", (), "theta_E", "rho0"),
    "SPP": ("theta2rho", "rho2theta", ("gamma",), "theta_E", "rho0"),
}


def conv_check(case, t):
    name, kw = case["model"], case["kw"]
    f, g, keys, a, b = CONV[name]
    prof = lp.instance(name)
    t.label(name)
    extra = {k: kw[k] for k in keys}
    v = kw[a]
    rho = getattr(prof, f)(v, **extra)
    back = getattr(prof, g)(rho, **extra)
    t.close(back, v, "%s(%s(%s))" % (g, f, a), rtol=1e-9)
    # the converted normalisation gives the same mass as the lensing one
    p = lp.CAT[name]
    k = _lenskw(kw, p)
    k2 = dict(k)
    k2.pop(a)
    k2["rho0"] = float(rho)
    r = case["r1"]
    x = np.array([r])
    if hasattr(prof, "mass_2d"):
        ax, ay = prof.derivatives(x, np.zeros(1), **k)
        t.close(prof.mass_2d(r, **k2), np.pi * r * ax[0], "cylinder mass with converted normalisation vs deflection at %r" % r, rtol=TOL.get(name, 1e-4))
    fxx, fxy, fyx, fyy = prof.hessian(x, np.zeros(1), **k)
    want = (fxx + fyy)[0] / 2
    got = np.asarray(prof.density_2d(x, np.zeros(1), **k2), dtype=float)[0]
    t.close(got, want, "projected density with converted normalisation vs convergence at %r" % r, rtol=TOL.get(name, 1e-4), atol=1e-6 * abs(want) + 1e-9)


_SLOW = {"GNFW"}
PROP.add("lens-mass", lambda: case_s(set(LENS) - _SLOW), lens_check, quick=2600, thorough=40000, shards=5)
PROP.add("raw-mass", lambda: case_s(set(RAW) - _SLOW), raw_check, quick=1500, thorough=24000, shards=3)
PROP.add("normalisation", lambda: case_s(set(CONV) - _SLOW), conv_check, quick=1000, thorough=12000, shards=2)
PROP.add("slow-lens", lambda: case_s({"GNFW"}), lens_check, quick=6, thorough=60, shards=2)
PROP.add("slow-raw", lambda: case_s({"GNFW"}), raw_check, quick=6, thorough=60, shards=2)


# ---------------------------------------------------------------------------------------------------------------------
# totals, gravitational potentials, sums over components, Gaussian sets, grid integrals
def tot_s():
    return st.fixed_dictionaries({"rho0": logf(0.1, 10.0), "Rs": logf(0.2, 4.0), "ratio": logf(0.05, 0.8), "gamma": st.sampled_from([1.5, 1.8, 2.0, 2.3]),
                                  "r": R, "swap": st.booleans(), "phi": st.floats(0, 6.28), "cx": st.floats(-1, 1), "cy": st.floats(-1, 1)})


@PROP.facet("totals", tot_s, quick=300, thorough=5000, shards=1)
def totals(case, t):
    rho0, Rs, r = case["rho0"], case["Rs"], case["r"]
    Ra = case["ratio"] * Rs
    if case["swap"]:
        kj = {"Ra": Rs, "Rs": Ra}
    else:
        kj = {"Ra": Ra, "Rs": Rs}
    h, pj = lp.instance("HERNQUIST"), lp.instance("PJAFFE")
    far = 1e7
    t.close(h.mass_3d(far, rho0=rho0, Rs=Rs), h.mass_tot(rho0, Rs), "Hernquist total mass vs mass in a huge sphere", rtol=1e-5)
    t.close(pj.mass_3d(far, rho0=rho0, **kj), pj.mass_tot(rho0, **kj), "pseudo-Jaffe total mass vs mass in a huge sphere", rtol=1e-5)
    t.close(pj.mass_2d(far, rho0=rho0, **kj), pj.mass_tot(rho0, **kj), "pseudo-Jaffe total mass vs mass in a huge cylinder", rtol=1e-5)
    x, y = case["cx"] + r * math.cos(case["phi"]), case["cy"] + r * math.sin(case["phi"])
    ctr = {"center_x": case["cx"], "center_y": case["cy"]}
    sis, spp, sie = lp.instance("SIS"), lp.instance("SPP"), lp.instance("SIE")
    t.close(sis.grav_pot(x, y, rho0, **ctr) * r, sis.mass_3d(r, rho0), "SIS potential r vs enclosed mass", rtol=1e-6)
    t.close(sie.grav_pot(x, y, rho0, **ctr) * r, sie.mass_3d(r, rho0), "SIE potential r vs enclosed mass", rtol=1e-6)
    t.close(spp.grav_pot(x, y, rho0, case["gamma"], **ctr) * r, spp.mass_3d(r, rho0, case["gamma"]), "SPP potential r vs enclosed mass", rtol=1e-6)
    # gradient of the gravitational potential is the enclosed mass over r^2
    d = 1e-4 * r
    for nm, f, m in (("Hernquist", lambda q: h.grav_pot(q, 0.0, rho0, Rs), h.mass_3d(r, rho0, Rs)), ("pseudo-Jaffe", lambda q: pj.grav_pot(q, rho0, **kj), pj.mass_3d(r, rho0, **kj))):
        num = -(f(r + d) - f(r - d)) / (2 * d) * r**2
        t.close(abs(num), m, "%s: gradient of the gravitational potential vs enclosed mass" % nm, rtol=1e-4, atol=1e-6 * abs(f(r)) * r)


def sum_s():
    one = st.sampled_from(["SIS", "NFW", "HERNQUIST", "SIE", "SPP", "GAUSSIAN", "SPL_CORE"]).flatmap(
        lambda n: lp.CAT[n].kw().map(lambda k: {"m": n, "kw": _keepc(n, k)}))
    return st.fixed_dictionaries({"c": st.lists(one, min_size=1, max_size=4), "sel": st.integers(0, 15), "form": st.sampled_from(["none", "tuple", "list", "int"]), "r": R})


def _keepc(name, kw):
    out = _round(name, kw)
    p = lp.CAT[name]
    if p.ctr:
        out[p.ctr[0]], out[p.ctr[1]] = kw[p.ctr[0]], kw[p.ctr[1]]
    return out


@PROP.facet("component-sum", sum_s, quick=300, thorough=4000, shards=1)
def component_sum(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.single_plane import SinglePlane

    names = [c["m"] for c in case["c"]]
    kws = [lp.call_kw(c["kw"]) for c in case["c"]]
    n = len(names)
    idx = [i for i in range(n) if case["sel"] >> i & 1]
    if case["form"] == "none":
        sel, idx = None, list(range(n))
    elif case["form"] == "int":
        i = case["sel"] % n
        sel, idx = i, [i]
    else:
        sel = tuple(idx) if case["form"] == "tuple" else [i in idx for i in range(n)]
    sp = SinglePlane(names)
    r = case["r"]
    want = [0.0, 0.0, 0.0]
    for i in idx:
        k = _lenskw(case["c"][i]["kw"], lp.CAT[names[i]])
        pr = lp.instance(names[i])
        want[0] += pr.mass_3d_lens(r, **k)
        want[1] += pr.mass_2d_lens(r, **k)
        want[2] += pr.density_lens(r, **k)
    if isinstance(sel, int) and not isinstance(sel, bool):
        sel = (sel,)
    before = [dict(k) for k in kws]
    t.close(sp.mass_3d(r, kws, bool_list=sel), want[0], "mass in the sphere: sum over components", rtol=1e-6)
    t.close(sp.mass_2d(r, kws, bool_list=sel), want[1], "mass in the cylinder: sum over components", rtol=1e-6)
    t.close(sp.density(r, kws, bool_list=sel), want[2], "density: sum over components", rtol=1e-6)
    t.equal(kws, before, "keyword arguments left alone")
    t.nontrivial(len(idx) > 0 and n > 1)
    # line-of-sight entries do not contribute to the mass of the main lens
    los = {"kappa_os": 0.05, "gamma1_os": 0.02, "gamma2_os": 0.01, "kappa_od": 0.03, "gamma1_od": -0.02, "gamma2_od": 0.04, "kappa_ds": 0.02,
           "gamma1_ds": 0.01, "gamma2_ds": -0.03, "omega_os": 0.01}
    full = LensModel(names + ["LOS"])
    lmod = getattr(full, "lens_model", None)
    if lmod is not None and case["form"] == "none":
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            t.close(lmod.mass_3d(r, kws + [los]), want[0], "mass in the sphere with a line-of-sight entry", rtol=1e-6)
            t.close(lmod.mass_2d(r, kws + [los]), want[1], "mass in the cylinder with a line-of-sight entry", rtol=1e-6)
            t.close(lmod.density(r, kws + [los]), want[2], "density with a line-of-sight entry", rtol=1e-6)


def mg_s():
    return st.fixed_dictionaries({"amp": st.lists(logf(0.1, 5.0), min_size=1, max_size=4), "sig": st.lists(logf(0.15, 3.0), min_size=4, max_size=4),
                                  "sf": logf(0.2, 3.0), "r": R, "phi": st.floats(0, 6.28), "cx": st.floats(-1, 1), "cy": st.floats(-1, 1),
                                  "e": st.tuples(st.floats(-0.25, 0.25), st.floats(-0.25, 0.25))})


@PROP.facet("gaussian-sets", mg_s, quick=250, thorough=3000, shards=1)
def gaussian_sets(case, t):
    from lenstronomy.LensModel.Profiles.gaussian_ellipse_kappa import GaussianEllipseKappa
    from lenstronomy.LensModel.Profiles.gaussian_ellipse_potential import GaussianEllipsePotential
    from lenstronomy.LensModel.Profiles.multi_gaussian import MultiGaussian, MultiGaussianEllipsePotential
    from lenstronomy.LensModel.Profiles.multi_gaussian_ellipse_kappa import MultiGaussianEllipseKappa

    amp = np.array(case["amp"])
    sig = np.array(case["sig"][: len(amp)])
    sf, r = case["sf"], case["r"]
    rho = lambda q: sum(sf * a * np.exp(-q**2 / (2 * s**2)) / (2 * np.pi * s**2) / math.sqrt(2 * math.pi) / s for a, s in zip(amp, sig))  # noqa
    sigma = lambda q: sum(sf * a * np.exp(-q**2 / (2 * s**2)) / (2 * np.pi * s**2) for a, s in zip(amp, sig))  # noqa
    rho3 = lambda q: sum(sf * a * np.exp(-q**2 / (2 * s**2)) / (2 * np.pi * s**2) for a, s in zip(amp, sig))  # noqa
    sig3 = lambda q: sum(sf * a * np.exp(-q**2 / (2 * s**2)) / (2 * np.pi * s**2) * math.sqrt(2 * math.pi) * s for a, s in zip(amp, sig))  # noqa
    m3, err = _log_int(lambda q: 4 * np.pi * q**2 * rho(q), 1e-5, r, pieces=14)
    kw = {"amp": amp, "sigma": sig, "scale_factor": sf}
    ctr = {"center_x": case["cx"], "center_y": case["cy"]}
    x, y = np.array([case["cx"] + r * math.cos(case["phi"])]), np.array([case["cy"] + r * math.sin(case["phi"])])
    mg, me = MultiGaussian(), MultiGaussianEllipsePotential()
    e0 = {"e1": 0.0, "e2": 0.0}
    for nm, p, e in (("MULTI_GAUSSIAN", mg, {}), ("MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", me, e0)):
        # density and projected density take the three-dimensional amplitude
        t.close(p.density(r, **kw, **e), rho3(r), nm + " density", rtol=1e-6)
        t.close(p.density_2d(x, y, **kw, **e, **ctr), [sig3(r)], nm + " projected density", rtol=1e-6)
        t.close(p.mass_3d_lens(r, **kw, **e), m3, nm + " enclosed mass", rtol=1e-5, atol=5 * err)
    ge, gk = GaussianEllipsePotential(), GaussianEllipseKappa()
    a, s = amp[0], sig[0]
    one = a * math.exp(-r**2 / (2 * s**2)) / (2 * math.pi * s**2)
    root = math.sqrt(2 * math.pi) * s
    enc = 1 - math.exp(-r**2 / (2 * s**2))
    t.close(ge.density_2d(x, y, a, s, 0.0, 0.0, **ctr), [one * root], "GAUSSIAN_ELLIPSE_POTENTIAL projected density", rtol=1e-6)
    t.close(ge.density(r, a, s, 0.0, 0.0), one, "GAUSSIAN_ELLIPSE_POTENTIAL density", rtol=1e-6)
    t.close(ge.mass_2d(r, a, s, 0.0, 0.0), a * root * enc, "GAUSSIAN_ELLIPSE_POTENTIAL cylinder mass", rtol=1e-5)
    t.close(ge.mass_2d_lens(r, a, s, 0.0, 0.0), a * enc, "GAUSSIAN_ELLIPSE_POTENTIAL cylinder mass (lens)", rtol=1e-5)
    w3, err = _log_int(lambda q: 4 * np.pi * q**2 * a * np.exp(-q**2 / (2 * s**2)) / (2 * np.pi * s**2), 1e-5, r, pieces=14)
    t.close(ge.mass_3d(r, a, s, 0.0, 0.0), w3, "GAUSSIAN_ELLIPSE_POTENTIAL sphere mass", rtol=1e-5, atol=5 * err)
    # elliptical mass: the projected density is the convergence
    e = {"e1": case["e"][0], "e2": case["e"][1]}
    if math.hypot(*case["e"]) > 0.02:
        fxx, fxy, fyx, fyy = gk.hessian(x, y, a, s, **e, **ctr)
        t.close(gk.density_2d(x, y, a, s, **e, **ctr), (fxx + fyy) / 2, "GAUSSIAN_ELLIPSE_KAPPA projected density vs convergence", rtol=1e-4, atol=1e-6 * a / s**2)
        mk = MultiGaussianEllipseKappa()
        fxx, fxy, fyx, fyy = mk.hessian(x, y, **kw, **e, **ctr)
        t.close(mk.density_2d(x, y, **kw, **e, **ctr), (fxx + fyy) / 2, "MULTI_GAUSSIAN_ELLIPSE_KAPPA projected density vs convergence", rtol=1e-4,
                atol=1e-6 * float(np.sum(sf * amp / sig**2)))
        t.nontrivial(True)


def pi_s():
    return st.sampled_from(["HERNQUIST", "NFW", "GAUSSIAN", "PJAFFE", "SPL_CORE"]).flatmap(
        lambda n: st.tuples(lp.CAT[n].kw(), R).map(lambda v: {"model": n, "kw": _round(n, v[0]), "r": v[1]}))


@PROP.facet("profile-integrals", pi_s, quick=60, thorough=800, shards=1)
def profile_integrals(case, t):
    import warnings

    from lenstronomy.LensModel.profile_integrals import ProfileIntegrals

    name, kw, r = case["model"], case["kw"], case["r"]
    p = lp.CAT[name]
    prof = lp.instance(name)
    t.label(name)
    k = _lenskw(kw, p)
    rho = lambda q: np.asarray(prof.density_lens(q, **k), dtype=float)  # noqa
    m3, err = _log_int(lambda q: 4 * np.pi * q**2 * rho(q), 1e-6, r, pieces=20)
    full = dict(lp.call_kw(kw))
    full["center_x"], full["center_y"] = 1.3, -0.4
    before = dict(full)
    pi = ProfileIntegrals(prof)
    zz = np.concatenate([[0.0], np.geomspace(1e-5, 100.0, 60)])
    u, w = np.polynomial.legendre.leggauss(12)
    s2 = 0.0
    for lo, hi in zip(zz[:-1], zz[1:]):
        z = 0.5 * (hi - lo) * u + 0.5 * (hi + lo)
        s2 += 2 * np.sum(w * rho(np.sqrt(z**2 + r**2))) * 0.5 * (hi - lo)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g3, g2 = pi.mass_enclosed_3d(r, full, lens_param=True), pi.density_2d(r, full, lens_param=True)
    _cmp(t, g3, m3, err, 1e-3, "%s: numerical enclosed mass at %r" % (name, r), atol=1e-9)
    _cmp(t, g2, s2, 0, 1e-3, "%s: numerical projected density at %r" % (name, r), atol=1e-5 * float(rho(np.array([r]))[0]) * r + 1e-9)
    t.equal(full, before, "keyword arguments left alone")
    if name in ("HERNQUIST", "GAUSSIAN") and name in RAW:
        amp, raw, _ = RAW[name]
        kr = dict(k)
        if amp is not None:
            kr[raw] = kr.pop(amp)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _cmp(t, pi.mass_enclosed_3d(r, dict(kr)), float(prof.mass_3d(r, **kr)), 0, 1e-3, "%s: numerical enclosed mass, mass parameters" % name)
            _cmp(t, pi.mass_enclosed_2d(r, dict(kr)), float(prof.mass_2d(r, **kr)), 0, 5e-3, "%s: numerical cylinder mass, mass parameters" % name)


def kg_s():
    return st.fixed_dictionaries({"n": st.sampled_from([30, 32, 40]), "dx": logf(0.05, 0.3), "sig": st.floats(2.5, 5.0), "amp": logf(0.1, 5.0),
                                  "ox": st.floats(-4, 4), "oy": st.floats(-4, 4), "low": st.sampled_from([2, 5]), "ker": st.sampled_from([5, 7, 9])})


@PROP.facet("kappa-grid", kg_s, quick=60, thorough=800, shards=1)
def kappa_grid(case, t):
    """deflection and potential computed from a convergence map are those of the mass in the map"""
    from lenstronomy.LensModel import convergence_integrals as ci
    from lenstronomy.LensModel.Profiles.gaussian import Gaussian

    n, dx = case["n"], case["dx"]
    s = case["sig"] * dx * n / 40
    c = (np.arange(n) - (n - 1) / 2) * dx
    x, y = np.meshgrid(c, c)
    k = {"amp": case["amp"], "sigma": s, "center_x": case["ox"] * dx, "center_y": case["oy"] * dx}
    g = Gaussian()
    sh = lambda v: np.asarray(v).reshape(n, n)  # noqa
    fxx, fxy, fyx, fyy = g.hessian(x.ravel(), y.ravel(), **k)
    kappa = sh(fxx + fyy) / 2
    before = kappa.copy()
    ax, ay = (sh(v) for v in g.derivatives(x.ravel(), y.ravel(), **k))
    scale = float(np.max(np.hypot(ax, ay)))
    gx, gy = ci.deflection_from_kappa_grid(kappa, dx)
    t.close(gx, ax, "x-deflection of a convergence map", rtol=0, atol=0.06 * scale)
    t.close(gy, ay, "y-deflection of a convergence map", rtol=0, atol=0.06 * scale)
    pot = ci.potential_from_kappa_grid(kappa, dx)
    f = sh(g.function(x.ravel(), y.ravel(), **k))
    d = pot - f
    t.close(d - np.mean(d), np.zeros_like(d), "potential of a convergence map (up to a constant)", rtol=0, atol=0.02 * float(np.ptp(f)))
    t.unchanged(kappa, before, "convergence map")
    t.nontrivial(True)
    if n % case["low"] == 0:
        lx, ly = ci.deflection_from_kappa_grid_adaptive(kappa, dx, case["low"], case["ker"])
        b = lambda im: im.reshape(n // case["low"], case["low"], n // case["low"], case["low"]).mean(axis=(1, 3))  # noqa
        for nm, got, want in (("x", lx, gx), ("y", ly, gy)):
            t.close(got, b(want), "%s-deflection, adaptive resolution vs full resolution" % nm, rtol=0, atol=0.1 * scale)
        lp_ = ci.potential_from_kappa_grid_adaptive(kappa, dx, case["low"], case["ker"])
        d = lp_ - b(f)
        t.close(d - np.mean(d), np.zeros_like(d), "potential, adaptive resolution (up to a constant)", rtol=0, atol=0.06 * float(np.ptp(f)))


def vt_s():
    return st.fixed_dictionaries({"logM": st.floats(11, 15), "c": st.floats(2.5, 15), "zl": st.floats(0.1, 0.8), "dz": st.floats(0.2, 1.5), "x": st.lists(st.one_of(st.floats(0.01, 1.6), st.just(1.0)), min_size=1, max_size=5)})


@PROP.facet("truncated-nfw", vt_s, quick=100, thorough=1500, shards=1)
def vir_trunc(case, t):
    from astropy.cosmology import FlatLambdaCDM

    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from lenstronomy.LensModel.Profiles.nfw_vir_trunc import NFWVirTrunc

    p = NFWVirTrunc(z_lens=case["zl"], z_source=case["zl"] + case["dz"])
    M, c = 10 ** case["logM"], case["c"]
    lc = LensCosmo(case["zl"], case["zl"] + case["dz"], cosmo=FlatLambdaCDM(H0=70, Om0=0.3, Ob0=0.05))
    r200 = lc.nfw_M_theta_r200(M)
    # mass inside the sphere r200 is M, nothing outside
    u, w = np.polynomial.legendre.leggauss(60)
    edges = np.concatenate([[0], np.geomspace(1e-4, 1, 12)]) * r200
    tot = 0.0
    for lo, hi in zip(edges[:-1], edges[1:]):
        q = 0.5 * (hi - lo) * u + 0.5 * (hi + lo)
        tot += np.sum(w * 2 * np.pi * q * p.kappa(q.copy(), case["logM"], c)) * 0.5 * (hi - lo)
    t.close(tot, M / lc.sigma_crit_angle, "projected mass of the truncated halo vs its virial mass", rtol=1e-3)
    th = np.array(case["x"]) * r200
    before = th.copy()
    arr = p.kappa(th, case["logM"], c)
    t.unchanged(th, before, "positions")
    rho_s = M / lc.sigma_crit_angle / (4 * math.pi * (r200 / c) ** 3 * (math.log(1 + c) - c / (1 + c)))
    for q, v in zip(th, arr):
        t.close(p.kappa(float(q), case["logM"], c), v, "one radius vs array", rtol=1e-6, atol=1e-9)
        if q >= r200:
            t.close(v, 0.0, "convergence beyond the virial radius", atol=1e-6)
            continue
        zmax = math.sqrt(r200**2 - q**2)
        rs = r200 / c
        zz = np.concatenate([[0.0], np.geomspace(1e-3 * q, zmax, 40)]) if zmax > 2e-3 * q else np.array([0.0, zmax])
        s = 0.0
        for lo, hi in zip(zz[:-1], zz[1:]):
            z = 0.5 * (hi - lo) * u[::1] + 0.5 * (hi + lo)
            rr = np.sqrt(z**2 + q**2) / rs
            s += 2 * np.sum(w * rho_s / rr / (1 + rr) ** 2) * 0.5 * (hi - lo)
        if abs(q / rs - 1) > 1e-3:
            t.close(v, s, "convergence vs projection of the truncated density at %r r200" % (q / r200), rtol=1e-3)
