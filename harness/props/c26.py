"""C26: profile analysis of lens and light models."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as C
from harness import gen as g
from harness.core import Property

PROP = Property(
    "C26",
    title="Profile analysis reports the properties of the selected model",
    statement=(
        "Einstein radii enclose a mean convergence of one, slopes, radial profiles, half-light radii, ellipticities and moments are those of the selected components about the requested centre, and over-density masses are those of the halo. "
        "They move with the model under translations and rotations, scale with angular size, ignore unselected components and flux units, and leave inputs unchanged. "
        "Gaussian expansions, light-to-mass maps, masks and sample statistics reproduce what they were made from."
    ),
    over=("inputs",),
    quant="lens and light models, centres, component selections, grids, samples, apertures",
    why="tests use centred single-component models, so offsets and selections that are dropped stay hidden",
    files=["lenstronomy/Analysis/lens_profile.py", "lenstronomy/Analysis/light_profile.py", "lenstronomy/Analysis/light2mass.py", "lenstronomy/Util/analysis_util.py", "lenstronomy/Util/mask_util.py", "lenstronomy/Util/multi_gauss_expansion.py", "lenstronomy/Util/prob_density.py", "lenstronomy/Util/correlation.py"],
    mechanism=["LensProfileAnalysis", "LightProfileAnalysis", "light2mass_interpol", "analysis_util", "mask_util", "mge_1d"],
    observe=["LensProfileAnalysis", "LightProfileAnalysis", "light2mass_interpol", "analysis_util", "mask_util", "prob_density", "correlation"],
    rule="non-trivial: off-centre model or a selection of components",
    assumptions=["grid estimates are compared within their grid resolution"],
)

off = g.uni(-1.5, 1.5)


def lens_case():
    return st.fixed_dictionaries(dict(theta_E=g.uni(0.8, 2.0), gamma=g.uni(1.7, 2.3), e1=g.uni(-0.12, 0.12), e2=g.uni(-0.12, 0.12), cx=off, cy=off, sel=st.sampled_from(["one", "list", "bool", "all"]), first=st.booleans(), r=g.uni(0.3, 3.0), lam=g.uni(0.85, 1.1), sub=g.uni(0.1, 0.4), sx=g.uni(-1, 1), sy=g.uni(-1, 1), c2=st.booleans()))


@PROP.facet("lens", lens_case, quick=120, shards=4)
def lens(case, t):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis, einstein_radius_from_grid
    from lenstronomy.LensModel.lens_model import LensModel

    c = case
    tE, gam = c["theta_E"], c["gamma"]

    def model(x, y, scale=1.0, sel="one"):
        names = ["EPL"]
        kw = [dict(theta_E=tE * scale, gamma=gam, e1=c["e1"], e2=c["e2"], center_x=x, center_y=y)]
        k = None
        if sel != "one":
            names, kw = names + ["SIS"], kw + [dict(theta_E=c["sub"] * scale, center_x=x + c["sx"], center_y=y + c["sy"])]
            k = {"list": [0], "bool": [True, False], "all": None}[sel]
        return LensProfileAnalysis(LensModel(names)), LensModel(names), kw, k

    an, lm, kw, k = model(c["cx"], c["cy"], sel=c["sel"])
    keep = copy.deepcopy(kw)
    cen = (c["cx"] + 0.05, c["cy"] - 0.03) if c["c2"] else (c["cx"], c["cy"])
    arg = dict(center_x=cen[0], center_y=cen[1])
    # Einstein radius: mean convergence of one within it
    gn, gs = 220, 0.03
    re, prec = an.effective_einstein_radius_grid(kw, model_bool_list=k, grid_num=gn, grid_spacing=gs, get_precision=True, **arg)
    if c["sel"] != "all":
        t.close(re, tE, "Einstein radius on the grid", 0.02, 2 * gs)
    xx, yy = np.meshgrid((np.arange(gn) - (gn - 1) / 2) * gs, (np.arange(gn) - (gn - 1) / 2) * gs)
    xx, yy = xx.flatten() + cen[0], yy.flatten() + cen[1]
    kap = lm.kappa(xx, yy, kw, k=k)
    m = np.hypot(xx - cen[0], yy - cen[1])
    if np.isfinite(re):
        inside, outside = kap[m <= re + 1e-9].mean(), kap[m <= re - prec - 1e-9].mean()
        t.true(inside < 1 <= outside + 1e-9, "mean convergence within the Einstein radius %g (one step in: %g)" % (inside, outside))
        kin = kap.copy()
        t.close(einstein_radius_from_grid(kap, xx, yy, gs, gn, center_x=cen[0], center_y=cen[1]), re, "Einstein radius from the grid", 1e-12)
        t.unchanged(kap, kin, "the convergence map")
    if c["sel"] == "one":
        t.close(an.effective_einstein_radius(kw), tE, "Einstein radius from the radial profile", 0.06)
        a2, _, kw2, _ = model(c["cx"] - 1.0, c["cy"] + 2.0)
        t.close(a2.effective_einstein_radius(kw2), an.effective_einstein_radius(kw), "Einstein radius of the shifted model", 1e-6)
        a2, _, kw2, _ = model(c["cx"], c["cy"], scale=1.3)
        t.close(a2.effective_einstein_radius(kw2), 1.3 * an.effective_einstein_radius(kw), "Einstein radius of the scaled model", 0.005)
    # radial profile
    rs = np.array([0.3, 1.0, 2.2]) * c["r"]
    n = 20
    ph = np.linspace(0, 2 * np.pi, n + 1)[:-1]
    ref = [np.mean(lm.kappa(cen[0] + r * np.cos(ph), cen[1] + r * np.sin(ph), kw, k=k)) for r in rs]
    if c["sel"] != "all":
        dense = np.linspace(0, 2 * np.pi, 721)[:-1]
        exact = [np.mean(lm.kappa(cen[0] + r * np.cos(dense), cen[1] + r * np.sin(dense), kw, k=k)) for r in rs]
        t.close(np.array(an.radial_lens_profile(rs, kw, model_bool_list=k, num_azimuthal_points=400, **arg)), np.array(exact), "radial profile", 0.01)
    t.close(np.array(an.radial_lens_profile(list(rs), kw, model_bool_list=k, num_azimuthal_points=400, **arg)), np.array([np.mean(lm.kappa(cen[0] + r * np.cos(p), cen[1] + r * np.sin(p), kw, k=k)) for p in [np.linspace(0, 2 * np.pi, 401)[:-1]] for r in rs]), "azimuthal average", 0.02)
    # slope and MST invariant about the own centre
    if c["sel"] != "all":
        own = {} if c["first"] else dict(center_x=c["cx"], center_y=c["cy"])
        t.close(an.profile_slope(kw, c["r"], model_list_bool=k, num_points=40, **own), gam, "slope from deflections", 0.03)
        t.close(an.profile_slope(kw, c["r"], model_list_bool=k, num_points=40, alpha_differentials=False, **own), gam, "slope from convergence", 0.03)
    if c["sel"] == "one":
        base, _, kw0, _ = model(0.0, 0.0)
        t.close(an.mst_invariant_differential(kw, c["r"], num_points=20), base.mst_invariant_differential(kw0, c["r"], num_points=20), "MST-invariant differential of the shifted model", 1e-3, 1e-3)
        kmst = kw + [dict(kappa=1 - c["lam"])]
        mst = LensProfileAnalysis(LensModel(["EPL", "CONVERGENCE"]))
        scaled = [dict(kw[0], theta_E=tE * c["lam"] ** (1 / (gam - 1)))] + kmst[1:]
        t.close(mst.mst_invariant_differential(scaled, c["r"], num_points=20, center_x=c["cx"], center_y=c["cy"]), an.mst_invariant_differential(kw, c["r"], num_points=20), "MST invariance", 1e-3, 1e-3)
    # local effect
    p = (c["cx"] + c["r"], c["cy"] + 0.3)
    fx, fy, ka, g1, g2 = an.local_lensing_effect(kw, ra_pos=p[0], dec_pos=p[1], model_list_bool=k)
    ax, ay = lm.alpha(p[0], p[1], kw, k=k)
    s1, s2 = lm.gamma(p[0], p[1], kw, k=k)
    t.close([fx, fy, ka, g1, g2], [ax, ay, lm.kappa(p[0], p[1], kw, k=k), s1, s2], "local lensing", 1e-6, 1e-9)
    # mass fractions and peak
    frac = an.mass_fraction_within_radius(kw, c["cx"], c["cy"], tE, num_pix=150)
    t.close(frac[0], 1.0, "mean convergence of the lens within the Einstein radius", 0.08)
    if len(kw) == 2 and np.hypot(c["sx"], c["sy"]) + 0.1 < tE:
        pass
    t.equal(len(frac), len(kw), "number of components")
    px, py = an.convergence_peak(kw, model_bool_list=k, grid_num=101, grid_spacing=0.02, center_x_init=c["cx"], center_y_init=c["cy"])
    if c["sel"] != "all":
        t.close(np.hypot(px - c["cx"], py - c["cy"]).max(), 0.0, "convergence peak", 0, 0.021)
    t.unchanged(kw, keep, "the caller's arguments")
    t.label(c["sel"])
    t.nontrivial(True)


def halo_case():
    return st.fixed_dictionaries(dict(Rs=g.uni(1.0, 8.0), a=g.uni(0.8, 2.5), cx=off, cy=off, r=g.uni(0.5, 3.0), sub=g.uni(0.05, 0.4), sx=g.uni(-1, 1), sy=g.uni(-1, 1), two=st.booleans(), give=st.booleans(), core=g.uni(0.05, 0.5)))


@PROP.facet("halo", halo_case, quick=60, thorough=800, shards=2)
def halo(case, t):
    """profiles that are no power laws: local slope and expansion in Gaussians"""
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.LensModel.lens_model import LensModel

    c = case
    names = ["NFW"] + ["SIS"] * c["two"]

    def make(x, y):
        return [dict(Rs=c["Rs"], alpha_Rs=c["a"], center_x=x, center_y=y)] + [dict(theta_E=c["sub"], center_x=x + c["sx"], center_y=y + c["sy"])] * c["two"]

    kw = make(c["cx"], c["cy"])
    lm = LensModel(names)
    an = LensProfileAnalysis(lm)
    sel = dict(model_list_bool=[0]) if c["two"] else {}
    cen = dict(center_x=c["cx"], center_y=c["cy"]) if c["give"] else {}
    r, h = c["r"], 1e-4
    one = LensModel(["NFW"])
    k1 = [dict(kw[0], center_x=0.0, center_y=0.0)]

    def dlog(f):
        return (np.log(f(r * (1 + h))) - np.log(f(r * (1 - h)))) / (np.log1p(h) - np.log1p(-h))

    t.close(an.profile_slope(kw, r, **sel, **cen), 2 - dlog(lambda q: one.alpha(q, 0.0, k1)[0]), "slope from deflections", 0.015, 0.01)
    t.close(an.profile_slope(kw, r, alpha_differentials=False, **sel, **cen), 1 - dlog(lambda q: one.kappa(q, 0.0, k1)), "slope from convergence", 0.015, 0.01)
    # expansion in Gaussians: reproduces the convergence of the selected component
    bl = dict(model_bool_list=[0]) if c["two"] else {}
    amp, sig, x0, y0 = an.multi_gaussian_lens(kw, n_comp=20, **bl, **cen)
    t.close([x0, y0], [c["cx"], c["cy"]], "centre of the expansion", 1e-9, 1e-9)
    q = np.array([0.5, 1.0, 2.0])
    fit = [np.sum(np.asarray(amp) / (2 * np.pi * np.asarray(sig) ** 2) * np.exp(-(v**2) / 2 / np.asarray(sig) ** 2)) for v in q]
    if c["a"] > 1.4 and c["Rs"] < 5:
        t.close(fit, one.kappa(q, 0 * q, k1), "convergence of the expansion", 0.2)
        t.label("expanded")
    t.nontrivial(True)


@PROP.facet("azimuthal-seam", lambda: st.fixed_dictionaries(dict(e1=g.uni(0.05, 0.2), r=g.uni(0.5, 2.0), n=st.just(20))), quick=0)
def azimuthal_seam(case, t):
    """known finding: the first and last direction coincide"""
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.LensModel.lens_model import LensModel

    an = LensProfileAnalysis(LensModel(["SIE"]))
    v = [an.radial_lens_profile([case["r"]], [dict(theta_E=1.0, e1=e, e2=0.0, center_x=0.0, center_y=0.0)], num_azimuthal_points=case["n"])[0] for e in (case["e1"], -case["e1"])]
    t.close(v[0], v[1], "azimuthal average of the lens rotated by 90 degrees", 1e-3)


def halo_case():
    return st.fixed_dictionaries(dict(cosmo=C.cosmo_strategy(), zl=g.uni(0.2, 0.8), dz=g.uni(0.3, 2), M=g.logf(1e12, 1e14), conc=g.uni(3, 12), cx=off, cy=off, delta=st.sampled_from([200, 500, 100]), ns=st.booleans()))


@PROP.facet("halo", halo_case, quick=100, shards=2)
def halo(case, t):
    from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from lenstronomy.LensModel.lens_model import LensModel

    c = case
    cosmo = C.make(c["cosmo"])
    zl, zs = c["zl"], c["zl"] + c["dz"]
    lc = LensCosmo(zl, zs, cosmo=cosmo)
    Rs, al = lc.nfw_physical2angle(c["M"], c["conc"])
    kw = [dict(Rs=Rs, alpha_Rs=al, center_x=c["cx"], center_y=c["cy"])]
    an = LensProfileAnalysis(LensModel(["NFW"]))
    m, r = an.m_delta_crit(kw, zl, zs, cosmo, delta_crit=c["delta"])
    f = lambda x: np.log(1 + x) - x / (1 + x)
    # solve the over-density equation independently: M(x)/x^3 = delta/200 * f(c)/c^3 (200 w.r.t. the density of the conversion)
    from scipy.optimize import brentq

    x = brentq(lambda x: f(x) / x**3 - c["delta"] / 200.0 * f(c["conc"]) / c["conc"] ** 3, 1e-3, 1e3)
    t.close(m, c["M"] * f(x) / f(c["conc"]), "over-density mass", 5e-3)
    t.close(r, x * Rs, "over-density radius", 5e-3)
    rr = C.D(cosmo, zl) * r / 206264.80624709636
    t.close(m, c["delta"] * cosmo.critical_density(zl).to_value("Msun/Mpc3") * 4 / 3 * np.pi * rr**3, "mass of the sphere", 5e-3)
    t.nontrivial(True)


def light_case():
    return st.fixed_dictionaries(dict(sigma=g.uni(0.25, 0.6), R=g.uni(0.25, 0.6), n=g.uni(0.8, 2.0), e1=g.uni(-0.12, 0.12), e2=g.uni(-0.12, 0.12), cx=off, cy=off, amp=g.logf(0.1, 100.0), kind=st.sampled_from(["GAUSSIAN_ELLIPSE", "SERSIC_ELLIPSE"]), sel=st.booleans(), first=st.booleans(), sx=g.uni(-1, 1), sy=g.uni(-1, 1), given=st.booleans(), rot=g.uni(0, 6.2)))


@PROP.facet("light", light_case, quick=100, shards=4)
def light(case, t):
    from lenstronomy.Analysis.light_profile import LightProfileAnalysis
    from lenstronomy.LightModel.light_model import LightModel

    c = case

    def main(x, y, e1, e2, amp, s=1.0):
        if c["kind"] == "GAUSSIAN_ELLIPSE":
            return dict(amp=amp, sigma=c["sigma"] * s, e1=e1, e2=e2, center_x=x, center_y=y)
        return dict(amp=amp, R_sersic=c["R"] * s, n_sersic=c["n"], e1=e1, e2=e2, center_x=x, center_y=y)

    names, kw, k = [c["kind"]], [main(c["cx"], c["cy"], c["e1"], c["e2"], c["amp"])], None
    if c["sel"]:
        extra = dict(amp=3.0 * c["amp"], sigma=0.3, center_x=c["cx"] + c["sx"], center_y=c["cy"] + c["sy"])
        if c["first"]:
            names, kw, k = ["GAUSSIAN"] + names, [extra] + kw, [False, True]
        else:
            names, kw, k = names + ["GAUSSIAN"], kw + [extra], [True, False]
    an = LightProfileAnalysis(LightModel(names))
    one = LightProfileAnalysis(LightModel([c["kind"]]))
    keep = copy.deepcopy(kw)
    cen = dict(center_x=c["cx"], center_y=c["cy"]) if (c["given"] or (c["sel"] and c["first"])) else {}
    half = c["sigma"] * np.sqrt(2 * np.log(2)) if c["kind"] == "GAUSSIAN_ELLIPSE" else c["R"]
    gs, gn = half / 20.0, 240
    rh = an.half_light_radius(kw, grid_spacing=gs, grid_num=gn, model_bool_list=k, **cen)
    step = np.sqrt(2) * gs * gn / 2 / 500
    q = (1 - np.hypot(c["e1"], c["e2"])) / (1 + np.hypot(c["e1"], c["e2"]))
    t.close(rh, half, "half-light radius", 0.03 + 0.12 * (1 / q - 1), 2 * step)
    e = an.ellipticity(kw, grid_spacing=gs, grid_num=gn, model_bool_list=k, **cen)
    if c["kind"] == "GAUSSIAN_ELLIPSE":
        t.close(e, (c["e1"], c["e2"]), "ellipticity of a Gaussian", 0.03, 5e-3)
    e_it = an.ellipticity(kw, grid_spacing=gs, grid_num=gn, model_bool_list=k, iterative=True, num_iterative=20, **cen)
    t.close(e_it, (c["e1"], c["e2"]), "iterative ellipticity", 0.1, 0.012)
    # shifted, rescaled amplitude, rotated
    ks = [main(0.0, 0.0, c["e1"], c["e2"], 1.0)]
    t.close(one.half_light_radius(ks, grid_spacing=gs, grid_num=gn), rh, "half-light radius of the centred single component", 1e-6, 1.01 * step)
    t.close(one.ellipticity(ks, grid_spacing=gs, grid_num=gn), e, "ellipticity of the centred single component", 1e-6, 1e-6)
    ang = c["rot"]
    er = (c["e1"] * np.cos(2 * ang) - c["e2"] * np.sin(2 * ang), c["e1"] * np.sin(2 * ang) + c["e2"] * np.cos(2 * ang))
    got = one.ellipticity([main(0.0, 0.0, er[0], er[1], 1.0)], grid_spacing=gs, grid_num=gn)
    t.close(got, (e[0] * np.cos(2 * ang) - e[1] * np.sin(2 * ang), e[0] * np.sin(2 * ang) + e[1] * np.cos(2 * ang)), "ellipticity of the rotated model", 0.02, 5e-3)
    t.close(one.half_light_radius([main(0.0, 0.0, c["e1"], c["e2"], 1.0, 2.0)], grid_spacing=2 * gs, grid_num=gn), 2 * rh, "half-light radius of the scaled model", 1e-6, 2.02 * step)
    # radial profile
    rs = np.array([0.3, 1.0, 2.0]) * half
    ph = np.linspace(0, 2 * np.pi, 721)[:-1]
    lm = LightModel([c["kind"]])
    ref = [np.mean(lm.surface_brightness(r * np.cos(ph), r * np.sin(ph), [main(0.0, 0.0, c["e1"], c["e2"], c["amp"])])) for r in rs]
    t.close(np.array(an.radial_light_profile(rs, kw, model_bool_list=k, **cen)), np.array(ref), "radial light profile", 0.03)
    # Gaussian expansion
    amp, sig, x, y = an.multi_gaussian_decomposition(kw, model_bool_list=k, n_comp=20, grid_spacing=gs, grid_num=gn, **cen)
    t.close([x, y], [c["cx"], c["cy"]], "centre of the expansion", 1e-9, 1e-9)
    val = np.array([np.sum(amp / (2 * np.pi * sig**2) * np.exp(-(r**2) / 2 / sig**2)) for r in rs])
    t.close(val[:2], np.array(ref)[:2], "light of the expansion", 0.15)
    km = an.multi_gaussian_decomposition_ellipse(kw, model_bool_list=k, n_comp=20, grid_spacing=gs, grid_num=gn, **cen)
    t.close([km["center_x"], km["center_y"]], [c["cx"], c["cy"]], "centre of the elliptical expansion", 1e-9, 1e-9)
    if c["kind"] == "GAUSSIAN_ELLIPSE":
        t.close([km["e1"], km["e2"]], [c["e1"], c["e2"]], "ellipticity of the elliptical expansion", 0.03, 8e-3)
    t.close(np.sum(km["amp"]), lm.total_flux([main(0.0, 0.0, c["e1"], c["e2"], c["amp"])])[0], "flux of the expansion", 0.25)
    # components
    fl, rl = an.flux_components(kw, grid_num=400, grid_spacing=half / 25)
    i = 1 if (c["sel"] and c["first"]) else 0
    t.close(fl[i], lm.total_flux([main(0.0, 0.0, c["e1"], c["e2"], c["amp"])])[0], "flux of the component", 0.08)
    t.close(rl[i], half, "half-light radius of the component", 0.04 + 0.12 * (1 / q - 1), 3 * step)
    t.unchanged(kw, keep, "the caller's arguments")
    t.nontrivial(True)
    t.label("selected" if c["sel"] else "single")


def map_case():
    return st.fixed_dictionaries(dict(cx=g.uni(-0.6, 0.6), cy=g.uni(-0.6, 0.6), sigma=g.uni(0.35, 0.6), amp=g.logf(0.1, 10.0), e1=g.uni(-0.2, 0.2), e2=g.uni(-0.2, 0.2), npix=st.sampled_from([20, 21]), ss=st.sampled_from([1, 2])))


@PROP.facet("light_to_mass", map_case, quick=24, shards=4)
def light_to_mass(case, t):
    from lenstronomy.Analysis.light2mass import light2mass_interpol
    from lenstronomy.LensModel.lens_model import LensModel

    c = case
    kl = [dict(amp=c["amp"], sigma=c["sigma"], center_x=c["cx"], center_y=c["cy"])]
    keep = copy.deepcopy(kl)
    kw = light2mass_interpol(["GAUSSIAN"], kl, num_pix=c["npix"], delta_pix=0.15, subgrid_res=c["ss"], center_x=c["cx"], center_y=c["cy"])
    t.unchanged(kl, keep, "the light parameters")
    lm = LensModel(["INTERPOL"])
    r = 0.5 + 0.4 * np.array([0.0, 1.0])
    ph = np.array([0.3, 2.2, 4.0])
    s = c["sigma"]
    norm = 1 - np.exp(-1 / 2 / s**2)  # mean convergence of one within one arc second
    for rr in r:
        x, y = c["cx"] + rr * np.cos(ph), c["cy"] + rr * np.sin(ph)
        fx, fy = lm.alpha(x, y, [kw])
        a = (1 - np.exp(-(rr**2) / 2 / s**2)) / norm / rr
        t.close(fx, a * np.cos(ph), "deflection of the mass map", 0.1, 0.05)
        t.close(fy, a * np.sin(ph), "deflection of the mass map", 0.1, 0.05)
        k = np.exp(-(rr**2) / 2 / s**2) / (2 * s**2) / norm
        t.close(lm.kappa(x, y, [kw]), np.full(3, k), "convergence of the mass map", 0.15, 0.15)
    t.nontrivial(True)


def util_case():
    return st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), nx=st.integers(11, 31), ny=st.integers(11, 31), n=st.integers(12, 400), mu=g.uni(-3, 3), sig=g.uni(0.2, 3.0), skw=st.one_of(g.uni(-0.9, 0.9), st.just(0.0)), cx=g.uni(-2, 2), cy=g.uni(-2, 2), a=g.uni(1.0, 5.0), b=g.uni(1.0, 5.0), ang=g.uni(0, 6), N=st.integers(3, 20), neg=st.booleans()))


@PROP.facet("utilities", util_case, quick=300, shards=2)
def utilities(case, t):
    from lenstronomy.Util import analysis_util as au
    from lenstronomy.Util import correlation as co
    from lenstronomy.Util import mask_util as mu
    from lenstronomy.Util import multi_gauss_expansion as mge
    from lenstronomy.Util import prob_density as pd

    c = case
    rng = np.random.RandomState(c["seed"])
    # sample statistics: order, mirror and translation
    smp = rng.normal(c["mu"], c["sig"], size=c["n"])
    keep = smp.copy()
    med, err = pd.compute_lower_upper_errors(smp, num_sigma=3)
    med2, err2 = pd.compute_lower_upper_errors(-smp, num_sigma=3)
    t.close(med, np.median(smp), "median", 1e-12, 1e-12)
    t.close(med2, -med, "median of the mirrored sample", 1e-10, 1e-12)
    t.close(np.array(err2), np.array(err)[:, ::-1], "errors of the mirrored sample", 1e-8, 1e-10)
    for i, p in enumerate([0.841345, 0.977249868, 0.998650102]):
        j = (c["n"] - 1) * p
        s = np.sort(smp)
        lo, hi = s[max(int(np.floor(j)) - 1, 0)] - med, s[min(int(np.ceil(j)) + 1, c["n"] - 1)] - med
        t.true(lo - 1e-9 <= err[i][1] <= hi + 1e-9, "upper %d-sigma error %g outside the neighbouring ranks [%g, %g]" % (i + 1, err[i][1], lo, hi))
    t.close(np.array(pd.compute_lower_upper_errors(3 * smp + 1, num_sigma=2)[1]), 3 * np.array(err)[:2], "errors of the scaled sample", 1e-8, 1e-10)
    t.unchanged(smp, keep, "the sample")
    # skewed Gaussian: norm, mean and scatter
    sg = pd.SkewGaussian()
    x = np.linspace(c["mu"] - 12 * c["sig"], c["mu"] + 12 * c["sig"], 4001)
    p = sg.pdf_skew(x, c["mu"], c["sig"], c["skw"])
    dx = x[1] - x[0]
    m = np.sum(p * x) * dx
    v = np.sum(p * (x - m) ** 2) * dx
    s3 = np.sum(p * (x - m) ** 3) * dx / v**1.5
    t.close([np.sum(p) * dx, m, np.sqrt(v), s3], [1.0, c["mu"], c["sig"], c["skw"]], "norm, mean, scatter and skewness", 1e-3, 2e-3)
    # masks
    xx, yy = np.meshgrid(np.arange(c["nx"]) - c["nx"] / 2.0, np.arange(c["ny"]) - c["ny"] / 2.0)
    fx, fy = xx.flatten(), yy.flatten()
    r = np.hypot(fx - c["cx"], fy - c["cy"])
    m1 = mu.mask_azimuthal(fx, fy, c["cx"], c["cy"], c["a"])
    t.same(m1, (r <= c["a"]).astype(int), "azimuthal mask")
    t.same(mu.mask_center_2d(c["cx"], c["cy"], c["a"], fx, fy), 1 - m1, "centre mask")
    t.same(mu.mask_shell(fx, fy, c["cx"], c["cy"], c["a"], c["a"] + c["b"]), ((r >= c["a"]) & (r < c["a"] + c["b"])).astype(int), "ring mask")
    ca, sa = np.cos(c["ang"]), np.sin(c["ang"])
    u, w = (fx - c["cx"]) * ca + (fy - c["cy"]) * sa, -(fx - c["cx"]) * sa + (fy - c["cy"]) * ca
    u2, w2 = (fx - c["cx"]) * ca - (fy - c["cy"]) * sa, (fx - c["cx"]) * sa + (fy - c["cy"]) * ca
    el = mu.mask_ellipse(fx, fy, c["cx"], c["cy"], c["a"], c["b"], c["ang"])
    ok = [np.abs((p_ / c["a"]) ** 2 + (q_ / c["b"]) ** 2 - 1) > 1e-6 for p_, q_ in ((u, w), (u2, w2))]
    fit = [np.array_equal(el[o], (((p_ / c["a"]) ** 2 + (q_ / c["b"]) ** 2) <= 1).astype(int)[o]) for o, (p_, q_) in zip(ok, ((u, w), (u2, w2)))]
    t.true(any(fit), "elliptical mask is not an ellipse with the given axes")
    ec = mu.mask_eccentric(fx, fy, c["cx"], c["cy"], 0.0, 0.0, c["a"])
    t.same(ec[np.abs(r - c["a"]) > 1e-9], m1[np.abs(r - c["a"]) > 1e-9], "round eccentric mask")
    # images
    img = rng.rand(c["ny"], c["nx"]) - (0.2 if c["neg"] else 0.0)
    kimg = img.copy()
    if np.sum(np.maximum(img, 0)) > 0:
        rh = au.half_light_radius(img.flatten(), fx, fy, c["cx"], c["cy"])
        pos = np.maximum(img.flatten(), 0)
        t.true(np.sum(pos[r <= rh + 1e-9]) >= np.sum(pos) / 2 - 1e-9, "half-light radius encloses less than half")
        t.true(np.sum(pos[r <= rh - r.max() / 500 - 1e-9]) <= np.sum(pos) / 2 + 1e-9, "half-light radius encloses more than half one step in")
        au.half_light_radius(img, xx, yy, c["cx"], c["cy"])
        t.unchanged(img, kimg, "the image")
    ir, rr = au.radial_profile(img.flatten(), fx, fy, c["cx"], c["cy"], n=c["N"])
    t.close(np.cumsum(ir), np.array([np.sum(img.flatten()[r <= q_ + 1e-12]) for q_ in rr]), "enclosed light of the radial profile", 1e-6, 1e-6)
    prof, _ = au.azimuthal_average(np.full((c["ny"], c["nx"]), 2.5))
    t.close(prof, np.full(len(prof), 2.5), "azimuthal average of a constant", 1e-9)
    yy_, xx_ = np.indices((c["ny"], c["nx"]))
    R = np.hypot(xx_ - (c["nx"] - 1) / 2.0, yy_ - (c["ny"] - 1) / 2.0)
    prof, _ = au.azimuthal_average(np.floor(R))
    t.close(np.diff(prof), np.ones(len(prof) - 1), "azimuthal average of concentric rings", 1e-9)
    cc = np.array([(c["nx"] - 1) / 2.0, (c["ny"] - 1) / 2.0])
    t.close(au.azimuthal_average(img, center=cc)[0], au.azimuthal_average(img)[0], "azimuthal average about a given centre", 1e-12)
    t.close(np.sum(co.power_spectrum_2d(img)), np.mean(img**2), "Parseval's theorem", 1e-8)
    t.close(co.power_spectrum_2d(np.roll(img, 3, axis=1)), co.power_spectrum_2d(img), "power spectrum of the shifted image", 1e-6, 1e-12)
    q0 = au.moments(np.abs(img).flatten(), fx, fy)
    q1 = au.moments(np.abs(img).flatten(), fx + 3.3, fy - 1.1)
    t.close(np.array(q1[:3]), np.array(q0[:3]), "moments on a shifted grid", 1e-6, 1e-6)
    t.unchanged(img, kimg, "the image")
    t.close(au.bic_model(-c["a"], c["n"], c["N"]), 2 * c["a"] + np.log(c["n"]) * c["N"], "BIC", 1e-10)
    # multi-Gaussian expansion recovers Gaussians of its basis
    ra = np.logspace(-2, 1, 60)
    amp0, sig, _ = mge.mge_1d(ra, np.exp(-(ra**2) / 2), N=c["N"])
    true = rng.rand(len(sig))
    flux = np.sum(true / (2 * np.pi * sig**2) * np.exp(-ra[:, None] ** 2 / 2 / sig**2), axis=1)
    amp, _, norm = mge.mge_1d(ra, flux, N=c["N"])
    fit = np.sum(amp / (2 * np.pi * sig**2) * np.exp(-ra[:, None] ** 2 / 2 / sig**2), axis=1)
    t.close(fit, flux, "expansion of a sum of Gaussians", 1e-4, 1e-6 * flux.max())
    # de-projection: projecting the 3d Gaussians returns the surface density
    a3, s3_ = mge.de_projection_3d(true, sig)
    from scipy.integrate import quad

    R0 = 0.5 * sig[0]
    rho = lambda z: sum(a / (2 * np.pi * s_**2) * np.exp(-(R0**2 + z**2) / 2 / s_**2) for a, s_ in zip(a3, s3_))
    z = np.concatenate([-np.logspace(-4, 2, 4000)[::-1], [0], np.logspace(-4, 2, 4000)])
    pr = np.trapezoid([rho(q_) for q_ in [0]] * len(z), z) if False else np.trapezoid(np.sum(np.array(a3) / (2 * np.pi * np.array(s3_) ** 2) * np.exp(-(R0**2 + z[:, None] ** 2) / 2 / np.array(s3_) ** 2), axis=1), z)
    ref = np.sum(true / (2 * np.pi * sig**2) * np.exp(-(R0**2) / 2 / sig**2))
    t.close(pr, ref, "projection of the de-projected expansion", 1e-3)
    t.nontrivial(True)
