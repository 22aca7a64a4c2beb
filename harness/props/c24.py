"""C24: time-delay cosmography and the kinematics interface."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as C
from harness import gen as g
from harness.core import Property

PROP = Property(
    "C24",
    title="Time-delay cosmography inverts to the distances it was computed with",
    statement=(
        "Predicted time delays are the Fermat potential differences times the time-delay distance, and the dimensionless dispersion depends on the angular models only, so that delays and dispersions of any cosmology return its time-delay distance, "
        "distance ratio and lens distance, with external convergences entering as the mass-sheet transform. "
        "The kinematics interface uses exactly the selected mass and light components (including point masses) and settings; shifting the whole system or scaling the light changes no dispersion."
    ),
    over=("inputs", "histories"),
    quant="cosmologies, redshifts, lens and light models, component selections, external convergences, image positions, solver back ends, successive evaluations",
    why="tests use one lens with loose tolerances; conversions that cancel in one cosmology or for one component pass",
    files=["lenstronomy/Analysis/td_cosmography.py", "lenstronomy/Analysis/kinematics_api.py", "lenstronomy/JAMPy/mge.py", "lenstronomy/JAMPy/jam_wrapper_base.py"],
    mechanism=["TDCosmography unit conversions", "KinematicsAPI profile selection", "multi-Gaussian expansion"],
    observe=["TDCosmography", "KinematicsAPI", "MGEMass", "MGELight"],
    rule="non-trivial: at least two images, or a selection of components, or two cosmologies compared",
    assumptions=["angular apertures and seeing are the same in the compared cosmologies"],
)


def td_case():
    return st.fixed_dictionaries(dict(cosmo=C.cosmo_strategy(), zl=g.uni(0.1, 1.0), dz=g.uni(0.2, 2.5), theta_E=g.uni(0.6, 2.0), gamma=g.uni(1.6, 2.4), e1=g.uni(-0.2, 0.2), e2=g.uni(-0.2, 0.2), g1=g.uni(-0.1, 0.1), g2=g.uni(-0.1, 0.1), cx=g.uni(-0.3, 0.3), cy=g.uni(-0.3, 0.3),
                                      sx=g.uni(-0.1, 0.1), sy=g.uni(-0.1, 0.1), kext=g.uni(-0.3, 0.5), ks=g.uni(-0.1, 0.1), kds=g.uni(-0.1, 0.1), kd=g.uni(-0.1, 0.1), ps=st.sampled_from(["LENSED_POSITION", "SOURCE_POSITION", "free"]), J=g.logf(1e-7, 1e-5), pos=st.lists(st.tuples(g.uni(-2, 2), g.uni(-2, 2)).map(list), min_size=2, max_size=4)))


@PROP.facet("delays", td_case, quick=120, shards=4)
def delays(case, t):
    from lenstronomy.Analysis.td_cosmography import TDCosmography
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    c = case
    cosmo = C.make(c["cosmo"])
    zl, zs = c["zl"], c["zl"] + c["dz"]
    # the solver draws random proposals: no faint central image in the source-position case
    gam = max(c["gamma"], 2.0) if c["ps"] == "SOURCE_POSITION" else c["gamma"]
    kl = [dict(theta_E=c["theta_E"], gamma=gam, e1=c["e1"], e2=c["e2"], center_x=c["cx"], center_y=c["cy"]), dict(gamma1=c["g1"], gamma2=c["g2"], ra_0=0.0, dec_0=0.0)]
    lens = LensModel(["EPL", "SHEAR"])
    if c["ps"] == "free":
        p = np.array(c["pos"])
        x, y = p[:, 0], p[:, 1]
    else:
        x, y = LensEquationSolver(lens).image_position_from_source(c["cx"] + c["sx"], c["cy"] + c["sy"], kl, search_window=12, min_distance=0.1)
        if len(x) < 2:
            return t.trivial()
    source = c["ps"] == "SOURCE_POSITION"
    km = dict(lens_model_list=["EPL", "SHEAR"], point_source_model_list=["SOURCE_POSITION" if source else "LENSED_POSITION"])
    kp = [dict(ra_source=c["cx"] + c["sx"], dec_source=c["cy"] + c["sy"]) if source else dict(ra_image=np.array(x), dec_image=np.array(y))]
    td = TDCosmography(zl, zs, km, cosmo_fiducial=cosmo)
    keep = copy.deepcopy((kl, kp))
    if source:
        x, y = td.PointSource.image_position(kp, kl)
        x, y = x[0], y[0]
        if len(x) < 2 or len(x) > 4 or np.min(np.abs(lens.magnification(x, y, kl))) < 0.05:
            return t.trivial()
    bx, by = lens.ray_shooting(x, y, kl)
    bx, by = np.mean(bx), np.mean(by)
    phi = 0.5 * ((x - bx) ** 2 + (y - by) ** 2) - lens.potential(x, y, kl)
    t.close(td.fermat_potential(kl, kp), phi, "Fermat potential", 1e-6, 1e-7)
    dt = td.time_delays(kl, kp, kappa_ext=c["kext"])
    t.close(dt, phi * C.days_per_arcsec2(cosmo, zl, zs) * (1 - c["kext"]), "time delays", 1e-5, 1e-3)
    t.unchanged((kl, kp), keep, "the caller's arguments")
    if not source:
        t.close(td.time_delays(kl, kp, original_ps_position=True), td.time_delays(kl, kp), "original positions", 1e-8)
    i = int(np.argmax(np.abs(phi - phi[0])))
    d = phi[i] - phi[0]
    if abs(d) > 1e-4:
        ks, kds, kd = c["ks"], c["kds"], c["kd"]
        D = C.ddt(cosmo, zl, zs)
        meas = td.time_delays(kl, kp)
        out = td.ddt_from_time_delay(d, meas[i] - meas[0])
        t.close(out, D, "time-delay distance", 1e-5)
        out = td.ddt_from_time_delay(d, (meas[i] - meas[0]), kappa_s=ks, kappa_ds=kds, kappa_d=kd)
        t.close(out, D * (1 - kds) / (1 - ks) / (1 - kd), "time-delay distance with external convergence", 1e-5)
        # kinematics of the same cosmology
        rat = C.D(cosmo, zs) / C.D(cosmo, zl, zs)
        sv = np.sqrt(c["J"] * rat) * C.C_LIGHT / 1e3
        t.close(td.ds_dds_from_kinematics(sv, c["J"]), rat, "distance ratio", 1e-5)
        t.close(td.ds_dds_from_kinematics(sv, c["J"], kappa_s=ks, kappa_ds=kds), rat * (1 - kds) / (1 - ks), "distance ratio with external convergence", 1e-5)
        a, b = td.ddt_dd_from_time_delay_and_kinematics(d, meas[i] - meas[0], sv, c["J"])
        t.close([a, b], [D, C.D(cosmo, zl)], "distances from delays and kinematics", 1e-5)
        a, b = td.ddt_dd_from_time_delay_and_kinematics(d, meas[i] - meas[0], sv, c["J"], kappa_s=ks, kappa_ds=kds, kappa_d=kd)
        t.close([a, b], [D * (1 - kds) / (1 - ks) / (1 - kd), C.D(cosmo, zl) / (1 - kd)], "distances with external convergence", 1e-5)
    t.label(c["ps"])


def kin_case():
    ap = st.one_of(st.fixed_dictionaries(dict(aperture_type=st.just("slit"), length=g.uni(1.0, 2.5), width=g.uni(0.6, 1.2), angle=g.uni(-1, 1))), st.fixed_dictionaries(dict(aperture_type=st.just("shell"), r_in=g.uni(0.0, 0.3), r_out=g.uni(0.6, 1.5))), st.fixed_dictionaries(dict(aperture_type=st.just("IFU_shells"), r_bins=st.just([0.0, 0.4, 1.0]))))
    return st.fixed_dictionaries(dict(cosmo=C.cosmo_strategy(), cosmo2=C.cosmo_strategy(), zl=g.uni(0.1, 1.0), dz=g.uni(0.2, 2.5), ap=ap, fwhm=g.uni(0.4, 1.0), theta_E=g.uni(0.6, 2.0), gamma=g.uni(1.7, 2.3), e1=g.uni(-0.2, 0.2), e2=g.uni(-0.2, 0.2), Rs=g.uni(0.3, 1.2), amp=g.logf(0.1, 10.0), sh=st.tuples(g.uni(-0.5, 0.5), g.uni(-0.5, 0.5)).map(list),
                                      r_ani=g.uni(0.5, 3.0), kext=g.uni(-0.2, 0.4), backend=st.sampled_from(["jampy", "jampy", "galkin"]), extra=st.sampled_from(["none", "mass", "bh", "light"]), first=st.booleans(), seed=st.integers(0, 99), bh=g.uni(0.05, 0.4), sym=st.sampled_from(["spherical", "spherical", "axi_sph"]), ncomp=st.integers(8, 14)))


@PROP.facet("kinematics", kin_case, quick=64, shards=4)
def kinematics(case, t):
    from lenstronomy.Analysis.kinematics_api import KinematicsAPI
    from lenstronomy.Analysis.td_cosmography import TDCosmography

    c = case
    zl, zs = c["zl"], c["zl"] + c["dz"]
    back = c["backend"]
    sym = c["sym"] if back == "jampy" else "spherical"
    anis = ("const", dict(beta=0.2)) if sym != "spherical" else ("OM", dict(r_ani=c["r_ani"]))
    e1, e2 = c["e1"], c["e2"]

    def build(cos, masses, lights, mb=None, lb=None, sx=0.0, sy=0.0, cls=KinematicsAPI, **kw):
        ap = dict(c["ap"], center_ra=sx, center_dec=sy)
        if back == "jampy":
            ap["delta_pix"] = 0.25
        args = dict(z_lens=zl, z_source=zs, kwargs_model=dict(lens_model_list=[m[0] for m in masses], lens_light_model_list=[l[0] for l in lights]), kwargs_aperture=ap, kwargs_seeing=dict(psf_type="GAUSSIAN", fwhm=c["fwhm"]), anisotropy_model=anis[0], lens_model_kinematics_bool=mb, light_model_kinematics_bool=lb,
                    kinematics_backend=back, axial_symmetry=sym, sampling_number=8, num_kin_sampling=6, num_psf_sampling=4, kwargs_numerics_galkin=dict(interpol_grid_num=80, max_integrate=60, min_integrate=1e-3))
        args["cosmo" if cls is KinematicsAPI else "cosmo_fiducial"] = C.make(cos)
        args.update(kw)
        return cls(**args), [m[1] for m in masses], [l[1] for l in lights]

    def run(b, fn="velocity_dispersion", **kw):
        api, km, kl = b
        keep = copy.deepcopy((km, kl))
        np.random.seed(c["seed"])
        with np.errstate(all="ignore"):
            v = getattr(api, fn)(km, kl, dict(anis[1]), r_eff=1.8 * c["Rs"], theta_E=c["theta_E"], **kw)
        t.unchanged((km, kl), keep, "the caller's arguments")
        return np.nan_to_num(np.array(v, dtype=float))

    fn = "velocity_dispersion_map" if c["ap"]["aperture_type"] == "IFU_shells" else "velocity_dispersion"
    epl = lambda x, y: ("EPL", dict(theta_E=c["theta_E"], gamma=c["gamma"], e1=e1, e2=e2, center_x=x, center_y=y))
    her = lambda x, y, a=1.0: ("HERNQUIST_ELLIPSE", dict(amp=a * c["amp"], Rs=c["Rs"], e1=e1, e2=e2, center_x=x, center_y=y))
    b0 = build(c["cosmo"], [epl(0, 0)], [her(0, 0)])
    v = run(b0, fn)
    t.close(run(b0, fn), v, "second evaluation", 1e-8)
    t.close(run(b0, fn, kappa_ext=c["kext"]), v * np.sqrt(1 - c["kext"]), "external convergence", 1e-8)
    t.close(run(build(c["cosmo"], [epl(0, 0)], [her(0, 0, 7.3)]), fn), v, "scaled light", 1e-4)
    # angular models fix the dimensionless dispersion in any cosmology
    r1, r2 = [C.D(C.make(k), zs) / C.D(C.make(k), zl, zs) for k in (c["cosmo"], c["cosmo2"])]
    v2 = run(build(c["cosmo2"], [epl(0, 0)], [her(0, 0)]), fn)
    t.close(v2 / np.sqrt(r2), v / np.sqrt(r1), "dispersion in another cosmology", 1e-3 if sym == "spherical" else 5e-3)
    if back == "jampy":
        sx, sy = c["sh"]
        if fn == "velocity_dispersion":
            t.close(run(build(c["cosmo"], [epl(sx, sy)], [her(sx, sy)], sx=sx, sy=sy), fn), v, "shifted system", 1e-3)
        tdc = build(c["cosmo"], [epl(0, 0)], [her(0, 0)], cls=TDCosmography)
        J = run(tdc, fn + "_dimension_less")
        t.close(J, (v * 1e3 / C.C_LIGHT) ** 2 / r1, "dimensionless dispersion", 1e-6)
    # component selection
    ex = c["extra"]
    if ex == "mass":
        ms = [epl(0, 0), ("SIS", dict(theta_E=0.7, center_x=0.1, center_y=-0.2))]
        mb = [True, False]
        if c["first"]:
            ms, mb = ms[::-1], mb[::-1]
        t.close(run(build(c["cosmo"], ms, [her(0, 0)], mb=mb), fn), v, "deselected mass component", 2e-3 if sym != "spherical" else 1e-6)
        if sym == "spherical" and back == "galkin":
            ms = [epl(0, 0), ("NFW", dict(Rs=4.0, alpha_Rs=1e-6, center_x=0, center_y=0))]
            t.close(run(build(c["cosmo"], ms, [her(0, 0)]), fn), v, "negligible mass component", 1e-3)
    elif ex == "bh" and back == "jampy":
        ms = [epl(0, 0), ("POINT_MASS", dict(theta_E=c["bh"], center_x=0.0, center_y=0.0))]
        ms2 = [epl(0, 0), ("POINT_MASS_LOG_SCALED", dict(log10_theta_E=np.log10(c["bh"]), center_x=0.0, center_y=0.0))]
        if c["first"]:
            ms, ms2 = ms[::-1], ms2[::-1]
        a = build(c["cosmo"], ms, [her(0, 0)])
        w = run(a, fn)
        t.true(bool(np.all(w[v > 0] >= v[v > 0] * (1 - 1e-6))), "a point mass lowers the dispersion: %s -> %s" % (v, w))
        t.true(bool(np.any(w > v * (1 + 1e-4))), "a point mass does not change the dispersion")
        t.close(run(build(c["cosmo"], ms2, [her(0, 0)]), fn), w, "log-scaled point mass", 1e-6)
    elif ex == "light":
        ls = [her(0, 0), ("SERSIC", dict(amp=3.0, R_sersic=0.4, n_sersic=2.0, center_x=0.1, center_y=-0.2))]
        lb = [True, False]
        if c["first"]:
            ls, lb = ls[::-1], lb[::-1]
        t.close(run(build(c["cosmo"], [epl(0, 0)], ls, lb=lb), fn), v, "deselected light component", 1e-4)
    # settings given at construction are used
    if back == "jampy" and sym == "spherical":
        from lenstronomy.JAMPy.mge import MGELight, MGEMass

        n = c["ncomp"]
        kmge = dict(n_comp=n, r_max=100.0, n_radial_points=80)
        a = build(c["cosmo"], [epl(0, 0)], [her(0, 0)], kwargs_mge_mass=dict(kmge), kwargs_mge_light=dict(kmge))
        _, km, kl = a[0].jam_model_settings(a[1], a[2], r_eff=1.8 * c["Rs"], theta_E=c["theta_E"])
        am, sm = MGEMass(["EPL"], kmge).mge_fit(a[1], c["theta_E"])
        al, sl = MGELight(["HERNQUIST_ELLIPSE"], kmge).mge_fit(a[2], 1.8 * c["Rs"])
        t.close(np.concatenate([km[0]["amp"], km[0]["sigma"]]), np.concatenate([am, sm]), "mass expansion settings", 1e-6)
        t.close(np.concatenate([kl[0]["amp"], kl[0]["sigma"]]), np.concatenate([al, sl]), "light expansion settings", 1e-6)
    t.label(back)
    t.label(ex)
    t.nontrivial(True)


def mge_case():
    return st.fixed_dictionaries(dict(theta_E=g.uni(0.5, 2.0), gamma=g.uni(1.7, 2.3), Rs=g.uni(1.0, 5.0), alpha=g.uni(0.5, 2.0), two=st.booleans(), light=st.sampled_from(["HERNQUIST", "SERSIC"]), lRs=g.uni(0.3, 1.5), n=g.uni(1.0, 4.0), cx=g.uni(-0.5, 0.5), cy=g.uni(-0.5, 0.5), amp=g.logf(0.1, 10.0)))


@PROP.facet("expansion", mge_case, quick=60, shards=2)
def expansion(case, t):
    from lenstronomy.JAMPy.mge import MGELight, MGEMass

    c = case
    names, kw = ["SPP"], [dict(theta_E=c["theta_E"], gamma=c["gamma"], center_x=c["cx"], center_y=c["cy"])]
    if c["two"]:
        names, kw = names + ["NFW"], kw + [dict(Rs=c["Rs"], alpha_Rs=c["alpha"], center_x=c["cx"], center_y=c["cy"])]
    keep = copy.deepcopy(kw)
    m = MGEMass(names)
    amp, sig = m.mge_fit(kw, c["theta_E"])
    t.unchanged(kw, keep, "the caller's arguments")
    r = np.logspace(-1, 0.7, 12) * c["theta_E"]
    ref = (3 - c["gamma"]) / 2 * (c["theta_E"] / r) ** (c["gamma"] - 1)
    if c["two"]:
        from lenstronomy.LensModel.Profiles.nfw import NFW

        ref = ref + 0.5 * (lambda h: h[0] + h[3])(NFW().hessian(r, 0 * r, Rs=c["Rs"], alpha_Rs=c["alpha"]))
    got = np.sum(amp / (2 * np.pi * sig**2) * np.exp(-r[:, None] ** 2 / 2 / sig**2), axis=1)
    t.close(got, ref, "convergence of the expansion", 0.08)
    t.close(m.radial_convergence(r, kw), ref, "radial convergence", 1e-3)
    if c["light"] == "HERNQUIST":
        from lenstronomy.LightModel.Profiles.hernquist import Hernquist

        kl = [dict(amp=c["amp"], Rs=c["lRs"], center_x=c["cx"], center_y=c["cy"])]
        ref = Hernquist().function(r, 0 * r, amp=c["amp"], Rs=c["lRs"])
        reff = 1.8153 * c["lRs"]
    else:
        from lenstronomy.LightModel.Profiles.sersic import Sersic

        kl = [dict(amp=c["amp"], R_sersic=c["lRs"], n_sersic=c["n"], center_x=c["cx"], center_y=c["cy"])]
        ref = Sersic().function(r, 0 * r, amp=c["amp"], R_sersic=c["lRs"], n_sersic=c["n"])
        reff = c["lRs"]
    keep = copy.deepcopy(kl)
    ml = MGELight([c["light"]])
    t.close(ml.effective_radius(kl), reff, "effective radius", 1e-3)
    al, sl = ml.mge_fit(kl)
    t.unchanged(kl, keep, "the caller's arguments")
    got = np.sum(al / (2 * np.pi * sl**2) * np.exp(-r[:, None] ** 2 / 2 / sl**2), axis=1)
    ok = (r > 0.2 * reff) & (r < 2.5 * reff)
    if ok.any():
        t.close(got[ok], ref[ok], "surface brightness of the expansion", 0.15)
    t.nontrivial(True)
