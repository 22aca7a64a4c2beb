"""C25: simulation interface: noise budgets, magnitudes, instruments."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as C
from harness import gen as g
from harness.core import Property

PROP = Property(
    "C25",
    title="Simulated observations follow the declared instrument and magnitudes",
    statement=(
        "Sky, read-out and photon noise of a simulated band follow the declared exposure, gain, pixel scale and zero point in electrons or ADU alike, and the data class built from the band assigns the same noise. "
        "Magnitudes and physical masses convert to amplitudes and angles with exactly the declared flux or mass, so the rendered image carries that flux and equals the image of directly built models; variable point sources follow the light curve shifted by each image's delay. "
        "Instrument configurations do not depend on which configurations were used before, and updating an observation equals building it anew."
    ),
    over=("inputs", "histories"),
    quant="instrument and observation settings, count units, magnitudes, light and lens models, redshifts, light curves, sequences of instrument configurations and updates",
    why="tests use unit gain or one exposure; factors that cancel there, or shared configuration dictionaries, go unnoticed",
    files=["lenstronomy/SimulationAPI/", "lenstronomy/Util/data_util.py", "lenstronomy/Util/simulation_util.py"],
    mechanism=["SingleBand noise properties", "magnitude2amplitude", "physical2lensing_conversion", "PointSourceVariability", "ObservationConfig dictionaries"],
    observe=["SingleBand", "DataAPI", "SimAPI", "MagAmpConversion", "PointSourceVariability", "ObservationConfig.*"],
    rule="non-trivial: gain and number of exposures differ from one, or at least two configurations compared",
    assumptions=["random noise is judged by its mean and scatter over the frame at more than six standard errors"],
)


def band():
    return st.fixed_dictionaries(dict(pixel_scale=g.uni(0.03, 0.6), exposure_time=g.logf(10.0, 5000.0), magnitude_zero_point=g.uni(22.0, 31.0), read_noise=g.uni(1.0, 20.0), ccd_gain=g.uni(0.5, 6.0), sky_brightness=g.uni(17.0, 30.0), seeing=g.uni(0.1, 1.5), num_exposures=st.integers(1, 40), psf_type=st.sampled_from(["GAUSSIAN", "GAUSSIAN", "NONE"]), truncation=g.uni(3.0, 5.0), data_count_unit=st.sampled_from(["e-", "ADU"])))


def noise_case():
    return st.fixed_dictionaries(dict(b=band(), b2=band(), which=st.lists(st.sampled_from(["exposure_time", "sky_brightness", "seeing", "num_exposures", "psf_type"]), unique=True), n=st.integers(8, 20), lev=g.logf(1e-3, 1e4), seed=st.integers(0, 10**6), bkg=st.one_of(st.none(), g.logf(1e-3, 10.0)), mag=g.uni(15.0, 28.0), dist=g.logf(1.0, 1e9), neg=st.booleans()))


@PROP.facet("noise", noise_case, quick=400, shards=4)
def noise(case, t):
    import lenstronomy.Util.data_util as du
    from lenstronomy.SimulationAPI.data_api import DataAPI
    from lenstronomy.SimulationAPI.observation_api import SingleBand

    c, b = case, case["b"]
    g_ = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.0
    T = b["exposure_time"] * b["num_exposures"]
    sb = SingleBand(**b)
    f0 = 10 ** (-(b["sky_brightness"] - b["magnitude_zero_point"]) / 2.5)
    t.close(sb.sky_brightness, f0 / g_, "sky brightness", 1e-8)
    t.close(sb.exposure_time, T, "total exposure", 1e-12)
    bkg = np.sqrt(b["num_exposures"] * b["read_noise"] ** 2 + f0 * b["pixel_scale"] ** 2 * T) / T / g_
    t.close(sb.background_noise, bkg, "background noise", 1e-8)
    rng = np.random.RandomState(c["seed"])
    model = c["lev"] * rng.rand(c["n"], c["n"]) * f0
    if c["neg"]:
        model = model - 0.3 * c["lev"] * f0
    keep = model.copy()
    fn = np.sqrt(np.maximum(model, 0) / (g_ * T))
    t.close(sb.flux_noise(model), fn, "flux noise", 1e-8, 1e-300)
    t.close(sb.flux_noise(float(model[0, 0])), fn[0, 0], "flux noise of a number", 1e-8, 1e-300)
    t.close(sb.flux_iid(model), model * T * g_, "counts", 1e-8)
    t.close(sb.estimate_noise(model), np.sqrt(bkg**2 + fn**2), "noise estimate", 1e-8)
    a = sb.noise_for_model(model, seed=c["seed"])
    t.same(sb.noise_for_model(model, seed=c["seed"]), a, "noise with the same seed")
    t.true(not np.allclose(sb.noise_for_model(model, seed=c["seed"] + 1), a), "different seeds give the same noise")
    np.random.seed(c["seed"])
    st0 = np.random.get_state()[1].copy()
    sb.noise_for_model(model, seed=3)
    t.same(np.random.get_state()[1], st0, "the global random state after seeded noise")
    t.close(sb.noise_for_model(model, background_noise=False, poisson_noise=False), 0 * model, "no noise", 0, 0)
    N = 40 * 40
    big = np.full((40, 40), c["lev"] * f0)
    for kw, sig in [(dict(poisson_noise=False), bkg), (dict(background_noise=False), np.sqrt(c["lev"] * f0 / (g_ * T))), ({}, np.sqrt(bkg**2 + c["lev"] * f0 / (g_ * T)))]:
        z = sb.noise_for_model(big, seed=c["seed"], **kw) / sig
        t.true(abs(z.mean()) < 7 / np.sqrt(N), "mean of the noise %g sigma, %s" % (z.mean() * np.sqrt(N), kw))
        t.true(abs(z.std() - 1) < 7 / np.sqrt(2 * N), "scatter of the noise %g, %s" % (z.std(), kw))
    t.unchanged(model, keep, "the model image")
    # data class
    api = DataAPI(num_pix=c["n"], **b)
    d = api.data_class
    t.close(d.C_D_model(np.maximum(model, 0)), bkg**2 + np.maximum(model, 0) / (g_ * T), "variance of the data class", 1e-6)
    t.close(d.pixel_width, b["pixel_scale"], "pixel scale of the data class", 1e-8)
    t.close(d.center, (0.0, 0.0), "centre of the frame", 0, 1e-8)
    t.equal(np.shape(d.data), (c["n"], c["n"]), "shape of the data")
    # updates equal a fresh construction
    upd = {k: c["b2"][k] for k in c["which"]}
    sb.update_observation(**upd)
    fresh = SingleBand(**dict(b, **upd))
    t.close([sb.background_noise, sb.exposure_time, sb.sky_brightness], [fresh.background_noise, fresh.exposure_time, fresh.sky_brightness], "updated observation", 1e-12)
    t.equal(sb.kwargs_psf, fresh.kwargs_psf, "PSF of the updated observation")
    if c["bkg"] is not None:
        s2 = SingleBand(**dict(b, background_noise=c["bkg"], read_noise=None))
        t.close(s2.background_noise, c["bkg"], "declared background noise", 1e-12)
        t.close(s2.estimate_noise(model), np.sqrt(c["bkg"] ** 2 + fn**2), "noise estimate with declared background", 1e-8)
    # magnitudes
    f = 10 ** (-(c["mag"] - b["magnitude_zero_point"]) / 2.5)
    s3 = SingleBand(**b)
    t.close(s3.magnitude2cps(c["mag"]), f / g_, "counts of a magnitude", 1e-8)
    arr = np.array([c["mag"], b["magnitude_zero_point"]])
    t.close(s3.magnitude2cps(arr), np.array([f, 1.0]) / g_, "counts of magnitudes", 1e-8)
    t.unchanged(arr, np.array([c["mag"], b["magnitude_zero_point"]]), "the magnitudes")
    t.close(du.cps2magnitude(f, b["magnitude_zero_point"]), c["mag"], "magnitude round trip", 1e-8)
    t.close(du.absolute2apparent_magnitude(c["mag"], c["dist"]), c["mag"] + 5 * np.log10(c["dist"] / 10), "distance modulus", 1e-8)
    # same flux (inverse square law) at another distance
    df = 10 ** (-0.4 * (du.absolute2apparent_magnitude(c["mag"], c["dist"]) - du.absolute2apparent_magnitude(c["mag"], 3 * c["dist"])))
    t.close(df, 9.0, "inverse-square law", 1e-6)
    t.close(du.electrons2adu(f, b["ccd_gain"]) * b["ccd_gain"], f, "electrons to ADU", 1e-10)
    t.close(du.adu2electrons(du.electrons2adu(f, b["ccd_gain"]), b["ccd_gain"]), f, "ADU round trip", 1e-10)
    t.nontrivial(b["num_exposures"] > 1)
    t.label(b["data_count_unit"])


LIGHTS = {
    "SERSIC": lambda v: dict(R_sersic=0.35 + 0.25 * v[0], n_sersic=0.7 + 0.7 * v[1], center_x=v[2] - 0.5, center_y=v[3] - 0.5),
    "SERSIC_ELLIPSE": lambda v: dict(R_sersic=0.35 + 0.25 * v[0], n_sersic=0.7 + 0.7 * v[1], e1=0.3 * (v[4] - 0.5), e2=0.3 * (v[5] - 0.5), center_x=v[2] - 0.5, center_y=v[3] - 0.5),
    "GAUSSIAN": lambda v: dict(sigma=0.2 + 0.4 * v[0], center_x=v[2] - 0.5, center_y=v[3] - 0.5),
    "GAUSSIAN_ELLIPSE": lambda v: dict(sigma=0.2 + 0.4 * v[0], e1=0.3 * (v[4] - 0.5), e2=0.3 * (v[5] - 0.5), center_x=v[2] - 0.5, center_y=v[3] - 0.5),
}


def sim_case():
    v = st.lists(g.uni(0.0, 1.0), min_size=6, max_size=6)
    lt = st.tuples(st.sampled_from(sorted(LIGHTS)), v, g.uni(17.0, 26.0)).map(list)
    return st.fixed_dictionaries(dict(b=band(), n=st.sampled_from([60, 71]), ll=st.lists(lt, min_size=1, max_size=3), src=st.lists(lt, min_size=0, max_size=2), ps=st.sampled_from(["none", "UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"]), mags=st.lists(g.uni(17, 26), min_size=4, max_size=4), sx=g.uni(-0.15, 0.15), sy=g.uni(-0.15, 0.15), ss=st.sampled_from([1, 2]), cosmo=C.cosmo_strategy(), zl=g.uni(0.1, 0.8), dz=g.uni(0.3, 2.0), sig=g.uni(180.0, 330.0), M=g.logf(1e12, 1e14), conc=g.uni(3.0, 12.0), multi=st.booleans(), zconv=st.booleans(), grid=st.booleans(), rot=g.uni(0, 6.28)))


@PROP.facet("simulation", sim_case, quick=80, shards=4)
def simulation(case, t):
    import lenstronomy.Util.data_util as du
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.SimulationAPI.mag_amp_conversion import MagAmpConversion
    from lenstronomy.SimulationAPI.sim_api import SimAPI
    from lenstronomy.Util.simulation_util import data_configure_simple, simulate_simple

    c = case
    b = dict(c["b"], pixel_scale=0.13, seeing=0.4 + 0.25 * c["b"]["seeing"], truncation=5)
    g_ = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.0
    cosmo = C.make(c["cosmo"])
    zl, zs = c["zl"], c["zl"] + c["dz"]
    zc = zs + 0.7 if c["zconv"] else None
    kmass = [dict(sigma_v=c["sig"], center_x=0.0, center_y=0.0), dict(M200=c["M"], concentration=c["conc"], center_x=0.1, center_y=0.0), dict(gamma1=0.03, gamma2=-0.02)]
    names = ["SIS", "NFW", "SHEAR"]
    zlist = [zl, 0.6 * zl, zl] if c["multi"] else None
    km = dict(lens_model_list=names, z_lens=zl, z_source=zs, cosmo=cosmo, lens_redshift_list=zlist, z_source_convention=zc, lens_light_model_list=[l[0] for l in c["ll"]], source_light_model_list=[l[0] for l in c["src"]], point_source_model_list=[] if c["ps"] == "none" else [c["ps"]])
    kb = dict(b)
    if c["grid"]:
        ct, sn = np.cos(c["rot"]), np.sin(c["rot"])
        m = 0.13 * np.array([[ct, sn], [-sn, ct]])
        r0 = m.dot(np.array([-(c["n"] - 1) / 2.0] * 2))
        kb["kwargs_pixel_grid"] = dict(ra_at_xy_0=r0[0], dec_at_xy_0=r0[1], transform_pix2angle=m)
    sim = SimAPI(num_pix=c["n"], kwargs_single_band=kb, kwargs_model=km)
    # physical masses
    keep = copy.deepcopy(kmass)
    kl = sim.physical2lensing_conversion(kmass)
    t.unchanged(kmass, keep, "the physical parameters")
    zz = zc if zc is not None else zs
    z0, z1 = (zlist[0], zlist[1]) if zlist else (zl, zl)
    tE = 4 * np.pi * (c["sig"] * 1e3 / C.C_LIGHT) ** 2 * C.D(cosmo, z0, zz) / C.D(cosmo, zz) * 206264.80624709636
    t.close(kl[0]["theta_E"], tE, "Einstein radius of the dispersion", 1e-6)
    Rs, al = LensCosmo(z1, zz, cosmo=cosmo).nfw_physical2angle(c["M"], c["conc"])
    t.close([kl[1]["Rs"], kl[1]["alpha_Rs"]], [Rs, al], "angles of the halo", 1e-8)
    t.equal([sorted(k) for k in kl], [["center_x", "center_y", "theta_E"], ["Rs", "alpha_Rs", "center_x", "center_y"], ["gamma1", "gamma2"]], "parameters")
    # magnitudes
    def mk(ls):
        return [dict(LIGHTS[n](v), magnitude=m) for n, v, m in ls]

    kll, ks = mk(c["ll"]), mk(c["src"])
    kp = None
    if c["ps"] == "SOURCE_POSITION":
        kp = [dict(ra_source=c["sx"], dec_source=c["sy"], magnitude=c["mags"][0])]
    elif c["ps"] != "none":
        kp = [dict(ra_image=np.array([0.7, -0.4, 0.1, 1.1]), dec_image=np.array([0.2, 0.9, -0.8, -0.3]), magnitude=list(c["mags"]))]
    keep = copy.deepcopy((kll, ks, kp))
    al, as_, ap = sim.magnitude2amplitude(kll, ks, kp)
    t.unchanged((kll, ks, kp), keep, "the magnitudes")
    fl = [10 ** (-(m - b["magnitude_zero_point"]) / 2.5) / g_ for _, _, m in c["ll"]]
    lm = LightModel([l[0] for l in c["ll"]])
    t.close(np.array(lm.total_flux(al)), np.array(fl), "flux of the amplitudes", 1e-4)
    if ks:
        fs = [10 ** (-(m - b["magnitude_zero_point"]) / 2.5) / g_ for _, _, m in c["src"]]
        t.close(np.array(LightModel([l[0] for l in c["src"]]).total_flux(as_)), np.array(fs), "flux of the source amplitudes", 1e-4)
    if kp is not None:
        key = "source_amp" if c["ps"] == "SOURCE_POSITION" else "point_amp"
        fp = 10 ** (-(np.array(keep[2][0]["magnitude"]) - b["magnitude_zero_point"]) / 2.5) / g_
        t.close(np.array(ap[0][key], dtype=float), fp, "point source amplitudes", 1e-8)
    mc = MagAmpConversion(km, b["magnitude_zero_point"]).magnitude2amplitude(kll, ks, kp)
    for i in range(len(al)):
        t.close(mc[0][i]["amp"], al[i]["amp"] * g_, "amplitude of the stand-alone conversion", 1e-6)
        t.close(du.magnitude2amplitude(lm, kll, b["magnitude_zero_point"])[i]["amp"], al[i]["amp"] * g_, "amplitude of the utility", 1e-6)
    for i in range(len(as_)):
        t.close(mc[1][i]["amp"], as_[i]["amp"] * g_, "source amplitude of the stand-alone conversion", 1e-6)
    # image
    num = dict(supersampling_factor=c["ss"], supersampling_convolution=False)
    im = sim.image_model_class(dict(num))
    img = im.image(kl, as_, al, ap, source_add=False, point_source_add=False)
    t.close(img.sum(), sum(fl), "flux of the lens light image", 0.05)
    lens = LensModel(names, z_lens=zl, z_source=zs, lens_redshift_list=zlist, multi_plane=bool(zlist), cosmo=cosmo, z_source_convention=zc)
    psc = PointSource(km["point_source_model_list"], lens_model=lens, fixed_magnification_list=[c["ps"] == "SOURCE_POSITION"] * len(km["point_source_model_list"]))
    ref = ImageModel(sim.data_class, sim.psf_class, lens, LightModel(km["source_light_model_list"]), lm, psc, kwargs_numerics=dict(num))
    np.random.seed(1)
    a = im.image(kl, as_, al, ap)
    np.random.seed(1)
    r = ref.image(kl, as_, al, ap)
    t.close(a, r, "image of directly built models", 1e-6, 1e-8 * np.max(np.abs(r)))
    if c["ps"] in ("UNLENSED", "LENSED_POSITION"):
        d = a - im.image(kl, as_, al, ap, point_source_add=False)
        t.close(d.sum(), fp.sum(), "flux of the point sources", 0.02)
    t.close(simulate_simple(ref, kl, as_, al, ap, no_noise=True, point_source_add=False), ref.image(kl, as_, al, ap, point_source_add=False), "simulated image", 1e-10)
    np.random.seed(5)
    z = (simulate_simple(ref, kl, as_, al, ap, point_source_add=False, source_add=False) - img) / np.sqrt(ref.Data.C_D_model(img))
    t.true(abs(z.mean()) < 7 / c["n"] and abs(z.std() - 1) < 0.25, "normalised noise of the simulation %g %g" % (z.mean() * c["n"], z.std()))
    kd = data_configure_simple(c["n"], 0.13, exposure_time=7.0, background_rms=0.3, center_ra=0.4, center_dec=-0.2)
    from lenstronomy.Data.imaging_data import ImageData

    dd = ImageData(**kd)
    t.close(dd.center, (0.4, -0.2), "centre of the configured data", 0, 1e-8)
    t.close([dd.background_rms, np.mean(dd.exposure_map)], [0.3, 7.0], "noise of the configured data", 1e-10)
    t.label("multi" if c["multi"] else "single")
    t.label(c["ps"])
    t.nontrivial(True)


def var_case():
    return st.fixed_dictionaries(dict(b=band(), cosmo=C.cosmo_strategy(), zl=g.uni(0.2, 0.8), dz=g.uni(0.4, 2.0), theta_E=g.uni(0.7, 1.4), e1=g.uni(-0.2, 0.2), e2=g.uni(-0.2, 0.2), sx=g.uni(-0.1, 0.1), sy=g.uni(-0.1, 0.1), amp=g.uni(0.1, 1.5), per=g.logf(5.0, 300.0), times=st.lists(g.uni(-300, 300), min_size=2, max_size=3), mag=g.uni(18, 24), bkg=st.booleans()))


@PROP.facet("variability", var_case, quick=48, shards=4)
def variability(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.SimulationAPI.point_source_variability import PointSourceVariability
    from lenstronomy.SimulationAPI.sim_api import SimAPI

    c = case
    b = dict(c["b"], pixel_scale=0.1, seeing=0.25, truncation=4)
    g_ = b["ccd_gain"] if b["data_count_unit"] == "ADU" else 1.0
    cosmo = C.make(c["cosmo"])
    zl, zs = c["zl"], c["zl"] + c["dz"]
    kl = [dict(theta_E=c["theta_E"], e1=c["e1"], e2=c["e2"], center_x=0.0, center_y=0.0)]
    km = dict(lens_model_list=["SIE"], z_lens=zl, z_source=zs, cosmo=cosmo, lens_light_model_list=["SERSIC"] if c["bkg"] else [])
    kll = [dict(magnitude=20.0, R_sersic=0.4, n_sersic=1.5, center_x=0.0, center_y=0.0)] if c["bkg"] else None
    f = lambda x: c["mag"] + c["amp"] * np.sin(2 * np.pi * x / c["per"])
    keep = copy.deepcopy((kl, kll))
    psv = PointSourceVariability(c["sx"], c["sy"], f, num_pix=61, kwargs_single_band=b, kwargs_model=km, kwargs_numerics={}, kwargs_lens=kl, kwargs_lens_light_mag=kll)
    t.unchanged((kl, kll), keep, "the caller's arguments")
    lens = LensModel(["SIE"])
    dt = psv.delays
    if len(dt) < 2:
        return t.trivial()
    sim = SimAPI(61, b, dict(km, point_source_model_list=["LENSED_POSITION"]))
    imod = sim.image_model_class({})
    al, _, _ = sim.magnitude2amplitude(kll, None, None)
    order = list(c["times"]) + [c["times"][0]]
    first = None
    for i, tm in enumerate(order):
        kp = psv.point_source_time(tm)
        x, y = np.array(kp[0]["ra_image"]), np.array(kp[0]["dec_image"])
        bx, by = lens.ray_shooting(x, y, kl)
        t.close(np.concatenate([bx, by]), np.repeat([c["sx"], c["sy"]], len(x)), "source of the images", 0, 1e-4)
        phi = (0.5 * ((x - c["sx"]) ** 2 + (y - c["sy"]) ** 2) - lens.potential(x, y, kl)) * C.days_per_arcsec2(cosmo, zl, zs)
        t.close(dt, phi - phi.min(), "delays", 1e-4, 2e-3)
        mu = np.abs(lens.magnification(x, y, kl))
        cps = 10 ** (-(f(tm - dt) - b["magnitude_zero_point"]) / 2.5) / g_
        t.close(np.array(kp[0]["point_amp"]), cps * mu, "fluxes of the images at time t", 1e-6)
        img = psv.image_time(tm)
        ref = imod.image(kl, None, al, kp)
        t.close(img, ref, "image at time t", 1e-6, 1e-8 * np.max(np.abs(ref)))
        first = img if i == 0 else first
    t.close(img, first, "image after evaluations at other times", 1e-10)
    t.close(psv.image_bkg, imod.image(kl, None, al, kp, point_source_add=False), "static image", 1e-8, 1e-10)
    t.nontrivial(True)


CONF = {"DES": [dict(band=x, coadd_years=y) for x in "grizY" for y in (1, 2, 3, 5, 6)], "ZTF": [dict(band=x, coadd_years=y) for x in "gri" for y in (1, 2, 3)], "LSST": [dict(band=x, coadd_years=y) for x in "ugrizy" for y in (1, 4, 9, 10)], "Euclid": [dict(band=x, coadd_years=y) for x in ("VIS", "Y", "J", "H") for y in (2, 3, 5, 6)], "HST": [dict(band=x, psf_type=p) for x in ("TDLMC_F160W", "WFC3_F160W") for p in ("GAUSSIAN", "PIXEL")],
        "JWST": [dict(band=x, psf_type=p) for x in ("F200W", "F356W", "F115W", "F150W", "F277W", "F444W") for p in ("GAUSSIAN", "PIXEL")], "Roman": [dict(band=x, psf_type=p, survey_mode=m) for x in ("F087", "F106", "F129", "F158", "F062", "F184", "F146") for p in ("GAUSSIAN", "PIXEL") for m in ("wide_area", "time_domain_wide", "time_domain_deep", "microlensing")]}
# exposures of the full survey
FULL = {"DES": 3, "ZTF": 3, "LSST": 10, "Euclid": 6}


def conf_case():
    return st.fixed_dictionaries(dict(cls=st.sampled_from(sorted(CONF)), ops=st.lists(st.tuples(st.integers(0, 10**6), st.booleans()).map(list), min_size=2, max_size=8)))


@PROP.facet("instruments", conf_case, quick=300, shards=2)
def instruments(case, t):
    import importlib

    from lenstronomy.SimulationAPI.observation_api import SingleBand

    mod = importlib.import_module("lenstronomy.SimulationAPI.ObservationConfig." + case["cls"])
    cls = getattr(mod, case["cls"])
    live, seen = [], {}
    for k, mutate in case["ops"]:
        cf = CONF[case["cls"]][k % len(CONF[case["cls"]])]
        try:
            inst = cls(**cf)
        except ValueError:
            continue
        kw = inst.kwargs_single_band()
        if cf.get("psf_type") == "GAUSSIAN":
            t.equal(kw["psf_type"], "GAUSSIAN", "PSF type of %s" % cf)
        snap = copy.deepcopy(kw)
        key = str(cf)
        if key in seen:
            t.unchanged(snap, seen[key], "configuration %s built again" % cf)
        seen[key] = snap
        for c0, i0, s0 in live:
            t.unchanged(i0.kwargs_single_band(), s0, "configuration %s after building %s" % (c0, cf))
        live.append((cf, inst, snap))
        if case["cls"] in FULL and cf["coadd_years"] != FULL[case["cls"]]:
            full = cls(**dict(cf, coadd_years=FULL[case["cls"]])).kwargs_single_band()["num_exposures"]
            t.equal(kw["num_exposures"], cf["coadd_years"] * full // FULL[case["cls"]], "exposures after %s of %s years" % (cf["coadd_years"], FULL[case["cls"]]))
        if kw["psf_type"] == "GAUSSIAN":
            sb = SingleBand(**kw)
            t.true(np.isfinite(sb.background_noise) and sb.background_noise > 0, "background noise of %s" % cf)
        if mutate:
            kw["exposure_time"] = -1.0
            kw["psf_type"] = "changed"
    t.nontrivial(len(live) > 1)
    t.label(case["cls"])
