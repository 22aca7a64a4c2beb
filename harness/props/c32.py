"""C32: exchange of models with the COOLEST standard."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C32",
    title="A COOLEST file and the lenstronomy model made from it describe the same lens",
    statement=(
        "Reading a COOLEST file gives a lenstronomy model with the same mass, light, point images, pixel grid, noise, PSF sampling and cosmology as the file describes (the x-axis mirrored), for any set and order of entities; "
        "values the file does not give get a finite starting value inside valid bounds. Writing a lenstronomy result into a COOLEST file and reading it back returns the result, and the posterior summaries written are those of the chain in COOLEST conventions."
    ),
    over=("inputs",),
    quant="entity and profile lists and their order, parameter values, bounds and fixed flags, image and PSF grids, chains",
    why="the tests use one template file with one set of values, and compare the round trip through the same two conversion functions",
    files=["lenstronomy/Util/coolest_interface.py", "lenstronomy/Util/coolest_read_util.py", "lenstronomy/Util/coolest_update_util.py"],
    mechanism=["angle and axis conventions (east of north against north of east, mirrored x)", "indices of profiles over entities", "parity of shapelet coefficients", "percentiles of mirrored quantities"],
    observe=["create_lenstronomy_from_coolest", "update_coolest_from_lenstronomy", "COOLEST API profiles as an independent implementation"],
    rule="non-trivial: at least two profiles, off-centre and elliptical, angles over the full range",
    assumptions=["COOLEST 'MAP' templates with one lens plane (others are refused by the interface)", "posterior of position angles not compared (they wrap)"],
)

MASS = ["SIE", "PEMD"]
FIELD = ["ExternalShear", "ConvergenceSheet"]
SRC = ["Sersic", "Shapelets", "LensedPS"]


def world():
    return st.fixed_dictionaries(
        dict(
            mass=st.lists(st.sampled_from(MASS), min_size=1, max_size=3),
            field=st.lists(st.sampled_from(FIELD), max_size=2, unique=True),
            src=st.lists(st.sampled_from(SRC), min_size=1, max_size=3),
            light=st.integers(0, 2),
            lens2=st.booleans(),
            order=st.permutations([0, 1, 2, 3]),
            zl=g.uni(0.1, 0.8),
            dz=g.uni(0.2, 2),
            seed=st.integers(0, 10**6),
            nmax=st.integers(0, 4),
            nps=st.sampled_from([1, 2, 4]),
            H0=g.uni(50, 90),
            om=g.uni(0.1, 0.5),
        )
    )


def build(c, path, values=True, grid=None):
    """(COOLEST object written, list of (kind, profile, entity))"""
    from coolest.template.json import JSONSerializer
    from coolest.template.lazy import Cosmology, CoordinatesOrigin, Galaxy, Instrument, LensingEntityList, LightModel, MassField, MassModel, NoiseMap, Observation, PixelatedPSF, PixelatedRegularGrid
    from coolest.template.standard import COOLEST

    r = np.random.default_rng(c["seed"])
    ents = [
        Galaxy("src", c["zl"] + c["dz"], light_model=LightModel(*c["src"])),
        Galaxy("lens", c["zl"], light_model=LightModel(*(["Sersic"] * c["light"])), mass_model=MassModel(*c["mass"])),
    ]
    if c["field"]:
        ents.append(MassField("field", c["zl"], mass_model=MassModel(*c["field"])))
    if c["lens2"]:
        ents.append(Galaxy("lens2", c["zl"], light_model=LightModel("Sersic"), mass_model=MassModel("SIE")))
    ents = [ents[i] for i in c["order"] if i < len(ents)]
    lens, src, ll, ps = [], [], [], []
    for e in ents:
        for p in list(getattr(e, "mass_model", None) or []):
            lens.append(p)
        for p in list(getattr(e, "light_model", None) or []):
            if e.redshift == c["zl"]:
                ll.append(p)
            else:
                (ps if p.type == "LensedPS" else src).append(p)
    if values:
        for p in lens + src + ll + ps:
            for k, v in draw(p.type, r, c).items():
                p.parameters[k].set_point_estimate(v)
    grid = grid or dict(nx=6, ny=6, pix=0.1, x0=-0.3, y0=-0.3, ss=1, npsf=5)
    fx = [grid["x0"], grid["x0"] + grid["nx"] * grid["pix"]]
    fy = [grid["y0"], grid["y0"] + grid["ny"] * grid["pix"]]
    mk = lambda name: PixelatedRegularGrid(name, field_of_view_x=fx, field_of_view_y=fy, num_pix_x=grid["nx"], num_pix_y=grid["ny"])
    h = grid["npsf"] * grid["pix"] / grid["ss"] / 2
    psf = PixelatedRegularGrid("psf.fits", field_of_view_x=[-h, h], field_of_view_y=[-h, h], num_pix_x=grid["npsf"], num_pix_y=grid["npsf"])
    obj = COOLEST("MAP", CoordinatesOrigin("00h11m20.244s", "-08d45m51.48s"), LensingEntityList(*ents), Observation(pixels=mk("obs.fits"), noise=NoiseMap(mk("noise.fits"))), Instrument(grid["pix"], name="i", readout_noise=4, band="F160W", psf=PixelatedPSF(psf)), Cosmology(H0=c["H0"], Om0=c["om"]))
    JSONSerializer(path, obj=obj, check_external_files=False).dump_simple()
    return obj, lens, src, ll, ps


def draw(kind, r, c):
    ell = dict(q=float(r.uniform(0.4, 1)), phi=float(r.uniform(-89.9, 90)), center_x=float(r.uniform(-0.5, 0.5)), center_y=float(r.uniform(-0.5, 0.5)))
    if kind == "SIE":
        return dict(theta_E=float(r.uniform(0.3, 2)), **ell)
    if kind == "PEMD":
        return dict(theta_E=float(r.uniform(0.3, 2)), gamma=float(r.uniform(1.6, 2.4)), **ell)
    if kind == "ExternalShear":
        return dict(gamma_ext=float(r.uniform(0.01, 0.3)), phi_ext=float(r.uniform(-89.9, 90)))
    if kind == "ConvergenceSheet":
        return dict(kappa_s=float(r.uniform(-0.3, 0.3)))
    if kind == "Sersic":
        return dict(I_eff=float(r.uniform(0.1, 5)), theta_eff=float(r.uniform(0.2, 2)), n=float(r.uniform(0.6, 6)), **ell)
    if kind == "Shapelets":
        n = c["nmax"]
        return dict(n_max=n, beta=float(r.uniform(0.1, 1)), amps=list(map(float, r.normal(size=(n + 1) * (n + 2) // 2))), center_x=ell["center_x"], center_y=ell["center_y"])
    k = c["nps"]
    return dict(amps=list(map(float, r.uniform(0.5, 5, k))), ra_list=list(map(float, r.normal(size=k))), dec_list=list(map(float, r.normal(size=k))))


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c32")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def read(path, **kw):
    from lenstronomy.Util.coolest_interface import create_lenstronomy_from_coolest

    return create_lenstronomy_from_coolest(path, check_external_files=False, **kw)


def val(p):
    return {k: v.point_estimate.value for k, v in p.parameters.items()}


NAME = dict(SIE="SIE", PEMD="EPL", ExternalShear="SHEAR", ConvergenceSheet="CONVERGENCE", Sersic="SERSIC_ELLIPSE", Shapelets="SHAPELETS", LensedPS="LENSED_POSITION")


def sersic_own(x, y, v):
    """elliptical radius with unit-product axes about a position angle east of north"""
    from scipy.special import gammaincinv

    a = np.deg2rad(v["phi"] + 90.0)  # anti-clockwise from the x-axis pointing right
    dx, dy = x - v["center_x"], y - v["center_y"]
    u, w = dx * np.cos(a) + dy * np.sin(a), -dx * np.sin(a) + dy * np.cos(a)
    q = v["q"]
    return np.sqrt(q * u**2 + w**2 / q)


@PROP.facet("meaning", world, quick=180, thorough=900, shards=3)
def meaning(case, t):
    """the model read describes what the file describes (independent COOLEST profiles)"""
    from coolest.api.profiles import mass as CM
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel

    with Dir() as d:
        p = os.path.join(d, "a")
        obj, lens, src, ll, ps = build(case, p)
        use_epl = case["seed"] % 4 != 0
        R = read(p, use_epl=use_epl)
    km, kr = R["kwargs_model"], R["kwargs_result"]
    nm = dict(NAME)
    if not use_epl:
        nm["PEMD"] = "PEMD"
    t.equal(list(km["lens_model_list"]), [nm[q.type] for q in lens], "lens models")
    t.equal(list(km["source_light_model_list"]), [nm[q.type] for q in src], "source models")
    t.equal(list(km["lens_light_model_list"]), [nm[q.type] for q in ll], "lens light models")
    t.equal(list(km["point_source_model_list"]), [nm[q.type] for q in ps], "point source models")
    t.close([R["Cosmo"].H0.value, R["Cosmo"].Om0], [case["H0"], case["om"]], "cosmology", 1e-10)
    t.equal(sorted(R["redshift_list"]), sorted(e.redshift for e in obj.lensing_entities), "redshifts")
    r = np.random.default_rng(case["seed"] + 1)
    x, y = r.uniform(-2.5, 2.5, (2, 12))  # COOLEST axes
    for k, (prof, kw) in enumerate(zip(lens, kr["kwargs_lens"])):
        v = val(prof)
        if prof.type == "SIE":
            ref, args = CM.PEMD(), dict(v, gamma=2.0)
        else:
            ref, args = getattr(CM, prof.type)(), v
        name = nm[prof.type]
        m = LensModel(["EPL" if name == "PEMD" else name])
        ax, ay = ref.deflection(x, y, **args)
        bx, by = m.alpha(-x, y, [kw])
        tol = 2e-4 if prof.type == "SIE" else 1e-6
        if prof.type == "SIE":
            m = LensModel(["EPL"])
            bx, by = m.alpha(-x, y, [dict(kw, gamma=2.0)])
        t.close(-bx, ax, "deflection of %s along x" % prof.type, tol, 1e-6)
        t.close(by, ay, "deflection of %s along y" % prof.type, tol, 1e-6)
    for prof, kw in list(zip(ll, kr["kwargs_lens_light"])) + list(zip([q for q in src if q.type == "Sersic"], [k for k, q in zip(kr["kwargs_source"], src) if q.type == "Sersic"])):
        v = val(prof)
        rad = sersic_own(x, y, v)
        m = LightModel(["SERSIC_ELLIPSE"])
        i0 = m.surface_brightness(-x, y, [kw])
        # the circular profile of the same parameters at the elliptical radius
        c0 = m.surface_brightness(rad, 0 * rad, [dict(amp=v["I_eff"], R_sersic=v["theta_eff"], n_sersic=v["n"], e1=0.0, e2=0.0, center_x=0.0, center_y=0.0)])
        t.close(i0, c0, "Sersic surface brightness", 1e-6)
    for prof, kw in zip(src, kr["kwargs_source"]):
        if prof.type == "Shapelets":
            v = val(prof)
            m = LightModel(["SHAPELETS"])
            i0 = m.surface_brightness(-x, y, [kw])
            i1 = m.surface_brightness(x, y, [dict(amp=v["amps"], beta=v["beta"], n_max=v["n_max"], center_x=v["center_x"], center_y=v["center_y"])])
            t.close(i0, i1, "shapelets mirrored", 1e-8, 1e-10)
    for prof, kw in zip(ps, kr["kwargs_ps"]):
        v = val(prof)
        t.close(kw["ra_image"], -np.array(v["ra_list"]), "image positions in ra", 1e-12)
        t.close(kw["dec_image"], v["dec_list"], "image positions in dec", 1e-12)
        t.close(kw["point_amp"], v["amps"], "point amplitudes", 1e-12)
    t.label("+".join(sorted({q.type for q in lens})))
    t.nontrivial(len(lens) + len(src) + len(ll) > 2)


def rand_result(lens, src, ll, ps, r, nmax, nps):
    def el():
        a, m = r.uniform(0, np.pi), r.uniform(0.02, 0.4)
        return dict(e1=m * np.cos(2 * a), e2=m * np.sin(2 * a), center_x=r.normal() * 0.3, center_y=r.normal() * 0.3)

    def one(k):
        if k == "SIE":
            return dict(theta_E=r.uniform(0.3, 2), **el())
        if k == "PEMD":
            return dict(theta_E=r.uniform(0.3, 2), gamma=r.uniform(1.6, 2.4), **el())
        if k == "ExternalShear":
            return dict(gamma1=r.uniform(-0.2, 0.2), gamma2=r.uniform(-0.2, 0.2), ra_0=0.0, dec_0=0.0)
        if k == "ConvergenceSheet":
            return dict(kappa=r.uniform(-0.3, 0.3), ra_0=0.0, dec_0=0.0)
        if k == "Sersic":
            return dict(amp=r.uniform(0.1, 5), R_sersic=r.uniform(0.2, 2), n_sersic=r.uniform(0.6, 6), **el())
        if k == "Shapelets":
            return dict(amp=r.normal(size=(nmax + 1) * (nmax + 2) // 2), beta=r.uniform(0.1, 1), n_max=nmax, center_x=r.normal() * 0.3, center_y=r.normal() * 0.3)
        return dict(ra_image=r.normal(size=nps), dec_image=r.normal(size=nps), point_amp=r.uniform(0.5, 3, nps))

    return dict(kwargs_lens=[one(p.type) for p in lens], kwargs_source=[one(p.type) for p in src], kwargs_lens_light=[one(p.type) for p in ll], kwargs_ps=[one(p.type) for p in ps])


def flat(kws):
    return [(i, k, np.asarray(v, float)) for i, kw in enumerate(kws) for k, v in sorted(kw.items())]


@PROP.facet("write-back", world, quick=180, thorough=900, shards=3)
def write_back(case, t):
    """results written into a file are read back; posterior summaries are those of the chain"""
    from coolest.template.json import JSONSerializer
    from lenstronomy.Util.coolest_interface import update_coolest_from_lenstronomy
    from lenstronomy.LensModel.lens_model import LensModel

    r = np.random.default_rng(case["seed"] + 2)
    with Dir() as d:
        p = os.path.join(d, "a")
        obj, lens, src, ll, ps = build(case, p)
        res = rand_result(lens, src, ll, ps, r, case["nmax"], case["nps"])
        chain = [rand_result(lens, src, ll, ps, r, case["nmax"], case["nps"]) for _ in range(case["seed"] % 6 + 2)]
        mc = None
        if case["seed"] % 3:
            mc = dict(args_lens=[q["kwargs_lens"] for q in chain], args_source=[q["kwargs_source"] for q in chain], args_lens_light=[q["kwargs_lens_light"] for q in chain], args_ps=[q["kwargs_ps"] for q in chain])
        import copy

        res0 = copy.deepcopy(res)
        update_coolest_from_lenstronomy(p, res, kwargs_mcmc=mc, ending="_u", check_external_files=False)
        t.unchanged(res0, res, "results handed in")
        R = read(p + "_u")["kwargs_result"]
        obj2 = JSONSerializer(p + "_u", check_external_files=False).load()
    for key in res:
        t.equal(len(res[key]), len(R[key]), "number of components " + key)
        for (i, k, v), (j, l, w) in zip(flat(res[key]), flat(R[key])):
            t.equal(k, l, "parameter names")
            t.close(w, v, "%s[%d] %s after the round trip" % (key, i, k), 1e-7, 1e-9)
    prof = dict(lens=[], source=[], lens_light=[], ps=[])
    for e in obj2.lensing_entities:
        prof["lens"] += list(getattr(e, "mass_model", None) or [])
        for q in list(getattr(e, "light_model", None) or []):
            prof["lens_light" if e.redshift == case["zl"] else "ps" if q.type == "LensedPS" else "source"].append(q)
    MAP = {"theta_E": "theta_E", "gamma": "gamma", "center_x": "center_x", "center_y": "center_y", "kappa_s": "kappa", "I_eff": "amp", "theta_eff": "R_sersic", "n": "n_sersic", "beta": "beta", "ra_list": "ra_image", "dec_list": "dec_image"}
    if mc is not None:
        for grp, profs in prof.items():
            for i, q in enumerate(profs):
                sam = [s[i] for s in mc["args_" + grp]]
                for name, par in q.parameters.items():
                    if name in MAP:
                        s = np.array([kw[MAP[name]] for kw in sam])
                        if name in ("center_x", "ra_list"):
                            s = -s
                    elif name == "amps":
                        s = np.array([kw["point_amp"] if q.type == "LensedPS" else mirror(kw["amp"]) for kw in sam])
                    elif name == "q":
                        m = np.array([np.hypot(kw["e1"], kw["e2"]) for kw in sam])
                        s = (1 - m) / (1 + m)
                    elif name == "gamma_ext":
                        s = np.array([np.hypot(kw["gamma1"], kw["gamma2"]) for kw in sam])
                    else:
                        continue
                    ps_ = par.posterior_stats
                    t.close(ps_.mean, s.mean(axis=0), "posterior mean of %s %s" % (q.type, name), 1e-7, 1e-9)
                    for pc, got in ((16, ps_.percentile_16th), (50, ps_.median), (84, ps_.percentile_84th)):
                        t.close(got, np.quantile(s, pc / 100.0, axis=0), "percentile %d of %s %s" % (pc, q.type, name), 1e-7, 1e-9)
        t.label("chain")
    t.nontrivial(len(lens) + len(src) + len(ll) > 2)


def mirror(amp):
    """coefficients of the shapelets mirrored in x: odd orders in x change sign; order (n_x, n_y) runs with n_x from n down"""
    out, n = [], 0
    from lenstronomy.LightModel.Profiles.shapelets import ShapeletSet

    amp = np.asarray(amp, float)
    nmax = int(round((np.sqrt(8 * len(amp) + 1) - 3) / 2))
    # sign found from the basis functions themselves
    x, y = np.array([0.31, 0.57, 1.13]), np.array([0.23, 0.71, 0.37])
    for i in range(len(amp)):
        e = np.zeros(len(amp))
        e[i] = 1
        a = ShapeletSet().function(x, y, e, nmax, 1.0)
        b = ShapeletSet().function(-x, y, e, nmax, 1.0)
        out.append(amp[i] * (1 if np.sum(a * b) > 0 else -1))
    return out


def grid_case():
    return st.fixed_dictionaries(dict(w=world(), nx=st.integers(3, 12), ny=st.integers(3, 12), sq=st.booleans(), pix=st.sampled_from([0.05, 0.04, 0.08, 0.1, 0.13, 0.2, 0.3, 0.6, 0.9]), x0=g.uni(-2, 1), y0=g.uni(-2, 1), ss=st.integers(1, 7), npsf=st.sampled_from([3, 5, 9, 15]), missing=st.booleans()))


@PROP.facet("grid", grid_case, quick=150, thorough=700, shards=2)
def grid(case, t):
    """pixels, noise and PSF sampling"""
    from astropy.io import fits
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF

    c = dict(case)
    c["ny"] = c["nx"] if c["sq"] else c["ny"]
    r = np.random.default_rng(c["w"]["seed"])
    img, noise, psf = r.normal(size=(c["ny"], c["nx"])), r.uniform(0.5, 2, (c["ny"], c["nx"])), r.uniform(0.1, 1, (c["npsf"], c["npsf"]))
    with Dir() as d:
        p = os.path.join(d, "a")
        build(c["w"], p, grid=c)
        for nm, a in (("obs", img), ("noise", noise), ("psf", psf)):
            fits.writeto(os.path.join(d, nm + ".fits"), a)
        cwd = os.getcwd()
        try:
            os.chdir(d)
            R = read(p)
        finally:
            os.chdir(cwd)
    kd = R["kwargs_data"]
    t.close(kd["image_data"], img, "image", 1e-12)
    t.close(kd["noise_map"], noise, "noise map", 1e-12)
    D = ImageData(**kd)
    j, i = np.meshgrid(np.arange(c["nx"]), np.arange(c["ny"]))
    ra, dec = D.map_pix2coord(j.ravel().astype(float), i.ravel().astype(float))
    t.close(ra, -(c["x0"] + (j.ravel() + 0.5) * c["pix"]), "pixel centres in ra", 1e-7, 1e-9)
    t.close(dec, c["y0"] + (i.ravel() + 0.5) * c["pix"], "pixel centres in dec", 1e-7, 1e-9)
    kp = R["kwargs_psf"]
    t.equal(int(kp["point_source_supersampling_factor"]), c["ss"], "PSF supersampling factor")
    t.close(kp["kernel_point_source"], psf, "PSF kernel", 1e-12)
    t.label("ss%d" % c["ss"])
    t.nontrivial(c["ss"] > 1)


@PROP.facet("template", lambda: st.fixed_dictionaries(dict(w=world(), keep=st.integers(0, 2**30))), quick=150, thorough=700, shards=2)
def template(case, t):
    """a file with only some of the values: starting points, widths and bounds of a fit that can be run"""
    from coolest.template.json import JSONSerializer
    from lenstronomy.Sampling.parameters import Param

    c = case["w"]
    r = np.random.default_rng(case["keep"])
    with Dir() as d:
        p = os.path.join(d, "a")
        obj, lens, src, ll, ps = build(c, p)
        for q in lens + src + ll:
            for k, par in q.parameters.items():
                if r.integers(0, 2) and k not in ("n_max", "amps"):
                    par.remove_point_estimate()
        JSONSerializer(p, obj=obj, check_external_files=False).dump_simple()
        R = read(p)
    par, res = R["kwargs_params"], R["kwargs_result"]
    n = 0
    for key, rk, profs in [("lens_model", "kwargs_lens", lens), ("source_model", "kwargs_source", src), ("lens_light_model", "kwargs_lens_light", ll), ("point_source_model", "kwargs_ps", ps)]:
        init, sigma, fix, low, up = par[key]
        t.equal([len(x) for x in (init, sigma, fix, low, up)], [len(profs)] * 5, "lengths of " + key)
        for i, q in enumerate(profs):
            for k, v in res[rk][i].items():
                a = np.asarray(init[i][k], float)
                t.true(np.all(np.isfinite(a)), "a starting value for " + k)
                n += v is None
                if v is not None:
                    t.close(a, np.asarray(v, float), "starting value of " + k, 1e-12)
            for k in sigma[i]:
                t.true(np.all(np.asarray(low[i][k]) <= np.asarray(up[i][k])), "lower bound of %s below its upper bound" % k)
                if k in ("theta_E", "R_sersic", "center_x", "center_y", "beta", "e1", "e2", "gamma1", "gamma2", "kappa"):
                    t.true(np.all((np.asarray(low[i][k]) <= init[i][k]) & (np.asarray(init[i][k]) <= up[i][k])), "starting value of %s within its bounds" % k)
                t.true(k in init[i] and k in low[i] and k in up[i] and np.all(np.asarray(sigma[i][k]) >= 0), "complete settings of " + k)
    kf = {a: par[b][2] for a, b in (("kwargs_fixed_lens", "lens_model"), ("kwargs_fixed_source", "source_model"), ("kwargs_fixed_lens_light", "lens_light_model"), ("kwargs_fixed_ps", "point_source_model"))}
    P = Param(R["kwargs_model"], **kf, num_point_source_list=[c["nps"]] * len(ps))
    num, names = P.num_param()
    init = {a: par[b][0] for a, b in (("kwargs_lens", "lens_model"), ("kwargs_source", "source_model"), ("kwargs_lens_light", "lens_light_model"), ("kwargs_ps", "point_source_model"))}
    args = P.kwargs2args(**init)
    t.equal(len(args), num, "starting vector of the fit")
    t.true(np.all(np.isfinite(np.asarray(args, float))), "finite starting vector")
    t.nontrivial(n > 0)


@PROP.facet("likelihood-threshold", lambda: st.fixed_dictionaries(dict(thr=g.uni(-60, -20), seed=st.integers(0, 100))), quick=0)
def likelihood_threshold(case, t):
    """known finding: the threshold on the likelihood of chain points has no effect"""
    from lenstronomy.Util.coolest_interface import create_kwargs_mcmc_from_chain_list

    r = np.random.default_rng(case["seed"])
    km = dict(lens_model_list=["SIS"], source_light_model_list=["SERSIC"], lens_light_model_list=[], point_source_model_list=[])
    ks = dict(R_sersic=0.5, n_sersic=1.0, center_x=0.0, center_y=0.0)
    ksf = dict(ks)
    kl = dict(theta_E=1.0, center_x=0.0, center_y=0.0)
    e = [[], [], [], [], []]
    kp = dict(lens_model=[[kl], [dict(theta_E=0.1)], [dict(center_x=0.0, center_y=0.0)], [dict(theta_E=0.0)], [dict(theta_E=10.0)]], source_model=[[dict(ks, amp=1.0)], [{}], [ksf], [{}], [{}]], lens_light_model=e, point_source_model=e)
    par = r.uniform(0.9, 1.1, (8, 1))
    like = np.linspace(-80, -10, 8)
    kd = dict(image_data=r.normal(size=(8, 8)), background_rms=1.0, exposure_time=100.0, ra_at_xy_0=-1.4, dec_at_xy_0=-1.4, transform_pix2angle=np.eye(2) * 0.4)
    out = create_kwargs_mcmc_from_chain_list([["EMCEE", par, ["theta_E_lens0"], like]], km, kp, kd, dict(psf_type="NONE"), {}, {}, likelihood_threshold=case["thr"])
    t.equal(len(out["args_lens"]), int(np.sum(like >= case["thr"])), "points of the chain above the threshold")
