"""C28: several imaging bands fitted together, and their reconstruction."""

import copy
import io
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C28",
    title="Bands are combined, solved and reconstructed as declared",
    statement=(
        "In multi-linear mode every band is modelled with the components selected for it and solved on its own, in joint-linear mode all bands share one set of linear amplitudes that minimises the noise-weighted "
        "residuals of all computed bands; the joint likelihood is that of the computed bands only, with the declared astrometric offsets. "
        "The reconstruction classes report, per band, the same model, residuals and amplitudes, patches are placed on the pixels of the joint frame that carry their coordinates, and the input parameters are left alone."
    ),
    over=("inputs", "histories"),
    quant="numbers, sizes, pixel scales, masks, PSFs and noise of bands, component selection per band, computed bands, offsets, patch layouts",
    why="tests use two identical bands, all computed, with every component in each; they never test selection against hand-built single-band models",
    files=["lenstronomy/ImSim/MultiBand/multi_linear.py", "lenstronomy/ImSim/MultiBand/joint_linear.py", "lenstronomy/ImSim/MultiBand/single_band_multi_model.py", "lenstronomy/ImSim/MultiBand/multi_data_base.py",
           "lenstronomy/Analysis/image_reconstruction.py", "lenstronomy/Analysis/multi_patch_reconstruction.py", "lenstronomy/Util/class_creator.py"],
    mechanism=["select_kwargs by band index lists", "stacking of response matrices", "band bookkeeping under bands_compute", "frame of joint patches"],
    observe=["MultiLinear.image_linear_solve", "JointLinear.likelihood_data_given_model", "SingleBandMultiModel.image", "MultiBandImageReconstruction", "MultiPatchReconstruction.image_joint", "create_im_sim"],
    rule="non-trivial: at least two bands, of which one differs in size, pixel scale, components or is not computed",
    assumptions=["well-conditioned linear systems (condition number below 1e8)"],
)

LENS = ["SIE", "SHEAR", "SIS"]
SRC = ["SERSIC", "GAUSSIAN", "INTERPOL"]
LL = ["SERSIC_ELLIPSE", "GAUSSIAN"]
PS = ["LENSED_POSITION", "UNLENSED"]
IMG = np.array([[0.0, 0.1, 0.3, 0.1, 0.0], [0.1, 0.5, 1.0, 0.4, 0.1], [0.2, 1.0, 2.0, 1.2, 0.2], [0.1, 0.6, 1.1, 0.5, 0.1], [0.0, 0.1, 0.2, 0.1, 0.0]])


def sel(n):
    return st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)


def band(offs=True):
    return st.fixed_dictionaries(dict(nx=st.integers(9, 16), ny=st.integers(9, 16), pix=g.uni(0.15, 0.3), x0=g.uni(-0.2, 0.2), y0=g.uni(-0.2, 0.2), ang=st.sampled_from([0.0, 0.0, 0.4]), psf=st.sampled_from(["NONE", "GAUSSIAN", "PIXEL"]),
                                      fwhm=g.uni(0.2, 0.6), ss=st.sampled_from([1, 1, 2]), rms=g.logf(0.01, 0.5), exp=st.sampled_from([None, 100.0, 2000.0]), mask=st.integers(0, 2), seed=st.integers(0, 10**6), perr=st.booleans(),
                                      off=st.tuples(g.uni(-0.1, 0.1), g.uni(-0.1, 0.1)) if offs else st.just((0.0, 0.0)), s_l=sel(3), s_s=sel(3), s_ll=sel(2), s_ps=sel(2)))


def case_strategy(nmax=3, **kw):
    return st.fixed_dictionaries(dict(bands=st.lists(band(**kw), min_size=2, max_size=nmax), select=st.sampled_from([True, True, False]), offsets=st.booleans(), compute=st.lists(st.sampled_from([True, True, False]), min_size=3, max_size=3),
                                      q1=g.uni(-0.2, 0.2), q2=g.uni(-0.2, 0.2), te=g.uni(0.4, 0.8), sx=g.uni(-0.15, 0.15), sy=g.uni(-0.15, 0.15), scal=st.booleans(), gam=st.tuples(g.uni(-0.08, 0.08), g.uni(-0.08, 0.08)), ps=st.booleans(),
                                      marg=st.booleans(), order=st.permutations([0, 1, 2])))


def kw_data(b, off=(0.0, 0.0), data=None):
    c, s = np.cos(b["ang"]), np.sin(b["ang"])
    M = b["pix"] * np.array([[c, -s], [s, c]])
    ctr = M @ np.array([(b["nx"] - 1) / 2, (b["ny"] - 1) / 2])
    r = np.random.default_rng(b["seed"])
    d = r.normal(0.5, 1.0, (b["ny"], b["nx"])) if data is None else data
    kw = dict(image_data=d, transform_pix2angle=M, ra_at_xy_0=b["x0"] - ctr[0], dec_at_xy_0=b["y0"] - ctr[1])
    kw.update(dict(noise_map=b["rms"] * r.uniform(0.5, 2, d.shape)) if b["exp"] is None else dict(background_rms=b["rms"], exposure_time=b["exp"]))
    if any(off):
        # data shifted by the offset, see ImageData(ra_shift, dec_shift)
        kw.update(ra_shift=off[0], dec_shift=off[1])
    return kw


def kw_psf(b):
    if b["psf"] == "PIXEL":
        k = np.abs(np.random.default_rng(b["seed"] + 1).normal(1, 0.3, (5, 5)))
        kw = dict(psf_type="PIXEL", kernel_point_source=k / k.sum())
        if b["perr"]:
            kw["psf_variance_map"] = 0.01 * np.ones((5, 5))
        return kw
    if b["psf"] == "GAUSSIAN":
        return dict(psf_type="GAUSSIAN", fwhm=b["fwhm"], pixel_size=b["pix"], truncation=3)
    return dict(psf_type="NONE")


def masks(b):
    if b["mask"] == 0:
        return np.ones((b["ny"], b["nx"]), dtype=int)
    m = (np.random.default_rng(b["seed"] + 7).uniform(size=(b["ny"], b["nx"])) > 0.15 * b["mask"]).astype(int)
    return m


class W:
    def __init__(self, c):
        self.c = c
        self.n = len(c["bands"])
        self.select = c["select"]
        self.kwargs_model = dict(lens_model_list=LENS, source_light_model_list=SRC, lens_light_model_list=LL, point_source_model_list=PS if c["ps"] else [])
        if c["scal"]:
            self.kwargs_model["source_deflection_scaling_list"] = [1.0, 0.8, 0.9]
        if self.select:
            self.kwargs_model.update(index_lens_model_list=[b["s_l"] for b in c["bands"]], index_source_light_model_list=[b["s_s"] for b in c["bands"]], index_lens_light_model_list=[b["s_ll"] for b in c["bands"]])
            if c["ps"]:
                self.kwargs_model["index_point_source_model_list"] = [b["s_ps"] for b in c["bands"]]

    def multi_band_list(self):
        return [[kw_data(b), kw_psf(b), dict(supersampling_factor=b["ss"], supersampling_convolution=False)] for b in self.c["bands"]]

    def mask_list(self):
        return [masks(b) for b in self.c["bands"]]

    def params(self):
        c = self.c
        kw = dict(
            kwargs_lens=[dict(theta_E=c["te"], e1=c["q1"], e2=c["q2"], center_x=0.02, center_y=-0.03), dict(gamma1=c["gam"][0], gamma2=c["gam"][1]), dict(theta_E=0.15, center_x=0.7, center_y=0.5)],
            kwargs_source=[dict(amp=3.0, R_sersic=0.2, n_sersic=1.3, center_x=c["sx"], center_y=c["sy"]), dict(amp=2.0, sigma=0.25, center_x=-c["sy"], center_y=c["sx"] + 0.1), dict(image=IMG, amp=1.0, center_x=0.1, center_y=0.0, phi_G=0.3, scale=0.15)],
            kwargs_lens_light=[dict(amp=5.0, R_sersic=0.5, n_sersic=2.0, e1=0.1, e2=-0.05, center_x=0.0, center_y=0.0), dict(amp=4.0, sigma=0.6, center_x=0.1, center_y=-0.1)],
            kwargs_ps=[dict(ra_image=np.array([0.6, -0.5]), dec_image=np.array([0.3, -0.4]), point_amp=np.array([3.0, 2.0])), dict(ra_image=np.array([0.1]), dec_image=np.array([-0.6]), point_amp=np.array([1.5]))] if c["ps"] else [],
            kwargs_extinction=None,
            kwargs_special=dict(kwargs_offsets=[dict(ra_shift=b["off"][0], dec_shift=b["off"][1]) for b in c["bands"]]) if c["offsets"] else None,
        )
        return kw

    def pick(self, i):
        """component indices of band i: lens, source, lens light, point source"""
        b = self.c["bands"][i]
        if not self.select:
            return [0, 1, 2], [0, 1, 2], [0, 1], [0, 1] if self.c["ps"] else []
        return b["s_l"], b["s_s"], b["s_ll"], b["s_ps"] if self.c["ps"] else []

    def hand(self, i):
        """single-band model of band i made by hand"""
        from lenstronomy.Data.imaging_data import ImageData
        from lenstronomy.Data.psf import PSF
        from lenstronomy.ImSim.image_model import ImageModel
        from lenstronomy.LensModel.lens_model import LensModel
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.PointSource.point_source import PointSource

        b = self.c["bands"][i]
        il, is_, ill, ip = self.pick(i)
        lm = LensModel([LENS[k] for k in il])
        sm = LightModel([SRC[k] for k in is_], deflection_scaling_list=[[1.0, 0.8, 0.9][k] for k in is_] if self.c["scal"] else None)
        return ImageModel(ImageData(**kw_data(b, b["off"] if self.c["offsets"] else (0.0, 0.0))), PSF(**kw_psf(b)), lens_model_class=lm, source_model_class=sm, lens_light_model_class=LightModel([LL[k] for k in ill]),
                          point_source_class=PointSource([PS[k] for k in ip], lens_model=lm) if ip else None, kwargs_numerics=dict(supersampling_factor=b["ss"], supersampling_convolution=False), likelihood_mask=masks(b))

    def hand_params(self, i, kw=None):
        kw = copy.deepcopy(self.params() if kw is None else kw)
        il, is_, ill, ip = self.pick(i)
        return dict(kwargs_lens=[kw["kwargs_lens"][k] for k in il], kwargs_source=[kw["kwargs_source"][k] for k in is_], kwargs_lens_light=[kw["kwargs_lens_light"][k] for k in ill], kwargs_ps=[kw["kwargs_ps"][k] for k in ip])

    def columns(self, i):
        """images of unit amplitude of every linear parameter of band i, in the order source, lens light, point sources"""
        m = self.hand(i)
        p = self.hand_params(i)
        cols = []
        zero = copy.deepcopy(p)
        for k in zero["kwargs_source"] + zero["kwargs_lens_light"]:
            k["amp"] = 0.0
        for k in zero["kwargs_ps"]:
            k["point_amp"] = np.zeros_like(k["point_amp"])
        for key in ("kwargs_source", "kwargs_lens_light"):
            for j in range(len(zero[key])):
                q = copy.deepcopy(zero)
                q[key][j]["amp"] = 1.0
                cols.append(m.image(**q))
        for j in range(len(zero["kwargs_ps"])):
            for a in range(len(zero["kwargs_ps"][j]["point_amp"])):
                q = copy.deepcopy(zero)
                q["kwargs_ps"][j]["point_amp"][a] = 1.0
                cols.append(m.image(**q))
        return m, np.array(cols)

    def variance(self, i, m):
        C = np.array(m.Data.C_D, dtype=float)
        p = self.hand_params(i)
        _, err = m.error_response(p["kwargs_lens"], p["kwargs_ps"] or None, kwargs_special=None) if self.c["ps"] else (None, 0.0)
        return C + err, err


def solve(cols, C, d, mask):
    """weighted least squares of columns (n, npix) over flattened data"""
    s = np.sqrt(1 / C) * mask
    A = (cols * s).T
    cond = np.linalg.cond(A)
    x = np.linalg.lstsq(A, d * s, rcond=None)[0]
    return x, cond


def amps(p):
    out = [k["amp"] for k in p["kwargs_source"]] + [k["amp"] for k in p["kwargs_lens_light"]]
    for k in p["kwargs_ps"]:
        out += list(np.atleast_1d(k["point_amp"]))
    return np.array(out, dtype=float)


@PROP.facet("multi_linear", lambda: case_strategy(), quick=30, thorough=600)
def multi_linear(case, t):
    from lenstronomy.Util.class_creator import create_im_sim

    c = case
    w = W(c)
    comp = c["compute"][: w.n]
    if not any(comp):
        comp[0] = True
    kwm = copy.deepcopy(w.kwargs_model)
    mb = w.multi_band_list()
    keep_mb, keep_kwm = copy.deepcopy(mb), copy.deepcopy(kwm)
    im = create_im_sim(mb, "multi-linear", kwm, bands_compute=list(comp), image_likelihood_mask_list=w.mask_list())
    par = w.params()
    par["kwargs_ps"] = par["kwargs_ps"] or []
    pre = copy.deepcopy(par)
    logL, plist = im.likelihood_data_given_model(**copy.deepcopy(par), source_marg=False)
    expect = 0.0
    sols = []
    conds = []
    for i in range(w.n):
        if not comp[i]:
            t.true(plist[i] is None, "parameters of a band that is not computed")
            sols.append(None)
            continue
        m, cols = w.columns(i)
        C, err = w.variance(i, m)
        b = c["bands"][i]
        x, cond = solve(cols.reshape(len(cols), -1), C.ravel(), np.array(m.Data.data, dtype=float).ravel(), masks(b).ravel())
        conds.append(cond)
        mod = np.tensordot(x, cols, 1)
        sols.append((x, mod, cols, m, err))
        expect += m.Data.log_likelihood(mod * masks(b), masks(b), err)
    if max(conds) > 1e6:
        return t.trivial()
    t.close(logL, expect, "likelihood of all bands", 1e-6, 1e-6)
    t.equal(im.num_data_evaluate, int(sum(masks(b).sum() for b, k in zip(c["bands"], comp) if k)), "number of evaluated pixels")
    wls, errs, cov, plist2 = im.image_linear_solve(inv_bool=True, **copy.deepcopy(par))
    t.equal(im.num_param_linear(par["kwargs_lens"], par["kwargs_source"], par["kwargs_lens_light"], par["kwargs_ps"]), sum(len(s[0]) for s in sols if s is not None), "number of linear parameters of the computed bands")
    for i in range(w.n):
        if sols[i] is None:
            continue
        x, mod, cols, m, err = sols[i]
        sc = np.abs(x).max()
        t.close(np.array(plist[i]), x, "amplitudes of band %d (likelihood)" % i, 1e-5, 1e-6 * sc)
        t.close(np.array(plist2[i]), x, "amplitudes of band %d" % i, 1e-5, 1e-6 * sc)
        t.close(wls[i], mod * masks(c["bands"][i]), "model of band %d" % i, 1e-5, 1e-6 * np.abs(mod).max())
        up = im.update_linear_kwargs(plist, i, *[copy.deepcopy(par[k]) for k in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps")])
        ups = dict(kwargs_source=up[1], kwargs_lens_light=up[2], kwargs_ps=up[3])
        t.close(amps(ups), x, "amplitudes written to the parameters of band %d" % i, 1e-5, 1e-6 * sc)
    # residuals of the computed bands
    done = [i for i in range(w.n) if sols[i] is not None]
    res = im.reduced_residuals([wls[i] for i in done], error_map_list=[sols[i][4] for i in done])
    t.equal(len(res), len(done), "number of residual maps")
    for r, i in zip(res, done):
        x, mod, cols, m, err = sols[i]
        mk = masks(c["bands"][i])
        t.close(np.array(r) * mk, np.array(m.reduced_residuals(mod * mk, error_map=err)) * mk, "residuals of band %d" % i, 1e-5, 1e-5)
    # the single-band view of every band
    for i in range(w.n):
        sb = create_im_sim(w.multi_band_list(), "single-band", copy.deepcopy(w.kwargs_model), image_likelihood_mask_list=w.mask_list(), band_index=i, linear_solver=False)
        p0 = dict(par, kwargs_special=None)
        m0 = W(dict(c, offsets=False)).hand(i)
        hp = w.hand_params(i)
        hp["kwargs_ps"] = hp["kwargs_ps"]
        ref = m0.image(**hp)
        t.close(sb.image(**copy.deepcopy(p0)), ref, "single-band image of band %d" % i, 1e-8, 1e-9 * np.abs(ref).max())
        t.close(sb.lens_surface_brightness(copy.deepcopy(par["kwargs_lens_light"])), m0.lens_surface_brightness(hp["kwargs_lens_light"]), "lens light of band %d" % i, 1e-8, 1e-12)
        t.close(sb.source_surface_brightness(copy.deepcopy(par["kwargs_source"]), copy.deepcopy(par["kwargs_lens"])), m0.source_surface_brightness(hp["kwargs_source"], hp["kwargs_lens"]), "source of band %d" % i, 1e-8, 1e-12)
        ll, pp = sb.likelihood_data_given_model(**copy.deepcopy(p0))
        t.true(pp is None, "no linear parameters without linear solver")
        _, err = m0.error_response(hp["kwargs_lens"], hp["kwargs_ps"] or None, kwargs_special=None) if c["ps"] else (None, 0.0)
        t.close(ll, m0.Data.log_likelihood(ref, masks(c["bands"][i]), err), "likelihood of band %d without linear solver" % i, 1e-8, 1e-8)
    t.unchanged(mb, keep_mb, "the band list")
    t.unchanged(kwm, keep_kwm, "the model settings")
    t.unchanged(par, pre, "the parameters")
    t.label("bands %d computed %d" % (w.n, sum(comp)))
    t.nontrivial(w.n > 1)


def _mk_joint(c):
    c = copy.deepcopy(c)
    c["select"] = False
    return c


@PROP.facet("joint_linear", lambda: case_strategy(), quick=30, thorough=600)
def joint_linear(case, t):
    from lenstronomy.Util.class_creator import create_im_sim

    c = _mk_joint(case)
    w = W(c)
    comp = c["compute"][: w.n]
    if not any(comp):
        comp[-1] = True
    im = create_im_sim(w.multi_band_list(), "joint-linear", copy.deepcopy(w.kwargs_model), bands_compute=list(comp), image_likelihood_mask_list=w.mask_list())
    par = w.params()
    sols = [w.columns(i) if comp[i] else None for i in range(w.n)]
    big = [s[1].reshape(len(s[1]), -1) for s in sols if s is not None]
    var = [w.variance(i, s[0]) if s is not None else None for i, s in enumerate(sols)]
    C = np.concatenate([v[0].ravel() for v in var if v is not None])
    d = np.concatenate([np.array(s[0].Data.data, dtype=float).ravel() for s in sols if s is not None])
    mk = np.concatenate([masks(b).ravel() for b, k in zip(c["bands"], comp) if k])
    x, cond = solve(np.concatenate(big, axis=1), C, d, mk)
    if cond > 1e6:
        return t.trivial()
    sc = np.abs(x).max()
    logL, param = im.likelihood_data_given_model(**copy.deepcopy(par), source_marg=False)
    t.close(np.array(param), x, "joint amplitudes (likelihood)", 1e-5, 1e-6 * sc)
    e = 0.0
    mods = []
    for i, s in enumerate(sols):
        if s is None:
            continue
        mk = masks(c["bands"][i])
        mod = np.tensordot(x, s[1], 1) * mk
        mods.append(mod)
        e += s[0].Data.log_likelihood(mod, mk, var[i][1])
    t.close(logL, e, "joint likelihood", 1e-6, 1e-6)
    wls, errs, cov, param2 = im.image_linear_solve(inv_bool=True, **copy.deepcopy(par))
    t.close(np.array(param2), x, "joint amplitudes", 1e-5, 1e-6 * sc)
    wls = [k for k in wls if k is not None]
    t.equal(len(wls), len(mods), "number of computed models")
    for a, b in zip(wls, mods):
        t.close(a, b, "model of a joint band", 1e-5, 1e-6 * np.abs(b).max())
    t.equal(np.array(cov).shape, (len(x), len(x)), "shape of the covariance")
    t.equal(im.num_param_linear(par["kwargs_lens"], par["kwargs_source"], par["kwargs_lens_light"], par["kwargs_ps"]), len(x), "number of joint linear parameters")
    for i in range(w.n):
        up = im.update_linear_kwargs(param, i, *[copy.deepcopy(par[k]) for k in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps")])
        t.close(amps(dict(kwargs_source=up[1], kwargs_lens_light=up[2], kwargs_ps=up[3])), x, "joint amplitudes written to the parameters", 1e-5, 1e-6 * sc)
    # positive flux check is on the solved amplitudes
    l2, _ = im.likelihood_data_given_model(**copy.deepcopy(par), source_marg=False, check_positive_flux=True)
    neg = bool(np.any(np.delete(x, 2) < 0))  # the interpolated image may be negative
    if np.all(np.abs(x) > 1e-4 * sc):
        t.close(l2, e - (1e5 if neg else 0), "joint likelihood with the positivity check", 1e-6, 1e-5)
        t.label("negative" if neg else "positive")
    t.label("bands %d computed %d" % (w.n, sum(comp)))
    t.nontrivial(w.n > 1)


@PROP.facet("reconstruction", lambda: case_strategy(), quick=24, thorough=400)
def reconstruction(case, t):
    from lenstronomy.Analysis.image_reconstruction import MultiBandImageReconstruction

    joint = case["marg"]
    c = _mk_joint(case) if joint else case
    w = W(c)
    comp = c["compute"][: w.n]
    if not any(comp):
        comp[-1] = True
    par = w.params()
    pre = copy.deepcopy(par)
    mb = w.multi_band_list()
    kl = dict(image_likelihood_mask_list=w.mask_list(), bands_compute=list(comp))
    keep = copy.deepcopy((mb, kl))
    sols = [w.columns(i) if comp[i] else None for i in range(w.n)]
    var = [w.variance(i, s[0]) if s is not None else None for i, s in enumerate(sols)]
    xs = {}
    if joint:
        big = np.concatenate([s[1].reshape(len(s[1]), -1) for s in sols if s is not None], axis=1)
        C = np.concatenate([v[0].ravel() for v in var if v is not None])
        d = np.concatenate([np.array(s[0].Data.data, dtype=float).ravel() for s in sols if s is not None])
        mk = np.concatenate([masks(b).ravel() for b, k in zip(c["bands"], comp) if k])
        x, cond = solve(big, C, d, mk)
        xs = {i: x for i in range(w.n) if comp[i]}
        if cond > 1e6:
            return t.trivial()
    else:
        for i in range(w.n):
            if comp[i]:
                x, cond = solve(sols[i][1].reshape(len(sols[i][1]), -1), var[i][0].ravel(), np.array(sols[i][0].Data.data, dtype=float).ravel(), masks(c["bands"][i]).ravel())
                if cond > 1e6:
                    return t.trivial()
                xs[i] = x
    with redirect_stdout(io.StringIO()):
        rec = MultiBandImageReconstruction(mb, copy.deepcopy(w.kwargs_model), par, multi_band_type="joint-linear" if joint else "multi-linear", kwargs_likelihood=kl, verbose=c["ps"])
    t.unchanged({k: v for k, v in par.items() if k not in ("kwargs_source", "kwargs_lens_light", "kwargs_ps")}, {k: v for k, v in pre.items() if k not in ("kwargs_source", "kwargs_lens_light", "kwargs_ps")}, "parameters without linear amplitudes")
    t.unchanged((mb, kl), keep, "bands and likelihood settings")
    t.equal(len(rec.model_band_list), w.n, "number of bands")
    for i in range(w.n):
        if not comp[i]:
            t.true(rec.model_band_list[i] is None, "no reconstruction of bands that are not computed")
            continue
        b = c["bands"][i]
        band = rec.model_band_list[i]
        x = xs[i]
        mk = masks(b)
        mod = np.tensordot(x, sols[i][1], 1)
        top = np.abs(mod).max()
        t.close(band.model, mod * mk, "model of band %d" % i, 1e-5, 1e-6 * top)
        data = np.array(sols[i][0].Data.data)
        m = sols[i][0]
        res = (data - mod) / np.sqrt(m.Data.C_D_model(mod * mk) + var[i][1]) * mk
        t.close(band.norm_residuals, res, "normalised residuals of band %d" % i, 1e-5, 1e-5 * np.abs(res).max())
        t.close(band.reduced_x2, np.sum(res**2) / mk.sum(), "reduced chi2 of band %d" % i, 1e-4)
        im, kwm = rec.band_setup(i)
        t.close(amps(kwm), x, "amplitudes of band %d" % i, 1e-5, 1e-6 * np.abs(x).max())
        from lenstronomy.ImSim.image_model import ImageModel

        again = ImageModel.image(im, **copy.deepcopy(kwm))
        t.close(again, mod, "image drawn with the reconstructed parameters of band %d" % i, 1e-5, 1e-6 * top)
        if c["ps"]:
            got = band.point_source_residuals(0.35)
            il, is_, ill, ip = w.pick(i)
            pos = [(rx, ry) for k in ip for rx, ry in zip(pre["kwargs_ps"][k]["ra_image"], pre["kwargs_ps"][k]["dec_image"])]
            X, Y = m.Data.pixel_coordinates
            ref = [np.sum((data - mod * mk)[np.hypot(X - a, Y - bb) < 0.35]) for a, bb in pos]
            edge = min(np.abs(np.hypot(X - a, Y - bb) - 0.35).min() for a, bb in pos)
            if edge > 1e-6:
                t.close(got, np.array(ref), "point source residuals of band %d" % i, 1e-4, 1e-5 * top)
    t.label("%s bands %d" % ("joint" if joint else "multi", w.n))
    t.nontrivial(w.n > 1)


@PROP.facet("patches", lambda: st.fixed_dictionaries(dict(N=st.integers(24, 34), pix=g.uni(0.1, 0.2), ang=st.sampled_from([0.0, 0.7, -1.2]), flip=st.booleans(), patches=st.lists(st.tuples(st.integers(0, 16), st.integers(0, 16), st.integers(5, 8), st.integers(5, 8)), min_size=1, max_size=4),
                                                         seed=st.integers(0, 10**6), x0=g.uni(-0.3, 0.3), y0=g.uni(-0.3, 0.3), num=st.integers(4, 9), dp=g.uni(0.02, 0.1), cen=st.booleans())), quick=60, thorough=1200)
def patches(case, t):
    from lenstronomy.Analysis.multi_patch_reconstruction import MultiPatchReconstruction
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel

    c = case
    N = c["N"]
    cc, s = np.cos(c["ang"]), np.sin(c["ang"])
    M = c["pix"] * np.array([[cc, -s], [s, cc]]) @ np.diag([-1.0 if c["flip"] else 1.0, 1.0])
    o = np.array([c["x0"], c["y0"]]) - M @ np.array([(N - 1) / 2, (N - 1) / 2])
    r = np.random.default_rng(c["seed"])
    full = r.normal(0, 1, (N, N))
    mb = []
    used = np.zeros((N, N), dtype=bool)
    for x, y, nx, ny in c["patches"]:
        a = o + M @ np.array([x, y])
        mb.append([dict(image_data=full[y : y + ny, x : x + nx], transform_pix2angle=M, ra_at_xy_0=a[0], dec_at_xy_0=a[1], noise_map=0.3 * np.ones((ny, nx))), dict(psf_type="NONE"), {}])
        used[y : y + ny, x : x + nx] = True
    kwargs_model = dict(lens_model_list=["SIE"], source_light_model_list=["SERSIC"])
    kl = [dict(theta_E=0.7, e1=0.1, e2=-0.05, center_x=0.0, center_y=0.0)]
    ks = [dict(amp=1.0, R_sersic=0.4, n_sersic=1.0, center_x=0.05, center_y=0.1)]
    par = dict(kwargs_lens=kl, kwargs_source=copy.deepcopy(ks))
    with redirect_stdout(io.StringIO()):
        rec = MultiPatchReconstruction(mb, kwargs_model, par, verbose=False)
    grid = rec.pixel_grid_joint
    xs = [p[0] for p in c["patches"]]
    ys = [p[1] for p in c["patches"]]
    lo = (min(xs), min(ys))
    hi = (max(p[0] + p[2] for p in c["patches"]), max(p[1] + p[3] for p in c["patches"]))
    nx, ny = grid.num_pixel_axes
    t.equal((int(nx), int(ny)), (hi[0] - lo[0], hi[1] - lo[1]), "size of the joint frame")
    t.close(np.array(grid.radec_at_xy_0), o + M @ np.array(lo), "corner of the joint frame", 1e-8, 1e-8)
    sub = (slice(lo[1], hi[1]), slice(lo[0], hi[0]))
    data, model, norm = rec.image_joint()
    u = used[sub]
    t.close(np.array(data), np.where(u, full[sub], 0.0), "joint image", 1e-10, 1e-10)
    X, Y = grid.pixel_coordinates
    lm = LensModel(["SIE"])
    bx, by = lm.ray_shooting(X.ravel(), Y.ravel(), kl)
    sb = LightModel(["SERSIC"]).surface_brightness(bx, by, ks).reshape(X.shape) * c["pix"] ** 2
    # joint amplitude; overlapping patches count as often as they occur
    num = den = 0.0
    for x, y, mx, my in c["patches"]:
        q = sb[y - lo[1] : y - lo[1] + my, x - lo[0] : x - lo[0] + mx]
        num += np.sum(q * full[y : y + my, x : x + mx])
        den += np.sum(q * q)
    a = num / den
    t.close(np.array(model), np.where(u, a * sb, 0.0), "joint model", 1e-6, 1e-8 * np.abs(a * sb).max())
    t.close(np.array(norm), np.where(u, (full[sub] - a * sb) / 0.3, 0.0), "joint residuals", 1e-6, 1e-6)
    kap, mag, ax, ay = rec.lens_model_joint()
    t.close(np.array(kap), np.where(u, lm.kappa(X, Y, kl), 0.0), "joint convergence", 1e-4, 1e-6)
    al = lm.alpha(X, Y, kl)
    t.close(np.array(ax), np.where(u, al[0], 0.0), "joint deflection x", 1e-6, 1e-9)
    t.close(np.array(ay), np.where(u, al[1], 0.0), "joint deflection y", 1e-6, 1e-9)
    inv = lambda z: np.where(z == 0, 0.0, 1 / np.where(z == 0, 1, z))
    t.close(inv(np.array(mag)), np.where(u, inv(lm.magnification(X, Y, kl)), 0.0), "joint inverse magnification", 1e-4, 1e-5)
    cen = (0.2, -0.1) if c["cen"] else None
    src, pg = rec.source(c["num"], c["dp"], center=cen)
    sx, sy = pg.pixel_coordinates
    ctr = cen or (0.05, 0.1)
    t.close([np.mean(sx), np.mean(sy)], ctr, "centre of the source grid", 1e-8, 1e-9)
    t.close(pg.pixel_width, c["dp"], "pixel size of the source grid", 1e-8)
    k2 = [dict(ks[0], amp=a)]
    ref = LightModel(["SERSIC"]).surface_brightness(sx.ravel(), sy.ravel(), k2).reshape(sx.shape) * c["dp"] ** 2
    t.close(np.array(src), ref, "source reconstruction", 1e-6, 1e-9 * abs(a))
    t.label("patches %d" % len(c["patches"]))
    t.nontrivial(len(c["patches"]) > 1)


@PROP.facet("selection", lambda: st.fixed_dictionaries(dict(il=sel(3), is_=sel(3), ill=sel(2), iod=sel(2), allm=st.booleans(), multi=st.booleans(), obs=st.one_of(st.none(), sel(3)), none=st.booleans(), band=st.integers(0, 1), zs=st.permutations([0.3, 0.5, 0.9]), sm=g.uni(0.05, 0.3), x=g.uni(-1.5, 1.5), y=g.uni(-1.5, 1.5))), quick=60, thorough=1200)
def selection(case, t):
    """components, redshifts and profile settings selected for a band"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Util.class_creator import create_class_instances

    c = case
    names = ["SERSIC", "NFW_MC", "SERSIC"]
    pk = [{"smoothing": c["sm"]}, None if c["none"] else {}, None]
    lnames = ["SERSIC", "SHAPELETS_POLAR_EXP", "SERSIC"]
    lpk = [{"smoothing": c["sm"]}, None if c["none"] else {}, {}]
    other = [[0], [1]][c["band"]]
    put = lambda a: [a, other] if c["band"] == 0 else [other, a]
    zl = list(c["zs"]) if c["multi"] else [0.5, 0.5, 0.5]
    kw = dict(lens_model_list=names, lens_profile_kwargs_list=pk, lens_redshift_list=zl, z_lens=0.5, z_source=2.0, z_source_convention=2.0, multi_plane=c["multi"], source_light_model_list=lnames, source_light_profile_kwargs_list=lpk,
              source_redshift_list=[1.0, 1.5, 2.0] if c["multi"] else None, source_deflection_scaling_list=None if c["multi"] else [1.0, 0.7, 0.4],
              lens_light_model_list=lnames[:2], lens_light_profile_kwargs_list=lpk[:2], index_lens_model_list=put(c["il"]), index_source_light_model_list=put(c["is_"]), index_lens_light_model_list=put(c["ill"]),
              optical_depth_model_list=["SERSIC", "SERSIC"], optical_depth_profile_kwargs_list=[{"smoothing": c["sm"]}, {}], index_optical_depth_model_list=put(c["iod"]), band_index=c["band"], all_models=c["allm"])
    if c["multi"] and c["obs"] is not None:
        kw["observed_convention_index"] = list(c["obs"])
    keep = copy.deepcopy(kw)
    lm, sm, llm, ps, ext = create_class_instances(**kw)
    t.unchanged({k: v for k, v in kw.items()}, keep, "the model settings")
    il, is_, ill = (([0, 1, 2], [0, 1, 2], [0, 1]) if c["allm"] else (c["il"], c["is_"], c["ill"]))
    KL = [dict(k_eff=0.8, R_sersic=0.7, n_sersic=2.0, center_x=0.1, center_y=0.0), dict(logM=12.5, concentration=5.0, center_x=-0.2, center_y=0.1), dict(k_eff=0.5, R_sersic=0.4, n_sersic=4.0, center_x=0.0, center_y=0.3)]
    KS = [dict(amp=1.0, R_sersic=0.7, n_sersic=2.0, center_x=0.1, center_y=0.0), dict(amp=[1.0, 0.5, 0.2, 0.1], n_max=1, beta=0.5, center_x=0.0, center_y=0.1), dict(amp=2.0, R_sersic=0.4, n_sersic=4.0, center_x=0.0, center_y=0.3)]
    t.equal(list(lm.lens_model_list), [names[k] for k in il], "selected lens models")
    extra = dict(observed_convention_index=[j for j, k in enumerate(il) if k in c["obs"]]) if c["multi"] and c["obs"] is not None else {}
    ref = LensModel([names[k] for k in il], **extra, z_lens=0.5, z_source=2.0, z_source_convention=2.0, lens_redshift_list=[zl[k] for k in il], multi_plane=c["multi"], profile_kwargs_list=[copy.deepcopy(pk[k]) for k in il])
    x, y = np.array([c["x"], 0.12, 0.01]), np.array([c["y"], 0.02, 0.29])
    kl = [KL[k] for k in il]
    t.close(np.array(lm.ray_shooting(x, y, kl)), np.array(ref.ray_shooting(x, y, kl)), "deflection of the selected lenses", 1e-9, 1e-10)
    t.close(np.array(lm.hessian(x, y, kl)), np.array(ref.hessian(x, y, kl)), "Hessian of the selected lenses", 1e-7, 1e-7)
    for got, idx, what in ((sm, is_, "sources"), (llm, ill, "lens light")):
        r = LightModel([lnames[k] for k in idx], profile_kwargs_list=[copy.deepcopy(lpk[k]) for k in idx])
        t.close(got.surface_brightness(x, y, [KS[k] for k in idx]), r.surface_brightness(x, y, [KS[k] for k in idx]), "surface brightness of the selected " + what, 1e-9)
        # smoothing really is the one declared: core of the profile
        if 0 in idx:
            d = np.array([0.0, 0.5, 0.99]) * c["sm"]
            j = idx.index(0)
            v = got.surface_brightness(0.1 + d, 0 * d, [KS[k] for k in idx], k=j)
            t.close(v / v[0], np.ones(3), "smoothed core of the declared profile", 1e-6)
    kwx = [dict(amp=1.0, R_sersic=0.7, n_sersic=2.0, center_x=0.1, center_y=0.0), dict(amp=2.0, R_sersic=0.4, n_sersic=4.0, center_x=0.0, center_y=0.3)]
    tau = LightModel(["SERSIC"] * len(c["iod"]), profile_kwargs_list=[[{"smoothing": c["sm"]}, {}][k] for k in c["iod"]]).surface_brightness(x, y, [kwx[k] for k in c["iod"]])
    t.close(ext.extinction(x, y, kwargs_extinction=[kwx[k] for k in c["iod"]], kwargs_special={"tau0_list": [0.3]}), np.exp(-0.3 * tau), "extinction of the selected optical depths", 1e-9)
    t.label("all" if c["allm"] else "%d lenses" % len(il))
    t.nontrivial(not c["allm"])


@PROP.facet("vary_background", lambda: case_strategy(), quick=16, thorough=300)
def vary_background(case, t):
    from lenstronomy.ImSim.MultiBand.joint_linear_vary_background import JointLinear_VaryBG

    c = _mk_joint(case)
    w = W(c)
    im = JointLinear_VaryBG(w.multi_band_list(), copy.deepcopy(w.kwargs_model), likelihood_mask_list=w.mask_list())
    par = w.params()
    sols = [w.columns(i) for i in range(w.n)]
    big = []
    for i, s in enumerate(sols):
        a = s[1].reshape(len(s[1]), -1)
        bg = np.zeros((w.n, a.shape[1]))
        bg[i] = 1
        big.append(np.concatenate([a, bg]))
    var = [w.variance(i, s[0]) for i, s in enumerate(sols)]
    x, cond = solve(np.concatenate(big, axis=1), np.concatenate([v[0].ravel() for v in var]), np.concatenate([np.array(s[0].Data.data, dtype=float).ravel() for s in sols]), np.concatenate([masks(b).ravel() for b in c["bands"]]))
    if cond > 1e6:
        return t.trivial()
    logL, p = im.likelihood_data_given_model(**copy.deepcopy(par))
    sc = np.abs(x).max()
    t.close(np.array(p), x, "amplitudes and backgrounds", 1e-5, 1e-6 * sc)
    e = sum(s[0].Data.log_likelihood((np.tensordot(x[: -w.n], s[1], 1) + x[len(x) - w.n + i]) * masks(c["bands"][i]), masks(c["bands"][i]), var[i][1]) for i, s in enumerate(sols))
    t.close(logL, e, "joint likelihood with backgrounds", 1e-6, 1e-6)
    t.nontrivial(w.n > 1)
