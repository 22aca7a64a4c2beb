"""C29: iterative PSF reconstruction."""

import copy
import io
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C29",
    title="Iterative PSF reconstruction keeps a valid kernel that fits best",
    statement=(
        "Updating the PSF from the point sources of an image returns a kernel of the input's size that is finite, non-negative and normalised, never gives a lower likelihood than the input kernel, has the declared rotational symmetry when "
        "nothing of the old kernel is kept, and is a fixed point when the residuals vanish; the old and new kernels are mixed by the declared factor, blocked neighbourhoods of other images do not contribute, "
        "the variance map lies between 0 and 1 within the declared radius or is the input one, and the initial kernel and all inputs are kept unchanged. In a fitting sequence only the selected bands change."
    ),
    over=("inputs", "histories"),
    quant="true and guessed kernels, supersampling, positions and amplitudes of images, noise, masks, symmetries, stacking, mixing factors, old and new procedure, repeated iterations, bands",
    why="tests run one quad with one kernel and compare the likelihood once; invariants under mixing, blocking, symmetry and repetition are not sampled",
    files=["lenstronomy/Workflow/psf_fitting.py", "lenstronomy/Workflow/fitting_sequence.py", "lenstronomy/Util/kernel_util.py", "lenstronomy/Util/image_util.py", "lenstronomy/Util/mask_util.py"],
    mechanism=["residual cut-outs around point sources, de-shifted and stacked", "best of all iterations is returned", "masks of neighbouring images", "variance map from the scatter of the estimates"],
    observe=["PsfFitting.update_iterative", "PsfFitting.update_psf", "PsfFitting.combine_psf", "PsfFitting.psf_estimate_individual", "PsfFitting.error_map_estimate_new", "FittingSequence.psf_iteration"],
    rule="non-trivial: the guessed kernel differs from the true one, or the relation compares two different settings",
    assumptions=["kernels with odd axes and non-negative entries; bright point sources"],
)


def blob(n, fwhm, asym, seed, ss=1):
    r = np.random.default_rng(seed)
    c = (n - 1) / 2
    y, x = np.mgrid[:n, :n] - c
    s = fwhm * ss / 2.355
    k = np.exp(-0.5 * ((x / s) ** 2 + (y / s / (1 + asym)) ** 2 + asym * x * y / s**2 * 0.5)) + 0.02 * np.exp(-np.hypot(x, y) / (3 * s)) * r.uniform(0.5, 1.5, (n, n))
    return k / k.sum()


KER = st.fixed_dictionaries(dict(n=st.sampled_from([5, 7, 9]), f0=g.uni(1.6, 3.0), f1=g.uni(1.6, 3.0), a0=g.uni(0.0, 0.4), a1=g.uni(0.0, 0.4), s0=st.integers(0, 10**6), s1=st.integers(0, 10**6)))
POS = st.lists(st.tuples(st.integers(0, 8), g.uni(-0.45, 0.45), g.uni(-0.45, 0.45), g.logf(20.0, 300.0)), min_size=1, max_size=4, unique_by=lambda t: t[0])
CASE = st.fixed_dictionaries(dict(ker=KER, pos=POS, ss=st.sampled_from([1, 1, 1, 2, 3]), centred=st.booleans(), noise=st.sampled_from([0.0, 0.01, 0.1]), rms=g.logf(0.01, 0.2), exp=st.sampled_from([None, 50.0]), seed=st.integers(0, 10**6), pix=g.uni(0.05, 0.2),
                                  mask=st.sampled_from([0, 0, 1]), light=st.booleans(), vmap=st.booleans(), light_off=g.uni(-0.3, 0.3)))


def opts(new=None):
    return st.fixed_dictionaries(dict(stacking_method=st.sampled_from(["median", "mean"]), psf_symmetry=st.sampled_from([1, 1, 2, 4, 3]), psf_iter_factor=st.sampled_from([0.2, 0.5, 1.0]), block_center_neighbour=st.sampled_from([0.0, 0.0, 0.3]),
                                      error_map_radius=st.sampled_from([None, 0.25]), new_procedure=st.just(new) if new is not None else st.sampled_from([True, True, False])))


class W:
    NPIX = 33

    def __init__(self, c):
        from lenstronomy.Data.imaging_data import ImageData
        from lenstronomy.Data.psf import PSF
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.PointSource.point_source import PointSource
        from lenstronomy.Util import util

        self.c = c
        n, k = self.NPIX, c["ker"]
        ss = c["ss"]
        kn = k["n"] * ss if (k["n"] * ss) % 2 else k["n"] * ss + 1
        self.k_true = blob(kn, k["f0"], k["a0"], k["s0"], ss)
        self.k_init = blob(kn, k["f1"], k["a1"], k["s1"], ss)
        pix = c["pix"]
        x0 = -(n - 1) / 2 * pix
        self.x, self.y, self.amp = [], [], []
        for i, dx, dy, a in c["pos"]:
            if c["centred"]:
                dx = dy = 0.0
            self.x.append(x0 + (6 + 10 * (i % 3) + dx) * pix)
            self.y.append(x0 + (6 + 10 * (i // 3) + dy) * pix)
            self.amp.append(a)
        self.x, self.y, self.amp = np.array(self.x), np.array(self.y), np.array(self.amp)
        self.kw_data = dict(image_data=np.zeros((n, n)), ra_at_xy_0=x0, dec_at_xy_0=x0, transform_pix2angle=pix * np.eye(2), background_rms=c["rms"])
        if c["exp"] is not None:
            self.kw_data["exposure_time"] = c["exp"]
        else:
            self.kw_data["noise_map"] = c["rms"] * np.ones((n, n))
        self.mask = np.ones((n, n))
        if c["mask"]:
            self.mask[np.random.default_rng(c["seed"] + 3).uniform(size=(n, n)) < 0.03] = 0
        self.ll = ["SERSIC"] if c["light"] else []
        self.kw_ll = [dict(amp=3.0, R_sersic=0.5, n_sersic=1.0, center_x=c["light_off"], center_y=0.1)] if c["light"] else []
        self.kwargs_numerics = dict(supersampling_factor=1)
        im = self.model(self.psf(self.k_true, vm=False))
        img = im.image(**self.params())
        img = img + c["noise"] * np.random.default_rng(c["seed"]).normal(size=img.shape)
        self.kw_data["image_data"] = img

    def psf(self, kernel, vm=None):
        kw = dict(psf_type="PIXEL", kernel_point_source=np.array(kernel), point_source_supersampling_factor=self.c["ss"])
        if self.c["vmap"] if vm is None else vm:
            from lenstronomy.Data.psf import PSF

            n = len(PSF(**kw).kernel_point_source)
            kw["psf_variance_map"] = 0.003 * np.random.default_rng(self.c["seed"] + 9).uniform(0.5, 1, (n, n))
        return kw

    def params(self):
        return dict(kwargs_lens=[], kwargs_source=[], kwargs_lens_light=copy.deepcopy(self.kw_ll), kwargs_ps=[dict(ra_image=self.x.copy(), dec_image=self.y.copy(), point_amp=self.amp.copy())])

    def model(self, kw_psf):
        from lenstronomy.Data.imaging_data import ImageData
        from lenstronomy.Data.psf import PSF
        from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
        from lenstronomy.LensModel.lens_model import LensModel
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.PointSource.point_source import PointSource

        return ImageLinearFit(ImageData(**self.kw_data), PSF(**kw_psf), LensModel([]), LightModel([]), LightModel(self.ll), PointSource(["UNLENSED"]), kwargs_numerics=dict(self.kwargs_numerics), likelihood_mask=self.mask)

    def logL(self, kw_psf):
        kw = {k: v for k, v in kw_psf.items() if k != "kernel_point_source_init"}
        p = self.params()
        return self.model(kw).likelihood_data_given_model(**p)[0]


def with_neighbour(w, r):
    """positions and amplitudes of the images and of one more close to the first one"""
    d, phi = r.uniform(1.5, 5.0) * w.c["pix"], r.uniform(0, 2 * np.pi)
    return np.append(w.x, w.x[0] + d * np.cos(phi)), np.append(w.y, w.y[0] + d * np.sin(phi)), np.append(w.amp, r.uniform(20.0, 300.0))


def valid_kernel(t, k, like, what, tol=1e-8, positive=True):
    k = np.asarray(k)
    t.true(k.shape == np.shape(like), f"{what} has shape {k.shape}, the input kernel {np.shape(like)}")
    t.finite(k, what)
    t.true(not positive or k.min() >= -1e-12, f"{what} has negative values ({k.min():.3g})")
    t.close(k.sum(), 1.0, f"sum of {what}", rtol=tol)


@PROP.facet("iterate", lambda: st.fixed_dictionaries(dict(c=CASE, o=opts(), n=st.integers(1, 3), keep=st.booleans(), no_break=st.booleans(), again=st.booleans())), quick=240, thorough=6000, shards=16)
def iterate(case, t):
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    c, o = case["c"], dict(case["o"])
    w = W(c)
    # the interpolation of the old procedure on to a finer grid may overshoot below zero
    pos = o["new_procedure"] or c["ss"] == 1
    kw = w.psf(w.k_init)
    before = copy.deepcopy(kw)
    p = w.params()
    p0 = copy.deepcopy(p)
    data0 = w.kw_data["image_data"].copy()
    with redirect_stdout(io.StringIO()):
        out = PsfFitting(w.model(kw)).update_iterative(kw, p, num_iter=case["n"], keep_psf_variance_map=case["keep"], no_break=case["no_break"], verbose=False, **o)
    t.unchanged(before, kw, "the PSF settings passed in")
    t.unchanged(p0, p, "the model parameters passed in")
    t.unchanged(data0, w.kw_data["image_data"], "the data")
    valid_kernel(t, out["kernel_point_source"], w.k_init, "the reconstructed kernel", positive=pos)
    t.close(out["kernel_point_source_init"], w.k_init, "the initial kernel kept in the result", rtol=1e-12)
    t.equal(out["point_source_supersampling_factor"], c["ss"], "supersampling factor of the result")
    vm = np.asarray(out["psf_variance_map"])
    if case["keep"]:
        t.close(vm, before.get("psf_variance_map", np.zeros_like(vm)), "variance map that was to be kept", rtol=1e-12, atol=1e-15)
        l0, l1 = w.logL(before), w.logL(out)
        t.true(l1 >= l0 - 1e-8 * abs(l0) - 1e-8, f"the likelihood fell from {l0} to {l1}")
        if case["n"] > 1:
            # the result of more iterations is the best of them, so never worse than the result of fewer
            with redirect_stdout(io.StringIO()):
                few = PsfFitting(w.model(kw)).update_iterative(kw, p, num_iter=case["n"] - 1, keep_psf_variance_map=True, no_break=case["no_break"], verbose=False, **o)
            lf = w.logL(few)
            t.true(l1 >= lf - 1e-8 * abs(lf) - 1e-8, f"{case['n']} iterations end at likelihood {l1}, {case['n'] - 1} at {lf}")
        t.label("improved" if l1 > l0 + 1e-6 * abs(l0) else "kept")
    else:
        t.true(np.all((vm >= 0) & (vm <= 1)), f"variance map outside [0, 1]: {vm.min()}..{vm.max()}")
    if case["again"]:
        with redirect_stdout(io.StringIO()):
            out2 = PsfFitting(w.model({k: v for k, v in out.items() if k != "kernel_point_source_init"})).update_iterative(out, p, num_iter=1, keep_psf_variance_map=True, verbose=False, **o)
        t.close(out2["kernel_point_source_init"], w.k_init, "initial kernel after a second iteration", rtol=1e-12)
        t.close(out2["psf_variance_map"], vm, "variance map kept in a second iteration", rtol=1e-12, atol=1e-15)
        valid_kernel(t, out2["kernel_point_source"], w.k_init, "the kernel of the second iteration", positive=pos)
        if case["keep"]:
            t.true(w.logL(out2) >= w.logL(out) - 1e-8 * abs(w.logL(out)) - 1e-8, "second iteration lowered the likelihood")
    t.label(f"ss{c['ss']}")
    t.nontrivial(True)


@PROP.facet("fixed-point", lambda: st.fixed_dictionaries(dict(c=CASE, o=opts(True))), quick=160, thorough=4000, shards=16)
def fixed_point(case, t):
    """data without noise made with the current kernel: the update changes nothing, the variance map is zero"""
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    c = dict(case["c"], noise=0.0, vmap=False)
    o = dict(case["o"], psf_symmetry=1)
    w = W(c)
    kw = w.psf(w.k_true)
    new, logL, err = PsfFitting(w.model(kw)).update_psf(kw, w.params(), **o)
    t.close(new["kernel_point_source"], w.k_true, "kernel after an update without residuals", rtol=1e-6, atol=1e-7 * w.k_true.max())
    t.close(err, np.zeros_like(err), "variance map without residuals", atol=1e-10)
    t.close(logL, w.logL(kw), "likelihood returned by the update", rtol=1e-9, atol=1e-6)
    t.nontrivial(True)


@PROP.facet("converge", lambda: st.fixed_dictionaries(dict(c=CASE, o=opts(True))), quick=120, thorough=3000, shards=16)
def converge(case, t):
    """isolated images on pixel centres and no noise: the estimate approaches the true kernel"""
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    c = dict(case["c"], noise=0.0, vmap=False, ss=1, centred=True, mask=0, light=False)
    o = dict(case["o"], psf_symmetry=1, psf_iter_factor=1.0, block_center_neighbour=0.0)
    w = W(c)
    kw = w.psf(w.k_init)
    f = PsfFitting(w.model(kw))
    d = [np.abs(w.k_init - w.k_true).sum()]
    for _ in range(12):
        kw, logL, err = f.update_psf(kw, w.params(), **o)
        d.append(np.abs(kw["kernel_point_source"] - w.k_true).sum())
    if d[0] < 0.15:
        t.trivial()
        return
    t.true(d[-1] < 0.9 * d[0], f"distance from the true kernel does not fall: {d}")
    t.nontrivial(True)


@PROP.facet("mixing", lambda: st.fixed_dictionaries(dict(ker=KER, n=st.integers(1, 4), seed=st.integers(0, 10**6), f=g.uni(0.05, 1.0), stack=st.sampled_from(["median", "mean"]), sym=st.sampled_from([1, 2, 4]), scale=g.logf(0.5, 3.0))), quick=500, thorough=20000, shards=8)
def mixing(case, t):
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    k, r = case["ker"], np.random.default_rng(case["seed"])
    old = blob(k["n"], k["f0"], k["a0"], k["s0"])
    base = blob(k["n"], k["f1"], k["a1"], k["s1"])
    news = [base * r.uniform(0.8, 1.2, base.shape) - 0.0005 * r.uniform(size=base.shape) for _ in range(case["n"])]
    copies = copy.deepcopy((news, old))
    kw = dict(stacking_option=case["stack"], symmetry=case["sym"])
    one = PsfFitting.combine_psf(news, old, factor=1.0, **kw)
    mix = PsfFitting.combine_psf(news, old * case["scale"], factor=case["f"], **kw)
    t.unchanged(copies, (news, old), "kernels passed in")
    valid_kernel(t, one, old, "the combined kernel")
    t.close(mix, case["f"] * one + (1 - case["f"]) * old, "mixture of old and new kernel", rtol=1e-9, atol=1e-12)
    # independent stack
    st_ = []
    for q in news:
        q = q / q.sum()
        st_ += [np.rot90(q, i * 4 // case["sym"]) for i in range(case["sym"])]
    ref = np.median(st_, axis=0) if case["stack"] == "median" else np.mean(st_, axis=0)
    ref = np.maximum(ref, 0)
    t.close(one, ref / ref.sum(), "stack of the rotated estimates", rtol=1e-6, atol=1e-9)
    if case["sym"] > 1:
        t.close(one, np.rot90(one, 4 // case["sym"]), "symmetry of the combined kernel", rtol=1e-6, atol=1e-9)
    t.nontrivial(case["f"] < 0.99 or case["sym"] > 1)


@PROP.facet("corners", lambda: st.fixed_dictionaries(dict(ker=KER, n=st.integers(1, 3), seed=st.integers(0, 10**6), stack=st.sampled_from(["median", "mean"]), sym=st.sampled_from([3, 5, 6]), cs=st.sampled_from([1, 2, 4]))), quick=200, thorough=8000, shards=8)
def corners(case, t):
    """where an odd symmetry leaves no information, the estimate of the declared corner symmetry is used"""
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    k, r = case["ker"], np.random.default_rng(case["seed"])
    old = blob(k["n"], k["f0"], k["a0"], k["s0"])
    news = [blob(k["n"], k["f1"], k["a1"], k["s1"]) * r.uniform(0.8, 1.2, old.shape) for _ in range(case["n"])]
    m = PsfFitting.calc_cornermask(k["n"], case["sym"])
    kw = dict(stacking_option=case["stack"], factor=1.0)
    res = PsfFitting.combine_psf(news, old, symmetry=case["sym"], corner_symmetry=case["cs"], corner_mask=m, **kw)
    a = PsfFitting.combine_psf(news, old, symmetry=case["sym"], **kw)
    b = PsfFitting.combine_psf(news, old, symmetry=case["cs"], **kw)
    valid_kernel(t, res, old, "kernel with corners")
    if m.all() or not m.any():
        t.trivial()
        return
    # constant ratio on either side of the mask (overall normalisation differs)
    for x, y, w_, nm in ((a[~m], res[~m], True, "centre"), (b[m], res[m], False, "corners")):
        t.close(y * x.sum(), x * y.sum(), f"shape of the {nm}", rtol=1e-6, atol=1e-9)
    t.nontrivial(True)


@PROP.facet("estimates", lambda: st.fixed_dictionaries(dict(c=CASE, o=opts(True), rad=g.uni(0.5, 4.0), k=st.integers(0, 3), s2=st.integers(0, 10**6))), quick=200, thorough=6000, shards=16)
def estimates(case, t):
    """estimates from single images: linear in the residuals, blind to blocked or masked pixels; masks of neighbours"""
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    c = dict(case["c"], vmap=False)
    w = W(c)
    kw = w.psf(w.k_init)
    im = w.model(kw)
    f = PsfFitting(im)
    pix = c["pix"]
    radius = case["rad"] * pix
    r = np.random.default_rng(case["s2"])
    n = W.NPIX
    yy, xx = np.mgrid[:n, :n]
    gx, gy = w.kw_data["ra_at_xy_0"] + xx * pix, w.kw_data["dec_at_xy_0"] + yy * pix
    X, Y, A = with_neighbour(w, r)
    disk = [np.hypot(gx - a, gy - b) <= radius for a, b in zip(X, Y)]
    edge = min(np.abs(np.hypot(gx - a, gy - b) - radius).min() for a, b in zip(X, Y))
    i = case["k"] % len(X)
    ref = np.ones((n, n))
    for j, dd in enumerate(disk):
        if j != i:
            ref[dd] = 0
    if edge > 1e-6:
        m = f.mask_point_source(X, Y, gx.flatten(), gy.flatten(), radius, i=i)
        t.close(m, ref, "mask around the other images", atol=1e-12)
    res = r.normal(size=(n, n))
    args = dict(cutout_size=len(im.PSF.kernel_point_source), kernel_guess=w.k_init, supersampling_factor=c["ss"])
    zero = f.psf_estimate_individual(X, Y, A, np.zeros((n, n)), block_center_neighbour=radius, **args)
    e1 = f.psf_estimate_individual(X, Y, A, res.copy(), block_center_neighbour=radius, **args)
    e2 = f.psf_estimate_individual(X, Y, 2 * A, 4 * res, block_center_neighbour=radius, **args)
    poked = res.copy()
    poked[w.mask == 0] += 5.0
    if edge > 1e-6:
        poked[ref == 0] += 3.0
    e3 = f.psf_estimate_individual(X, Y, A, poked, block_center_neighbour=radius, **args)
    t.equal(len(e1), len(X), "number of estimates")
    for j in range(len(X)):
        t.close(zero[j], w.k_init, "estimate without residuals", rtol=1e-10, atol=1e-12)
        t.close(e2[j] - w.k_init, 2 * (e1[j] - w.k_init), "correction scales with residual over amplitude", rtol=1e-8, atol=1e-10)
        t.close(np.sum(e1[j]), 1.0, "the correction carries no flux", rtol=1e-8)
    t.close(e3[i], e1[i], "estimate after changing blocked and masked pixels", rtol=1e-9, atol=1e-11)
    # cut-outs carry the pixels around the nearest pixel
    xp, yp = im.Data.map_coord2pix(w.x, w.y)
    size = c["ker"]["n"]
    cuts = f.point_like_source_cutouts(xp, yp, [res] * len(w.x), size)
    h = size // 2
    for j in range(len(w.x)):
        a, b = int(round(xp[j])), int(round(yp[j]))
        pad = np.pad(res, h)
        t.close(cuts[j], pad[b : b + size, a : a + size], "cut-out around an image", rtol=1e-12)
    # single-image maps: data minus everything but that image
    p = w.params()
    maps = f.image_single_point_source(im, p)
    p2 = w.params()
    wls = im.image_linear_solve(**p2)[0]
    t.equal(len(maps), len(w.x), "number of single-image maps")
    for j in range(len(maps)):
        q = [dict(ra_image=w.x[j : j + 1], dec_image=w.y[j : j + 1], point_amp=p2["kwargs_ps"][0]["point_amp"][j : j + 1])]
        only = im.point_source(q, [], unconvolved=False) if False else im.ImageNumerics.point_source_rendering(q[0]["ra_image"], q[0]["dec_image"], q[0]["point_amp"])
        t.close(maps[j], (w.kw_data["image_data"] - wls + only) * w.mask, "map of one image alone", rtol=1e-8, atol=1e-8)
    t.nontrivial(len(w.x) > 1)


@PROP.facet("variance-map", lambda: st.fixed_dictionaries(dict(c=CASE, sig=g.uni(0.05, 0.6), rad=st.sampled_from([None, 1.2, 2.3]), s2=st.integers(0, 10**6))), quick=200, thorough=6000, shards=16)
def variance_map(case, t):
    """scatter of the single estimates about the kernel beyond the noise, relative to the kernel"""
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    c = dict(case["c"], ss=1, vmap=False)
    w = W(c)
    im = w.model(w.psf(w.k_init))
    f = PsfFitting(im)
    r = np.random.default_rng(case["s2"])
    ks = [w.k_init * (1 + case["sig"] * r.normal(size=w.k_init.shape)) for _ in w.x]
    rad = None if case["rad"] is None else case["rad"] * c["pix"]
    out = f.error_map_estimate_new(w.k_init, ks, w.x, w.y, w.amp, 1, error_map_radius=rad)
    C = np.pad(im.Data.C_D, 10)
    xp, yp = im.Data.map_coord2pix(w.x, w.y)
    n = len(w.k_init)
    h = n // 2
    lst = []
    for j, k in enumerate(ks):
        a, b = int(round(xp[j])) + 10, int(round(yp[j])) + 10
        cc = C[b - h : b + h + 1, a - h : a + h + 1]
        lst.append(np.maximum(np.abs(k - w.k_init) - np.sqrt(cc) / w.amp[j], 0) ** 2)
    ref = np.minimum(np.median(lst, axis=0) / w.k_init**2, 1)
    yy, xx = np.mgrid[:n, :n] - h
    if rad is not None:
        ref = ref * (np.hypot(xx, yy) * c["pix"] <= rad)
    t.close(out, ref, "variance map", rtol=1e-7, atol=1e-10)
    t.nontrivial(np.any(ref > 0))


@PROP.facet("sequence", lambda: st.fixed_dictionaries(dict(c=CASE, c2=CASE, o=opts(True), comp=st.tuples(st.booleans(), st.booleans()), steps=st.integers(1, 2))), quick=80, thorough=2000, shards=16)
def sequence(case, t):
    """PSF iterations inside a fitting sequence with two bands"""
    from lenstronomy.Workflow.fitting_sequence import FittingSequence

    ws = [W(dict(case["c"], light=False, mask=0)), W(dict(case["c2"], light=False, mask=0, pos=case["c"]["pos"], centred=case["c"]["centred"], pix=case["c"]["pix"], seed=case["c2"]["seed"]))]
    mbl = [[w.kw_data, w.psf(w.k_init), dict(supersampling_factor=1)] for w in ws]
    mbl0 = copy.deepcopy(mbl)
    w = ws[0]
    n = len(w.x)
    fixed = [dict(ra_image=w.x, dec_image=w.y)]
    ps = [fixed, [dict(ra_image=0.01 * np.ones(n), dec_image=0.01 * np.ones(n))], [{}], [dict(ra_image=w.x - 1, dec_image=w.y - 1)], [dict(ra_image=w.x + 1, dec_image=w.y + 1)]]
    seq = FittingSequence(dict(multi_band_list=mbl, multi_band_type="multi-linear"), dict(point_source_model_list=["UNLENSED"]), dict(num_point_source_list=[n]), dict(), dict(point_source_model=ps))
    o = {k: v for k, v in case["o"].items()}
    comp = list(case["comp"])
    with redirect_stdout(io.StringIO()):
        for _ in range(case["steps"]):
            seq.psf_iteration(compute_bands=comp, num_iter=1, verbose=False, **o)
    cur = seq.multi_band_list
    for b in range(2):
        t.unchanged(mbl0[b][0], cur[b][0], f"data of band {b}")
        t.unchanged(mbl0[b][2], cur[b][2], f"numerics of band {b}")
        if not comp[b]:
            t.unchanged(mbl0[b][1], cur[b][1], f"PSF of band {b}, which was not selected")
        else:
            valid_kernel(t, cur[b][1]["kernel_point_source"], ws[b].k_init, f"kernel of band {b}")
            t.close(cur[b][1]["kernel_point_source_init"], ws[b].k_init, f"initial kernel of band {b}", rtol=1e-12)
            l0, l1 = ws[b].logL(mbl0[b][1]), ws[b].logL(cur[b][1])
            t.true(l1 >= l0 - 1e-8 * abs(l0) - 1e-8, f"likelihood of band {b} fell from {l0} to {l1}")
    mem = seq.psf_iteration_memory
    t.equal([(m["sequence"], m["band"]) for m in mem], [(s, b) for s in range(case["steps"]) for b in range(2) if comp[b]], "recorded iterations")
    last = {}
    for m in mem:
        t.unchanged(last.get(m["band"], mbl0[m["band"]][1]), m["psf_before"], "PSF recorded before an iteration")
        last[m["band"]] = copy.deepcopy(m["psf_after"])
    for b in last:
        t.unchanged(last[b], cur[b][1], "PSF recorded after the last iteration")
    t.nontrivial(any(comp))


@PROP.facet("cut-outs", lambda: st.fixed_dictionaries(dict(c=CASE, rad=g.uni(0.5, 4.0), k=st.integers(0, 3), hide=g.uni(0.0, 0.4), gain=g.logf(0.1, 100.0), s2=st.integers(0, 10**6))), quick=200, thorough=6000, shards=16)
def cutouts(case, t):
    """kernels cut out of the image and their error map: masked and blocked pixels take the old kernel and do not contribute"""
    from lenstronomy.Workflow.psf_fitting import PsfFitting

    c = dict(case["c"], ss=1, vmap=False, noise=0.0)
    w = W(c)
    im = w.model(w.psf(w.k_true))
    f = PsfFitting(im)
    r = np.random.default_rng(case["s2"])
    n, size, pix = W.NPIX, len(w.k_true), c["pix"]
    h = size // 2
    # one source at the centre of a pixel, seen with the kernel that is the guess; the centre is not hidden
    xi, yi = 6 + 10 * (case["k"] % 3), 16
    img = np.zeros((n, n))
    img[yi - h : yi + h + 1, xi - h : xi + h + 1] = case["gain"] * w.k_true
    mask = (r.uniform(size=(n, n)) >= case["hide"]).astype(float)
    mask[yi, xi] = 1
    bad = img + 7.0 * case["gain"] * (mask == 0)
    out = f.cutout_psf_single(xi, yi, bad.copy(), mask, size, w.k_true)
    t.close(out, w.k_true, "kernel cut out of an image with hidden pixels", rtol=1e-6, atol=1e-8)
    # off centre: hidden pixels do not matter and the result is a kernel
    xo, yo = xi + c["pos"][0][1], yi + c["pos"][0][2]
    noisy = np.abs(img + 0.01 * case["gain"] * r.normal(size=img.shape))
    a = f.cutout_psf_single(xo, yo, noisy.copy(), mask, size, w.k_init)
    b = f.cutout_psf_single(xo, yo, noisy + 3.0 * (mask == 0), mask, size, w.k_init)
    t.close(a, b, "cut-out kernel after changing hidden pixels", rtol=1e-8, atol=1e-10)
    t.close(a.sum(), 1.0, "sum of the cut-out kernel", rtol=1e-8)
    b = f.cutout_psf_single(xo, yo, 5.0 * noisy, mask, size, w.k_init)
    t.close(a, b, "cut-out kernel of a brighter source", rtol=1e-8, atol=1e-10)
    # error map of the cut-outs
    radius = case["rad"] * pix
    X, Y, A = with_neighbour(w, r)
    yy, xx = np.mgrid[:n, :n]
    gx, gy = w.kw_data["ra_at_xy_0"] + xx * pix, w.kw_data["dec_at_xy_0"] + yy * pix
    if min(np.abs(np.hypot(gx - p, gy - q) - radius).min() for p, q in zip(X, Y)) < 1e-6:
        t.label("edge")
        return
    xp, yp = im.Data.map_coord2pix(X, Y)
    res = r.normal(size=(n, n)) * 0.3 * A.max() * w.k_true.max()
    from scipy import ndimage

    stars, lst = [], []
    C = np.pad(im.Data.C_D, 10)
    for j in range(len(X)):
        p, q = int(round(xp[j])), int(round(yp[j]))
        ks = ndimage.shift(w.k_true, [yp[j] - q, xp[j] - p], order=1)
        cut = np.pad(res, 10)[q + 10 - h : q + 10 + h + 1, p + 10 - h : p + 10 + h + 1]
        stars.append(ks * A[j] + cut)
        m = w.mask.copy()
        for i in range(len(X)):
            if i != j:
                m[np.hypot(gx - X[i], gy - Y[i]) <= radius] = 0
        m = np.pad(m, 10)[q + 10 - h : q + 10 + h + 1, p + 10 - h : p + 10 + h + 1]
        cc = C[q + 10 - h : q + 10 + h + 1, p + 10 - h : p + 10 + h + 1]
        lst.append((np.maximum(np.abs(cut) - np.sqrt(cc), 0) / A[j]) ** 2 * m)
    ref = np.minimum(np.median(lst, axis=0) / w.k_true**2, 1)
    s0 = copy.deepcopy(stars)
    out = f.error_map_estimate(w.k_true, stars, A, xp, yp, block_center_neighbour=radius)
    t.unchanged(s0, stars, "the cut-outs passed in")
    t.close(out, ref, "error map of the cut-outs", rtol=1e-6, atol=1e-9)
    t.nontrivial(len(X) > 1)
