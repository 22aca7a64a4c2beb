"""C17: linear inversion of surface-brightness amplitudes."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property
from harness.props.c14 import make_kernel
from harness.props.c15 import conv
from harness.props.c16 import World, img_case

PROP = Property(
    "C17",
    title="Linear inversion returns the amplitudes that fit the data best",
    statement=(
        "ImageLinearFit finds, for any non-linear parameters, the linear amplitudes that minimise the noise-weighted residuals inside the likelihood mask; the returned model, covariance and "
        "the amplitudes written into the parameters describe that same solution, and ImageModel.image with them reproduces it. "
        "Noise-free data are recovered exactly, the number and order of linear parameters agree everywhere, and repeated solutions on one model do not depend on earlier ones."
    ),
    over=("inputs", "histories"),
    quant="source, lens-light and point-source combinations, frames, masks, PSFs with and without variance map, data, solution histories, interferometric beams",
    why="tests check reduced chi2 near one for one configuration and compare a few amplitudes; optimality and independence of history are never tested",
    files=["lenstronomy/ImSim/image_linear_solve.py", "lenstronomy/ImSim/de_lens.py", "lenstronomy/LightModel/light_model_base.py", "lenstronomy/PointSource/point_source.py"],
    mechanism=["ImageLinearFit.linear_response_matrix", "de_lens.get_param_WLS", "update_linear_kwargs", "marginalisation constants"],
    observe=["ImageLinearFit.image_linear_solve", "ImageLinearFit.likelihood_data_given_model", "ImageLinearFit.linear_param_from_kwargs", "de_lens.get_param_WLS"],
    rule="non-trivial: at least two linear parameters and a well-conditioned system",
    assumptions=["well-conditioned systems (condition number below 1e9); for singular systems only finiteness is required"],
)


def fit_model(w, src_pos=False):
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit

    m = w.model()
    return ImageLinearFit(m.Data, m.PSF, lens_model_class=m.LensModel, source_model_class=m.SourceModel, lens_light_model_class=m.LensLightModel, point_source_class=m.PointSource if w.c["ps"] is not None else None,
                          extinction_class=w.extinction(), kwargs_numerics=w.numerics(), likelihood_mask=w.masks()[0], image_index=w.c["idx"])


class Lin(World):
    def params(self, *a, **k):
        kw = super().params(*a, **k)
        return dict(kw, kwargs_ps=kw["kwargs_ps"] or [])

    def __init__(self, case):
        c = copy.deepcopy(case)
        for d in c["data"]:
            d["pb"] = False
        super().__init__(c)

    def numerics(self):
        return dict(supersampling_factor=self.c["f"], supersampling_convolution=self.c["sconv"], supersampling_kernel_size=None, flux_evaluate_indexes=self.masks()[1])

    def extinction(self):
        from lenstronomy.ImSim.differential_extinction import DifferentialExtinction

        return DifferentialExtinction(["UNIFORM", "GAUSSIAN"]) if self.c["ext"] else None


def unit_kwargs(kw, case):
    """One parameter set per linear amplitude, with that amplitude one and all others zero, in order."""
    base = copy.deepcopy(kw)
    n = []
    for grp in ("kwargs_source", "kwargs_lens_light"):
        for i, k in enumerate(base[grp]):
            if np.ndim(k["amp"]) > 0:
                n += [(grp, i, "amp", j) for j in range(len(k["amp"]))]
                k["amp"] = np.zeros(len(k["amp"]))
            else:
                n.append((grp, i, "amp", None))
                k["amp"] = 0.0
    if case["ps"] is not None:
        k = base["kwargs_ps"][0]
        if "source_amp" in k:
            n.append(("kwargs_ps", 0, "source_amp", None))
            k["source_amp"] = 0.0
        else:
            n += [("kwargs_ps", 0, "point_amp", j) for j in range(len(k["point_amp"]))]
            k["point_amp"] = np.zeros(len(k["point_amp"]))
    out = []
    for grp, i, name, j in n:
        b = copy.deepcopy(base)
        if j is None:
            b[grp][i][name] = 1.0
        else:
            b[grp][i][name][j] = 1.0
        out.append(b)
    return n, out


def read(kw, n):
    return np.array([kw[a][i][name] if j is None else kw[a][i][name][j] for a, i, name, j in n], dtype=float)


@PROP.facet("optimal-amplitudes", img_case, quick=600, shards=3)
def optimal(case, t):
    from lenstronomy.ImSim.image_model import ImageModel

    w = Lin(dict(case, delta=False))
    c = w.c
    kw = w.params(0)
    fit = fit_model(w)
    n, units = unit_kwargs(kw, c)
    if not n:
        t.trivial()
        return
    plain = w.model()
    m = w.masks()[0]
    m = np.ones((c["ny"], c["nx"]), dtype=bool) if m is None else m
    A = np.array([plain.image(**u)[m] for u in units])
    t.equal(fit.num_param_linear(kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"]), len(n), "number of linear parameters")
    t.close(fit.linear_param_from_kwargs(kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"]), read(kw, n), "linear parameters in order", rtol=1e-12)
    Al = fit.linear_response_matrix(kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"], kw["kwargs_extinction"], kw["kwargs_special"])
    sc = np.max(np.abs(A)) + 1e-12
    t.close(Al, A, "response matrix holds the images of unit amplitudes", rtol=1e-6, atol=1e-7 * sc)
    Au = fit.linear_response_matrix(kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"], kw["kwargs_extinction"], kw["kwargs_special"], unconvolved=True)
    t.close(Au, np.array([plain.image(unconvolved=True, **u)[m] for u in units]), "unconvolved response matrix", rtol=1e-6, atol=1e-7 * sc)
    d = w.array()[m]
    cd, err = fit.error_response(kw["kwargs_lens"], kw["kwargs_ps"], kwargs_special=kw["kwargs_special"])
    q = c["data"][0]
    pv = c["psf"][0]["var"] and not c["psf"][0]["none"] and c["ps"] is not None
    if not pv:
        t.close(cd, (q["rms"] ** 2 + np.maximum(w.array(), 0) / q["exp"])[m], "noise variance", rtol=1e-6)
    W = 1.0 / np.sqrt(cd)
    s = np.linalg.svd(A * W, compute_uv=False)
    norm = np.sqrt(np.sum((A * W) ** 2, axis=1))
    if len(s) == 0 or np.any(norm == 0) or A.shape[1] < A.shape[0]:
        cond = np.inf
    else:
        cond = np.linalg.cond((A * W).T)
    res = {}
    for inv in (False, True):
        k = copy.deepcopy(kw)
        model, merr, cov, par = fit.image_linear_solve(inv_bool=inv, **k)
        t.finite(par, "amplitudes")
        t.equal(len(par), len(n), "number of amplitudes")
        t.close(read(k, n), par, "amplitudes written into the parameters", rtol=1e-12)
        t.equal(np.shape(model), (c["ny"], c["nx"]), "model shape")
        t.close(np.asarray(model)[m], A.T.dot(par), "returned model is the response times the amplitudes", rtol=1e-6, atol=1e-6 * (sc * np.max(np.abs(par)) + 1e-12))
        t.true(not np.any(np.asarray(model)[~m]), "model vanishes outside the mask")
        im = plain.image(**k)
        t.close(im[m], np.asarray(model)[m], "image with the fitted parameters", rtol=1e-6, atol=1e-6 * (sc * np.max(np.abs(par)) + 1e-12))
        res[inv] = (par, cov)
    if cond < 1e4:
        t.label("well conditioned")
        ref = np.linalg.lstsq((A * W).T, d * W, rcond=None)[0]
        chi = np.sum(((d - A.T.dot(ref)) * W) ** 2)
        pn = np.sqrt(np.sum((W * A) ** 2, axis=1))
        for inv, (par, cov) in res.items():
            t.close(par * pn, ref * pn, "amplitudes minimise the weighted residuals", rtol=1e-4, atol=1e-6 * np.sqrt(np.sum((W * d) ** 2)))
            t.close(np.sum(((d - A.T.dot(par)) * W) ** 2), chi, "chi2 at the solution", rtol=1e-6, atol=1e-6)
        M = (A * W).dot((A * W).T)
        t.close(res[True][1] * np.outer(pn, pn), np.linalg.inv(M) * np.outer(pn, pn), "covariance of the amplitudes", rtol=1e-3, atol=1e-6 * cond ** 2)
        # likelihood
        k = copy.deepcopy(kw)
        ll, par = fit.likelihood_data_given_model(**k)
        model = A.T.dot(par)
        var = q["rms"] ** 2 + np.maximum(model, 0) / q["exp"] + np.abs(np.asarray(err)[m] if np.ndim(err) else err)
        t.close(ll, -0.5 * np.sum((d - model) ** 2 / var), "log likelihood", rtol=1e-5, atol=1e-6)
        k = copy.deepcopy(kw)
        lm, _ = fit.likelihood_data_given_model(source_marg=True, **k)
        t.close(lm - ll, 0.5 * np.linalg.slogdet(np.linalg.inv(M))[1], "marginalisation over the amplitudes", rtol=1e-3, atol=1e-4 * (1 + abs(ll)))
        k = copy.deepcopy(kw)
        lp, par = fit.likelihood_data_given_model(check_positive_flux=True, **k)
        neg = np.any(par < 0)
        if neg and all(s[0] not in ("SHAPELETS", "UNIFORM") for s in c["src"] + c["ll"]):
            t.close(lp - ll, -1e8, "negative amplitudes are punished when asked for", rtol=1e-6)
        elif not neg:
            t.close(lp, ll, "positive amplitudes are not punished", rtol=1e-9)
        # noise-free data are recovered
        true = read(kw, n)
        dat = fit.Data
        clean = plain.image(**kw)
        dat.update_data(clean)
        k = copy.deepcopy(kw)
        model, _, _, par = fit.image_linear_solve(**k)
        t.close(par * pn, true * pn, "noise-free data give back the amplitudes", rtol=1e-5, atol=1e-6 * np.max(np.abs(true * pn)) * cond)
        t.close(np.asarray(model)[m], clean[m], "noise-free data give back the image", rtol=1e-5, atol=1e-6 * np.max(np.abs(clean)))
    t.nontrivial(cond < 1e4 and len(n) > 1)


# ---------------------------------------------------------------- histories
def hist_case():
    return img_case().map(lambda c: dict(c, ops=[["solve", i] for _, i in c["ops"]]))


@PROP.facet("solution-history", hist_case, quick=450, shards=2)
def solution_history(case, t):
    w = Lin(dict(case, delta=False))
    live = fit_model(w)
    for _, i in case["ops"]:
        if i == 4:
            w.p = 1 - w.p
            live.update_psf(w.psf())
            continue
        kw = w.params(i)
        n, _ = unit_kwargs(kw, w.c)
        if not n:
            t.trivial()
            return
        fresh = fit_model(w)
        k1, k2 = copy.deepcopy(kw), copy.deepcopy(kw)
        a = live.image_linear_solve(**k1)
        b = fresh.image_linear_solve(**k2)
        s = 1e-7 * (np.max(np.abs(b[0])) + 1e-9)
        t.close(a[0], b[0], "model of step %d is that of a newly built model" % i, rtol=1e-6, atol=s)
        t.close(a[3], b[3], "amplitudes are those of a newly built model", rtol=1e-5, atol=1e-6 * (1e-9 + np.max(np.abs(b[3]))))
        t.close(a[1], b[1], "model error is that of a newly built model", rtol=1e-7, atol=1e-12)
        la, _ = live.likelihood_data_given_model(**copy.deepcopy(kw))
        lb, _ = fresh.likelihood_data_given_model(**copy.deepcopy(kw))
        t.close(la, lb, "likelihood is that of a newly built model", rtol=1e-6, atol=1e-6)
    t.nontrivial(len(case["ops"]) > 1)


# ---------------------------------------------------------------- interferometric data
def interf_case():
    gau = st.fixed_dictionaries(dict(amp=g.fl(0.5, 10), sigma=g.fl(0.1, 0.5), center_x=g.center(0.4), center_y=g.center(0.4)))
    return st.fixed_dictionaries(dict(nx=st.integers(6, 12), ny=st.integers(6, 12), src=st.lists(gau, min_size=1, max_size=3), ps=st.lists(st.tuples(g.fl(-0.5, 0.5), g.fl(-0.5, 0.5)).map(list), max_size=2),
                                      pb=st.booleans(), rms=g.fl(0.1, 2), seed=st.integers(0, 99), sig=g.fl(0.8, 2), theta=g.fl(0.1, 0.5), dp=st.lists(g.fl(-1, 1), min_size=5, max_size=5), sq=st.booleans()))


@PROP.facet("interferometric", interf_case, quick=450)
def interferometric(case, t):
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.PointSource.point_source import PointSource

    nx = case["nx"]
    ny = nx if case["sq"] else case["ny"]
    pix = 0.2
    h = max(nx, ny)
    yy, xx = np.mgrid[-h:h + 1, -h:h + 1]
    beam = np.exp(-(xx ** 2 + yy ** 2) / (2 * case["sig"] ** 2))  # peak one, positive definite
    pb = None
    if case["pb"]:
        y, x = np.mgrid[0:ny, 0:nx]
        pb = 1.0 / (1 + 0.02 * (x - 3) ** 2 + 0.03 * y)
    dat = np.random.RandomState(case["seed"]).normal(size=(ny, nx))
    z = (-(nx - 1) / 2.0 * pix, -(ny - 1) / 2.0 * pix)
    data = ImageData(dat, background_rms=case["rms"], transform_pix2angle=np.eye(2) * pix, ra_at_xy_0=z[0], dec_at_xy_0=z[1], antenna_primary_beam=pb, likelihood_method="interferometry_natwt")
    psf = PSF("PIXEL", kernel_point_source=beam, kernel_point_source_normalisation=False)
    ps = PointSource(["UNLENSED"]) if case["ps"] else None
    fit = ImageLinearFit(data, psf, lens_model_class=LensModel(["SIS"]), source_model_class=LightModel(["GAUSSIAN"] * len(case["src"])), point_source_class=ps)
    kl = [dict(theta_E=case["theta"], center_x=0.013, center_y=0.017)]
    ks = copy.deepcopy(case["src"])
    kp = [dict(ra_image=np.array([p[0] for p in case["ps"]]), dec_image=np.array([p[1] for p in case["ps"]]), point_amp=np.ones(len(case["ps"])))] if case["ps"] else None
    model, err, cov, par = fit.image_linear_solve(kl, ks, None, kp, inv_bool=True)
    nl = len(case["src"]) + len(case["ps"])
    t.equal(len(par), nl, "number of amplitudes")

    def comps(amps):
        im = np.zeros((ny, nx))
        py, px = np.mgrid[0:ny, 0:nx]
        X, Y = z[0] + px * pix, z[1] + py * pix
        r = np.hypot(X - kl[0]["center_x"], Y - kl[0]["center_y"])
        bx, by = X - case["theta"] * (X - kl[0]["center_x"]) / r, Y - case["theta"] * (Y - kl[0]["center_y"]) / r
        for a, s in zip(amps, case["src"]):
            im += a / (2 * np.pi * s["sigma"] ** 2) * np.exp(-((bx - s["center_x"]) ** 2 + (by - s["center_y"]) ** 2) / (2 * s["sigma"] ** 2)) * pix ** 2 * (1 if pb is None else pb)
        return im

    A = fit.linear_response_matrix_interferometry_unconvolved(kl, ks, None, kp)
    s0 = np.linalg.svd(A, compute_uv=False)
    if np.max(np.abs(par) * np.max(np.abs(A), axis=1)) > 1e4 * (np.max(np.abs(model[0])) + 1e-9) or s0[-1] < 1e-6 * s0[0]:
        t.trivial()  # degenerate components: huge amplitudes that cancel each other
        return
    if not case["ps"]:
        un = comps(par)
        sc = np.max(np.abs(un)) + 1e-12
        t.close(model[0], un, "unconvolved model", rtol=1e-6, atol=1e-7 * sc)
        t.close(model[1], conv(un, beam), "model seen through the beam", rtol=1e-6, atol=1e-6 * np.sum(np.abs(un)))
    t.close(model[1], conv(np.asarray(model[0]), beam), "dirty model is the convolved model", rtol=1e-6, atol=1e-6 * np.sum(np.abs(model[0])) + 1e-12)
    t.close(fit.image(kl, ks, None, kp, unconvolved=True), model[0], "image with the fitted amplitudes", rtol=1e-5, atol=1e-6 * (np.max(np.abs(model[0])) + 1e-12))
    ll = data.log_likelihood(model, None)
    t.close(ll, -(np.sum(model[0] * model[1]) - 2 * np.sum(model[0] * dat)) / (2 * case["rms"] ** 2) + data.log_likelihood([np.zeros((ny, nx))] * 2, None), "likelihood of the model", rtol=1e-6, atol=1e-8)
    # no other amplitudes are more likely
    B = np.array([conv(a.reshape(ny, nx), beam).ravel() for a in A])
    M = A.dot(B.T) / case["rms"] ** 2
    s = np.linalg.svd(M, compute_uv=False)
    if s[-1] > 1e-8 * s[0]:
        t.label("well conditioned")
        ref = np.linalg.solve(M, A.dot(dat.ravel()) / case["rms"] ** 2)
        e = np.sqrt(np.diag(M))
        t.close(par * e, ref * e, "most likely amplitudes", rtol=1e-4, atol=1e-5 * np.max(np.abs(ref * e)) + 1e-8)
        t.close(cov, np.linalg.inv(M), "covariance", rtol=1e-3, atol=1e-5 * np.max(np.abs(np.linalg.inv(M))))
        dp = np.array(case["dp"][:nl]) / e
        alt = (A.T.dot(par + dp)).reshape(ny, nx)
        t.true(data.log_likelihood([alt, conv(alt, beam)], None) <= ll + 1e-6 * (1 + abs(ll)), "other amplitudes are not more likely")
        t.nontrivial(nl > 1)
    else:
        t.nontrivial(False)


# ---------------------------------------------------------------- the solver itself
def wls_case():
    return st.fixed_dictionaries(dict(n=st.integers(1, 6), m=st.integers(6, 30), seed=st.integers(0, 10**6), sc=st.lists(g.logf(1e-3, 1e3), min_size=6, max_size=6), sing=st.sampled_from([False, False, False, True]), prior=g.logf(0.1, 1e3)))


@PROP.facet("weighted-least-squares", wls_case, quick=1200)
def wls(case, t):
    from lenstronomy.ImSim import de_lens

    r = np.random.RandomState(case["seed"])
    n, m = case["n"], case["m"]
    A = r.normal(size=(m, n)) * np.array(case["sc"][:n])
    sing = case["sing"] and n > 1
    if sing:
        A[:, 1] = 0.0
    d = r.normal(size=m)
    ci = r.uniform(0.1, 3, m)
    keep = (A.copy(), d.copy(), ci.copy())
    x, cov, im = de_lens.get_param_WLS(A, ci, d, inv_bool=True)
    y, c2, im2 = de_lens.get_param_WLS(A, ci, d, inv_bool=False)
    for a, b, w in zip((A, d, ci), keep, ("response", "data", "weights")):
        t.same(a, b, "%s not modified" % w)
    t.true(c2 is None, "no covariance without inversion")
    t.finite(x, "amplitudes")
    t.finite(y, "amplitudes")
    t.close(im, A.dot(x), "image of the amplitudes", rtol=1e-8, atol=1e-10)
    t.close(im2, A.dot(y), "image of the amplitudes", rtol=1e-8, atol=1e-10)
    s = np.array(case["sc"][:n])
    cond = np.linalg.cond(A / s) if not sing else np.inf
    span = np.max(s) / np.min(s)
    if sing:
        t.label("singular")
    elif cond < 100 and span < 1e4:
        ref = np.linalg.lstsq((A / s) * np.sqrt(ci)[:, None], d * np.sqrt(ci), rcond=None)[0]
        t.close(x * s, ref, "solution with covariance", rtol=1e-4, atol=1e-5)
        t.close(y * s, ref, "solution", rtol=1e-4, atol=1e-5)
        M = ((A / s).T * ci).dot(A / s)
        t.close(cov * np.outer(s, s), np.linalg.inv(M), "covariance", rtol=1e-4, atol=1e-6 * np.max(np.abs(np.linalg.inv(M))))
        t.close(de_lens.marginalisation_const(cov), 0.5 * np.linalg.slogdet(cov)[1], "marginalisation constant", rtol=1e-8, atol=1e-8)
        t.close(de_lens.marginalization_new(cov), 0.5 * np.linalg.slogdet(cov)[1], "marginalisation without prior", rtol=1e-8, atol=1e-8)
        p = case["prior"]
        ev = np.minimum(np.linalg.eigvalsh(cov), p ** 2)
        if np.min(ev) > 1e-12 * np.max(np.linalg.eigvalsh(cov)):
            t.close(de_lens.marginalization_new(cov, d_prior=p), 0.5 * np.sum(np.log(ev)) + n / 2.0 * np.log(np.pi / 2) - n * np.log(p), "marginalisation with a prior width", rtol=1e-5, atol=1e-5)
    t.nontrivial(n > 1)


def err_case():
    one = st.tuples(st.sampled_from(["UNLENSED", "LENSED_POSITION"]), st.booleans(), st.lists(st.tuples(g.uni(-0.7, 0.7), g.uni(-0.7, 0.7), g.logf(1, 50)), min_size=1, max_size=3))
    return st.fixed_dictionaries(dict(ps=st.lists(one, min_size=1, max_size=3), given=st.sampled_from([True, True, False]), n=st.integers(9, 15), ks=st.sampled_from([3, 5]), seed=st.integers(0, 10**6), rms=g.logf(0.02, 0.5), vm=g.logf(1e-3, 0.3), mask=st.booleans(), map=st.sampled_from([True, True, True, False])))


@PROP.facet("model-error", err_case, quick=400, shards=2)
def model_error(case, t):
    """the PSF variance enters where declared: per selected point source model, brightness from the data, in fit and likelihood"""
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource

    r = np.random.default_rng(case["seed"])
    n, ks, pix = case["n"], case["ks"], 0.2
    k = r.uniform(0.2, 1, (ks, ks))
    k[ks // 2, ks // 2] += 2
    k /= k.sum()
    vm = case["vm"] * r.uniform(0.2, 1, (ks, ks))
    x0 = -(n - 1) / 2 * pix
    img = r.normal(size=(n, n)) * case["rms"] + 1.0
    pos = [(np.array([p[0] for p in q[2]]), np.array([p[1] for p in q[2]]), np.array([p[2] for p in q[2]])) for q in case["ps"]]
    kwd = dict(image_data=img, background_rms=case["rms"], noise_map=case["rms"] * r.uniform(0.5, 1.5, (n, n)), ra_at_xy_0=x0, dec_at_xy_0=x0, transform_pix2angle=pix * np.eye(2))
    kp = dict(psf_type="PIXEL", kernel_point_source=k)
    if case["map"]:
        kp["psf_variance_map"] = vm
    mask = np.ones((n, n)) if not case["mask"] else (r.uniform(size=(n, n)) > 0.1).astype(float)
    bools = [q[1] for q in case["ps"]] if case["given"] else None

    def build(sel=None, bl=None):
        idx = range(len(case["ps"])) if sel is None else sel
        return ImageLinearFit(ImageData(**kwd), PSF(**kp), LensModel([]), point_source_class=PointSource([case["ps"][i][0] for i in idx]), psf_error_map_bool_list=bl, likelihood_mask=mask, kwargs_numerics={})

    kw = lambda sel=None: [dict(ra_image=pos[i][0].copy(), dec_image=pos[i][1].copy(), point_amp=pos[i][2].copy()) for i in (range(len(pos)) if sel is None else sel)]
    im = build(bl=bools)
    if len(np.concatenate([p[0] for p in pos])) > mask.sum() / 3:
        t.trivial()
        return
    model, err, cov, par = im.image_linear_solve([], [], [], kw())
    on = [i for i in range(len(pos)) if bools is None or bools[i]]
    ref = np.zeros((n, n))
    if case["map"]:
        for i in on:
            one = build(sel=[i])
            ref = ref + one.image_linear_solve([], [], [], kw([i]))[1]
            # one model alone: variance relative to the kernel, times the flux found in the data
            t.true(np.all(one.image_linear_solve([], [], [], kw([i]))[1] >= 0), "negative variance")
    t.close(err, ref, "model variance of the selected point sources", rtol=1e-8, atol=1e-12)
    centre = any(np.any(np.hypot(pos[i][0], pos[i][1]) < 0.2) for i in on)
    if case["map"] and centre:
        t.true(err.max() > 0, "no variance although a variance map and a selected point source are given")
    # the brightness is found in the data: exact for an isolated source on a pixel
    from lenstronomy.Util.kernel_util import estimate_amp

    clean = np.zeros((n, n))
    cx, cy = n // 2, n // 2 - 1
    clean[cy - ks // 2 : cy + ks // 2 + 1, cx - ks // 2 : cx + ks // 2 + 1] = pos[0][2][0] * k
    t.close(estimate_amp(clean, cx, cy, k), pos[0][2][0], "amplitude estimated from the data", rtol=1e-8)
    # weighted least squares with data and model variance
    A = im.linear_response_matrix([], [], [], kw())
    m1 = mask.flatten() > 0
    C = (im.Data.C_D + err).flatten()[m1]
    d = img.flatten()[m1]
    if np.linalg.cond((A / np.sqrt(C)) @ (A / np.sqrt(C)).T) < 1e8:
        ref_par = np.linalg.solve((A / C) @ A.T, (A / C) @ d)
        t.close(par, ref_par, "amplitudes weighted with data and model variance", rtol=1e-5, atol=1e-7 * np.abs(ref_par).max())
        res = (im.array_masked2image(A.T @ ref_par) - img)[mask > 0]
        t.close(im.likelihood_data_given_model([], [], [], kw())[0], -0.5 * np.sum(res**2 / C), "likelihood with the model variance", rtol=1e-6, atol=1e-6)
    t.label("map" if case["map"] else "no map")
    t.nontrivial(case["map"] and len(on) > 0 and (len(on) < len(pos) or len(pos) > 1))
