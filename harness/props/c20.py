"""C20: the likelihood is the sum of its documented parts."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C20",
    title="The log-likelihood is the sum of its documented terms, for every history",
    statement=(
        "For every combination of data and priors the log-likelihood of a parameter vector is the sum of the image, time-delay, flux-ratio, position, prior and custom terms, each "
        "following its documented formula (Gaussian residuals, covariances, masks, KDE and bimodal forms, penalties) at the redshift of each point source; vectors outside the limits get -1e18 and no vector gets NaN. "
        "The value does not depend on earlier evaluations or verbosity, the inputs are left unchanged, and num_data counts the measurements used."
    ),
    over=("inputs", "histories"),
    quant="lens configurations (single and multi-plane), point-source lists with redshifts, error vectors and covariances, masks, priors on all groups, sequences of parameter vectors",
    why="tests evaluate each term at one truth vector with symmetric set-ups; mixed terms, masks, redshifts and call orders are not sampled",
    files=["lenstronomy/Sampling/likelihood.py", "lenstronomy/Sampling/Likelihoods/prior_likelihood.py", "lenstronomy/Sampling/Likelihoods/position_likelihood.py", "lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py",
           "lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py", "lenstronomy/Sampling/Likelihoods/image_likelihood.py"],
    mechanism=["Likelihood.logL, check_bounds and model updates", "per-term logL functions", "point-source caches reset between evaluations"],
    observe=["Likelihood.logL", "Likelihood.log_likelihood", "PriorLikelihood.logL", "TimeDelayLikelihood.logL", "FluxRatioLikelihood.logL", "PositionLikelihood.logL", "num_data"],
    rule="non-trivial: the term is not zero and at least two measurements or terms enter",
    assumptions=["point-source redshifts are given for all or none of the sources", "covariance matrices are positive definite"],
)

GROUPS = ["lens", "source", "lens_light", "ps", "extinction"]
PN = ["a", "b", "c"]


# ------------------------------------------------------------------ priors
def prior_case():
    entry = st.tuples(st.sampled_from(GROUPS + ["special"]), st.sampled_from(["gauss", "kde", "gauss"]), st.integers(0, 1), st.sampled_from(PN), g.fl(0.3, 2), g.logf(0.05, 1)).map(list)
    return st.fixed_dictionaries(dict(entries=st.lists(entry, min_size=1, max_size=6), vals=st.lists(g.uni(0.3, 2.0), min_size=60, max_size=60), arr=st.integers(0, 5), none=st.booleans()))


def kde_sample(m, s):
    return m + s * np.array([-2.1, -1.2, -0.7, -0.4, -0.1, 0.15, 0.35, 0.8, 1.3, 1.9])


def kde_logp(x, sample):
    n = len(sample)
    h = n ** (-1.0 / 5) * np.std(sample, ddof=1)
    return np.log(np.mean(np.exp(-((x - sample) ** 2) / 2 / h**2)) / (np.sqrt(2 * np.pi) * h))


def group_values(vals, arr):
    it = iter(vals)
    kw = {}
    for gi, gr in enumerate(GROUPS):
        kw[gr] = [{n: next(it) for n in PN} for _ in range(2)]
        if gi == arr:
            kw[gr][0]["a"] = np.array([next(it), next(it), next(it)])
    kw["special"] = {n: next(it) for n in PN}
    return kw


def call_kwargs(kw):
    return {"kwargs_" + k: v for k, v in kw.items()}


@PROP.facet("priors", prior_case, quick=600)
def priors(case, t):
    from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood

    kw = group_values(case["vals"], case["arr"])
    opts, ref = {}, 0.0
    for gr, kind, i, n, m, s in case["entries"]:
        v = kw["special"][n] if gr == "special" else kw[gr][i][n]
        x = np.atleast_1d(v)
        head = [n] if gr == "special" else [i, n]
        if kind == "gauss":
            opts.setdefault("prior_" + gr, []).append(head + [m, s])
            ref -= np.sum((x - m) ** 2) / 2 / s**2
        else:
            sm = kde_sample(m, max(s, 0.3))
            opts.setdefault("prior_%s_kde" % gr, []).append(head + [sm])
            ref += sum(kde_logp(xx, sm) for xx in x)
        t.label("%s-%s" % (gr, kind))
    keep = copy.deepcopy((opts, kw))
    p = PriorLikelihood(**opts)
    args = call_kwargs(kw)
    if case["none"]:
        used = {e[0] for e in case["entries"]}
        args = {k: v for k, v in args.items() if k[7:] in used}
    got = p.logL(**args)
    t.close(got, ref, "sum of the priors", rtol=1e-7, atol=1e-9)
    t.close(p.logL(**args), ref, "sum of the priors, second call", rtol=1e-7, atol=1e-9)
    t.unchanged((opts, kw), keep, "priors and parameters not modified")
    t.nontrivial(len(case["entries"]) > 1)


def lognormal_case():
    return st.fixed_dictionaries(dict(group=st.sampled_from(GROUPS + ["special"]), x=g.logf(0.05, 20), m=g.fl(-1.5, 1.5), s=g.logf(0.1, 2), m2=g.fl(-1.5, 1.5), s2=g.logf(0.1, 2)))


def lognormal_prior(case, m, s):
    from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood

    sp = case["group"] == "special"
    p = PriorLikelihood(**{"prior_%s_lognormal" % case["group"]: [["a", m, s] if sp else [1, "a", m, s]]})
    kw = {"kwargs_" + gr: [{"a": 0.5}, {"a": 0.5}] for gr in GROUPS}
    kw["kwargs_special"] = {"a": 0.5}
    if sp:
        kw["kwargs_special"]["a"] = case["x"]
    else:
        kw["kwargs_" + case["group"]][1]["a"] = case["x"]
    return p.logL(**kw)


@PROP.facet("prior-lognormal", lognormal_case, quick=300)
def prior_lognormal(case, t):
    """Relative weight of two log-normal priors at the same value (the factor 1/x cancels)."""
    a, b = lognormal_prior(case, case["m"], case["s"]), lognormal_prior(case, case["m2"], case["s2"])
    lx = math.log(case["x"])
    ref = -(lx - case["m"]) ** 2 / 2 / case["s"] ** 2 + (lx - case["m2"]) ** 2 / 2 / case["s2"] ** 2
    t.close(a - b, ref, "log-normal prior of %s" % case["group"], rtol=1e-7, atol=1e-7 * (1 + abs(a)))
    t.label(case["group"])
    t.nontrivial(True)


@PROP.facet("prior-lognormal-density", lognormal_case, quick=0)
def prior_lognormal_density(case, t):
    """Replays the recorded finding: the density of a log-normal variable."""
    a = lognormal_prior(case, case["m"], case["s"]) - lognormal_prior(dict(case, x=1.0), case["m"], case["s"])
    lx = math.log(case["x"])
    ref = -(lx - case["m"]) ** 2 / 2 / case["s"] ** 2 - lx + case["m"] ** 2 / 2 / case["s"] ** 2
    t.close(a, ref, "log-normal density", rtol=1e-7, atol=1e-7)


# ------------------------------------------------------------------ lens set-ups with point sources
def lens_setup():
    return st.fixed_dictionaries(dict(theta=g.fl(0.8, 1.4), e1=g.fl(-0.2, 0.2), e2=g.fl(-0.2, 0.2), g1=g.fl(-0.08, 0.08), g2=g.fl(-0.08, 0.08), th2=g.fl(0.05, 0.3), x2=g.fl(-0.8, 0.8), y2=g.fl(-0.8, 0.8), mp=st.booleans(),
                                      z2=st.sampled_from([0.3, 0.5, 0.8])))


def points(n):
    return st.lists(st.tuples(g.uni(0.6, 1.6), g.uni(0, 6.28)).map(list), min_size=n, max_size=n)


def setup_kwargs(s, zps):
    km = dict(lens_model_list=["SIE", "SHEAR", "SIS"])
    if s["mp"]:
        km.update(multi_plane=True, z_lens=0.5, lens_redshift_list=[0.5, 0.5, s["z2"]], z_source=2.0, z_source_convention=2.0)
    else:
        km.update(z_lens=0.5, z_source=2.0, z_source_convention=2.0)
    kl = [dict(theta_E=s["theta"], e1=s["e1"], e2=s["e2"], center_x=0.0, center_y=0.0), dict(gamma1=s["g1"], gamma2=s["g2"], ra_0=0.0, dec_0=0.0), dict(theta_E=s["th2"], center_x=s["x2"], center_y=s["y2"])]
    return km, kl


def lens_at(s, z):
    """A lens model of its own at the redshift of the source."""
    from lenstronomy.LensModel.lens_model import LensModel

    km, kl = setup_kwargs(s, None)
    km = dict(km)
    if z is not None:
        km["z_source"] = z
    return LensModel(**km), kl


def xy(pts):
    p = np.array(pts)
    return p[:, 0] * np.cos(p[:, 1]), p[:, 0] * np.sin(p[:, 1])


def cov(sig, rho):
    n = len(sig)
    c = np.full((n, n), rho)
    np.fill_diagonal(c, 1.0)
    return c * np.outer(sig, sig)


def ps_lists():
    return st.lists(st.integers(2, 4), min_size=1, max_size=2).flatmap(lambda ns: st.tuples(*[points(n) for n in ns]).map(list))


def td_case():
    return st.fixed_dictionaries(dict(s=lens_setup(), ps=ps_lists(), z=st.one_of(st.none(), st.tuples(g.fl(1.2, 2.5), g.fl(1.2, 2.5)).map(list)), ddt=g.fl(1500, 6000), meas=st.lists(g.uni(-30, 30), min_size=6, max_size=6), sig=st.lists(g.uni(0.5, 5), min_size=6, max_size=6),
                                      full=st.booleans(), rho=g.fl(-0.2, 0.6), mask=st.one_of(st.none(), st.lists(st.booleans(), min_size=6, max_size=6)), bi=st.booleans(), lam=st.sampled_from([1, 0.9, 1.1]), shift=g.fl(-20, 20), short=st.booleans()))


MPC_ARCSEC2_DAY = 3.0856775814913673e22 / 299792458.0 / 86400.0 * (math.pi / 180 / 3600) ** 2


@PROP.facet("time-delays", td_case, quick=300, shards=2)
def time_delays(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.Sampling.Likelihoods.time_delay_likelihood import TimeDelayLikelihood

    s, c = case["s"], case
    nps = len(c["ps"])
    zps = None if c["z"] is None else c["z"][:nps]
    km, kl = setup_kwargs(s, zps)
    lm = LensModel(**km)
    ps = PointSource(["LENSED_POSITION"] * nps, lens_model=lm, redshift_list=zps)
    kps = [dict(ra_image=xy(p)[0], dec_image=xy(p)[1]) for p in c["ps"]]
    meas, errs, masks, k = [], [], [], 0
    for p in c["ps"]:
        n = len(p) - 1
        meas.append(np.array(c["meas"][k:k + n]))
        sg = np.array(c["sig"][k:k + n])
        errs.append(cov(sg, c["rho"]) if c["full"] else sg)
        masks.append([True] * n if c["mask"] is None else list(c["mask"][k:k + n]))
        k += n
    bi = c["bi"] and nps == 1
    kw = dict(bimodal_measurement=bi)
    if bi:
        kw.update(time_delays_measured=[meas[0], meas[0] + c["shift"]], time_delays_uncertainties=[errs[0], errs[0]])
    elif nps == 1:
        kw.update(time_delays_measured=meas[0], time_delays_uncertainties=errs[0])
    else:
        kw.update(time_delays_measured=meas, time_delays_uncertainties=errs)
    if c["mask"] is not None:
        kw["time_delay_measurement_bool_list"] = copy.deepcopy(masks)
        if c["short"] and all(all(m) or not any(m) for m in masks):
            kw["time_delay_measurement_bool_list"] = [bool(all(m)) for m in masks]
    keep = copy.deepcopy((kw, kl, kps))
    like = TimeDelayLikelihood(lens_model_class=lm, point_source_class=ps, **kw)
    opt = dict(lambda_mst=c["lam"]) if c["lam"] != 1 else {}
    ref = 0.0
    for i in range(nps):
        own, _ = lens_at(s, None if zps is None else zps[i])
        fp = own.fermat_potential(kps[i]["ra_image"], kps[i]["dec_image"], kl)
        ddt = c["ddt"] * own.ddt_scaling
        if zps is None:
            ddt = c["ddt"]
        dt = MPC_ARCSEC2_DAY * ddt * fp * c["lam"]
        m = np.array(masks[i])
        if not m.any():
            continue

        def one(ms):
            d = (dt[1:] - dt[0] - ms)[m]
            e = errs[i]
            return -0.5 * d @ np.linalg.solve(e[np.ix_(m, m)], d) if c["full"] else -0.5 * np.sum(d**2 / e[m] ** 2)
        if bi:
            ref += np.logaddexp(one(meas[i]), one(meas[i] + c["shift"]))
        else:
            ref += one(meas[i])
    for rep in range(2):
        got = like.logL(kl, kps, {"D_dt": c["ddt"]}, **opt)
        t.close(got, ref, "time-delay term (evaluation %d)" % rep, rtol=1e-5, atol=1e-6)
        like.logL(kl, kps, {"D_dt": c["ddt"] * 1.3})
    t.unchanged((kw, kl, kps), keep, "inputs not modified")
    t.equal(int(like.num_data), int(sum(sum(m) for m in masks)), "number of measured delays")
    # wrong number of images
    if not bi and any(masks[0]):
        worse = [dict(ra_image=q["ra_image"][:-1], dec_image=q["dec_image"][:-1]) for q in kps]
        t.true(like.logL(kl, worse, {"D_dt": c["ddt"]}) < -1e14, "a different number of images is rejected")
    t.label("%d-sources" % nps)
    t.label("bimodal" if bi else ("cov" if c["full"] else "diag"))
    t.nontrivial(ref != 0 and sum(sum(m) for m in masks) > 1)


def flux_case():
    return st.fixed_dictionaries(dict(s=lens_setup(), ps=ps_lists(), z=st.one_of(st.none(), st.tuples(g.fl(1.2, 2.5), g.fl(1.2, 2.5)).map(list)), ratio=st.lists(g.uni(0.2, 3), min_size=6, max_size=6), sig=st.lists(g.uni(0.05, 1), min_size=6, max_size=6), full=st.booleans(),
                                      rho=g.fl(-0.2, 0.6), use=st.one_of(st.none(), st.lists(st.booleans(), min_size=2, max_size=2))))


@PROP.facet("flux-ratios", flux_case, quick=300)
def flux_ratios(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLikelihood

    s, c = case["s"], case
    nps = len(c["ps"])
    zps = None if c["z"] is None else c["z"][:nps]
    km, kl = setup_kwargs(s, zps)
    use = [True] * nps if c["use"] is None else c["use"][:nps]
    fr, fe, k = [], [], 0
    for p in c["ps"]:
        n = len(p) - 1
        fr.append(list(c["ratio"][k:k + n]))
        sg = np.array(c["sig"][k:k + n])
        fe.append(cov(sg, c["rho"]) if c["full"] else sg)
        k += n
    X = [xy(p) for p in c["ps"]]
    like = FluxRatioLikelihood(LensModel(**km), fr if nps > 1 else fr[0], fe if nps > 1 else fe[0], num_point_sources=nps, point_source_redshift_list=zps, flux_ratio_measurement_bool=None if c["use"] is None else use)
    ref = 0.0
    for i in range(nps):
        if not use[i]:
            continue
        own, _ = lens_at(s, None if zps is None else zps[i])
        mu = np.abs(own.magnification(X[i][0], X[i][1], kl))
        q = mu[1:] / mu[0]
        if np.max(mu) > 1e4 or np.min(mu) < 1e-4:
            t.trivial()
            return
        if c["full"]:
            d = np.log(q) - np.log(fr[i])
            ref -= 0.5 * d @ np.linalg.solve(fe[i], d)
        else:
            ref -= 0.5 * np.sum((q - fr[i]) ** 2 / fe[i] ** 2)
    for rep in range(2):
        got = like.logL([x[0] for x in X], [x[1] for x in X], kl, {})
        t.close(got, ref, "flux-ratio term (evaluation %d)" % rep, rtol=1e-5, atol=1e-6)
    t.equal(int(like.num_data), sum(len(f) for f, u in zip(fr, use) if u), "number of measured ratios")
    if use[0]:
        t.true(like.logL([x[0][:-1] for x in X], [x[1][:-1] for x in X], kl, {}) < -1e14, "a different number of images is rejected")
    t.label("%d-sources" % nps)
    t.nontrivial(ref != 0 and sum(use) > 0)


def pos_case():
    return st.fixed_dictionaries(dict(s=lens_setup(), ps=ps_lists(), z=st.one_of(st.none(), st.tuples(g.fl(1.2, 2.5), g.fl(1.2, 2.5)).map(list)), typ=st.lists(st.sampled_from(["LENSED_POSITION", "LENSED_POSITION", "UNLENSED"]), min_size=2, max_size=2), obs=st.lists(g.uni(-0.02, 0.02), min_size=16, max_size=16),
                                      sig=g.logf(0.003, 0.05), ssig=g.logf(0.001, 0.05), astro=st.booleans(), src=st.sampled_from([None, True, False]), img=st.booleans(), tol=st.one_of(st.none(), g.logf(0.01, 1)), lim=st.one_of(st.none(), st.integers(1, 4)), off=st.booleans(), frames=st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=16, max_size=16))))


@PROP.facet("positions", pos_case, quick=300, shards=2)
def positions(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood

    s, c = case["s"], case
    nps = len(c["ps"])
    typ = c["typ"][:nps]
    zps = None if c["z"] is None else c["z"][:nps]
    km, kl = setup_kwargs(s, zps)
    kps = [dict(ra_image=xy(p)[0], dec_image=xy(p)[1]) for p in c["ps"]]
    fr, sub = {}, [None] * nps
    if c.get("frames") and not s["mp"]:
        # images lensed by different subsets of the deflectors
        m, f = len(kl), iter(c["frames"])
        groups = [list(range(m)), [0], [m - 1]]
        idx = [[next(f) for _ in q["ra_image"]] if ty == "LENSED_POSITION" else None for q, ty in zip(kps, typ)]
        fr = dict(index_lens_model_list=groups, point_source_frame_list=idx)
        sub = [None if i is None else [groups[j] for j in i] for i in idx]
        t.label("frames")
    ps = PointSource(typ, lens_model=LensModel(**km), redshift_list=zps, **fr)
    o, ra, dec = iter(c["obs"]), [], []
    for q in kps:
        ra.append(q["ra_image"] + np.array([next(o) for _ in q["ra_image"]]))
        dec.append(q["dec_image"] + np.array([next(o) for _ in q["ra_image"]]))
    n0 = len(kps[0]["ra_image"])
    sp = dict(delta_x_image=np.array(c["obs"][:n0]), delta_y_image=np.array(c["obs"][n0:2 * n0])) if c["off"] else {}
    like = PositionLikelihood(ps, image_position_uncertainty=c["sig"], astrometric_likelihood=c["astro"], image_position_likelihood=c["img"], ra_image_list=ra, dec_image_list=dec, source_position_likelihood=c["src"],
                              source_position_tolerance=c["tol"], source_position_sigma=c["ssig"], restrict_image_number=c["lim"] is not None, max_num_images=c["lim"])
    keep = copy.deepcopy((kl, kps, sp, ra, dec))
    ref, terms = 0.0, 0
    if c["astro"] and sp:
        ref -= np.sum(sp["delta_x_image"] ** 2 + sp["delta_y_image"] ** 2) / 2 / c["sig"] ** 2
        terms += 1
    if c["lim"] is not None and n0 > c["lim"]:
        ref -= 1e5
        terms += 1
    on = c["src"] if c["src"] is not None else "LENSED_POSITION" in typ
    if on:
        for i in range(nps):
            if typ[i] != "LENSED_POSITION":
                continue
            own, _ = lens_at(s, None if zps is None else zps[i])
            x, y = kps[i]["ra_image"], kps[i]["dec_image"]
            if sub[i] is None:
                bx, by = own.ray_shooting(x, y, kl)
                fxx, fxy, fyx, fyy = own.hessian(x, y, kl)
            else:
                bx, by = np.array([own.ray_shooting(x[j], y[j], kl, k=sub[i][j]) for j in range(len(x))], float).T
                fxx, fxy, fyx, fyy = np.array([own.hessian(x[j], y[j], kl, k=sub[i][j]) for j in range(len(x))], float).T
            for j in range(len(x)):
                A = np.array([[1 - fxx[j], -fxy[j]], [-fyx[j], 1 - fyy[j]]])
                d = np.array([np.mean(bx) - bx[j], np.mean(by) - by[j]])
                if abs(np.linalg.det(A)) < 1e-3:
                    t.trivial()
                    return
                th = np.linalg.solve(A, d)  # displacement in the image plane
                ref -= 0.5 * np.sum(th**2) / c["ssig"] ** 2
                r = np.hypot(*d)
                if c["tol"] is not None:
                    if abs(r - c["tol"]) < 1e-6:
                        t.trivial()
                        return
                    ref -= 1e3 * (r > c["tol"])
        terms += 1
    if c["img"]:
        for i in range(nps):
            ref -= np.sum((kps[i]["ra_image"] - ra[i]) ** 2 + (kps[i]["dec_image"] - dec[i]) ** 2) / 2 / c["sig"] ** 2
        terms += 1
    for rep in range(2):
        got = like.logL(kl, kps, sp, verbose=bool(rep))
        t.close(got, ref, "position term (evaluation %d)" % rep, rtol=1e-5, atol=1e-5)
    t.unchanged((kl, kps, sp, ra, dec), keep, "inputs not modified")
    t.equal(int(like.num_data), 2 * sum(len(r) for r in ra) if c["img"] else 0, "number of position measurements")
    t.label("multi-plane" if s["mp"] else "single-plane")
    t.nontrivial(terms > 0)


# ------------------------------------------------------------------ the complete likelihood
def total_case():
    return st.fixed_dictionaries(dict(s=lens_setup(), pts=points(3), img=st.booleans(), td=st.booleans(), fr=st.booleans(), pos=st.booleans(), prior=st.booleans(), custom=st.sampled_from([None, "plain", "kill"]), bounds=st.booleans(), linear=st.booleans(), zsamp=st.booleans(),
                                      marg=st.booleans(), vec=st.lists(st.lists(g.uni(0.05, 0.95), min_size=30, max_size=30), min_size=2, max_size=3), order=st.lists(st.integers(0, 2), min_size=3, max_size=6), noise=st.lists(g.uni(-1, 1), min_size=16, max_size=16), out=st.integers(0, 60),
                                      mask=st.booleans(), nan=st.booleans(), meas=st.lists(g.uni(-20, 20), min_size=2, max_size=2), ratio=st.lists(g.uni(0.3, 2), min_size=2, max_size=2)))


@PROP.facet("total", total_case, quick=240, shards=4)
def total(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Sampling.likelihood import Likelihood
    from lenstronomy.Sampling.parameters import Param
    from lenstronomy.Util import class_creator

    c, s = case, case["s"]
    km, kl = setup_kwargs(s, None)
    mp = s["mp"]
    zsamp = mp and c["zsamp"]
    km.update(source_light_model_list=["GAUSSIAN"], lens_light_model_list=["SERSIC"], point_source_model_list=["LENSED_POSITION"])
    if mp:
        km["source_redshift_list"] = [2.0]
    x, y = xy(c["pts"])
    n = len(x)
    nx = 6
    rs = np.random.RandomState(3)
    data = rs.uniform(0, 3, (nx, nx)) + np.tile(c["noise"], 3)[: nx * nx].reshape(nx, nx)
    if c["nan"] and c["img"] and not c["linear"]:
        data[2, 3] = np.nan
    ker = np.array([[0.05, 0.1, 0.05], [0.1, 0.4, 0.1], [0.05, 0.1, 0.05]])
    band = [dict(image_data=data, background_rms=0.3, exposure_time=200.0, ra_at_xy_0=-1.25, dec_at_xy_0=-1.25, transform_pix2angle=np.eye(2) * 0.5), dict(psf_type="PIXEL", kernel_point_source=ker), {}]
    mask = np.ones((nx, nx))
    if c["mask"]:
        mask[0, :3] = 0
    joint = {}
    opt = dict(check_bounds=c["bounds"], image_likelihood=c["img"], source_marg=c["marg"] and c["linear"])
    if c["img"]:
        joint.update(multi_band_list=[band], multi_band_type="multi-linear")
        opt["image_likelihood_mask_list"] = [mask]
    if c["td"]:
        joint.update(time_delays_measured=c["meas"], time_delays_uncertainties=[2.0, 3.0])
        opt["time_delay_likelihood"] = True
    if c["fr"]:
        joint.update(flux_ratios=c["ratio"], flux_ratio_errors=[0.2, 0.3])
        opt["flux_ratio_likelihood"] = True
    if c["pos"]:
        joint.update(ra_image_list=[x + 0.01], dec_image_list=[y - 0.02])
        opt.update(image_position_likelihood=True, image_position_uncertainty=0.03, source_position_likelihood=True, source_position_sigma=0.02)
    else:
        opt.update(source_position_likelihood=False)
    if c["prior"]:
        opt.update(prior_lens=[[0, "theta_E", 1.1, 0.2], [2, "center_x", 0.1, 0.3]], prior_lens_light=[[0, "R_sersic", 0.5, 0.2]])
    calls = []
    if c["custom"]:
        def custom(kwargs_lens, kwargs_source=None, kwargs_lens_light=None, kwargs_ps=None, kwargs_special=None, kwargs_extinction=None, kwargs_tracer_source=None):
            calls.append(1)
            if c["custom"] == "kill" and kwargs_lens[0]["e1"] > 0:
                return -(10**18)
            return -kwargs_lens[0]["theta_E"] ** 2
        opt["custom_logL_addition"] = custom
    fix = [{}, {"ra_0": 0.0, "dec_0": 0.0}, {}]
    pk = dict(kwargs_fixed_lens=fix, num_point_source_list=[n], linear_solver=c["linear"], Ddt_sampling=c["td"])
    if zsamp:
        pk["lens_redshift_sampling_indexes"] = [-1, -1, 0]
    low = dict(kwargs_lower_lens=[dict(theta_E=0.8, e1=-0.2, e2=-0.2, center_x=-0.05, center_y=-0.05), dict(gamma1=-0.1, gamma2=-0.1, ra_0=0, dec_0=0), dict(theta_E=0.05, center_x=-1.0, center_y=-1.0)],
               kwargs_lower_source=[dict(amp=0.5, sigma=0.1, center_x=-0.2, center_y=-0.2)], kwargs_lower_lens_light=[dict(amp=0.5, R_sersic=0.2, n_sersic=1.0, center_x=-0.1, center_y=-0.1)],
               kwargs_lower_ps=[dict(ra_image=x - 0.02, dec_image=y - 0.02, point_amp=np.full(n, 0.5))], kwargs_lower_special=dict(D_dt=1500.0, z_sampling=[0.4]))
    up = dict(kwargs_upper_lens=[dict(theta_E=1.4, e1=0.2, e2=0.2, center_x=0.05, center_y=0.05), dict(gamma1=0.1, gamma2=0.1, ra_0=0, dec_0=0), dict(theta_E=0.3, center_x=1.0, center_y=1.0)],
              kwargs_upper_source=[dict(amp=3.0, sigma=0.4, center_x=0.2, center_y=0.2)], kwargs_upper_lens_light=[dict(amp=3.0, R_sersic=1.0, n_sersic=4.0, center_x=0.1, center_y=0.1)],
              kwargs_upper_ps=[dict(ra_image=x + 0.02, dec_image=y + 0.02, point_amp=np.full(n, 3.0))], kwargs_upper_special=dict(D_dt=5000.0, z_sampling=[0.6]))
    keep = copy.deepcopy((joint, km, pk, low, up, {k: v for k, v in opt.items() if k != "custom_logL_addition"}))
    par = Param(km, **pk, **low, **up)
    like = Likelihood(joint, km, par, **opt)
    lo, hi = par.param_limits()
    vecs = [np.asarray(lo) + np.array(v)[:len(lo)] * (np.asarray(hi) - np.asarray(lo)) for v in c["vec"]]

    def reference(v):
        p2 = Param(copy.deepcopy(km), **copy.deepcopy(pk), **low, **up)
        kw = p2.args2kwargs(v)
        L, S, LL, P, X = kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"], kw["kwargs_special"]
        k2 = copy.deepcopy(km)
        if zsamp:
            k2["lens_redshift_list"] = [0.5, 0.5, float(X["z_sampling"][0])]
        out = 0.0
        if c["custom"]:
            if c["custom"] == "kill" and L[0]["e1"] > 0:
                return -1e18
            out -= L[0]["theta_E"] ** 2
        if c["prior"]:
            out -= (L[0]["theta_E"] - 1.1) ** 2 / 2 / 0.04 + (L[2]["center_x"] - 0.1) ** 2 / 2 / 0.09 + (LL[0]["R_sersic"] - 0.5) ** 2 / 2 / 0.04
        lm = LensModel(**{k: v for k, v in k2.items() if k in ("lens_model_list", "multi_plane", "lens_redshift_list", "z_source", "z_source_convention", "z_lens")})
        px, py = P[0]["ra_image"], P[0]["dec_image"]
        if c["img"]:
            sim = class_creator.create_im_sim([copy.deepcopy(band)], "multi-linear", k2, image_likelihood_mask_list=[mask], linear_solver=c["linear"])
            im, _ = sim.likelihood_data_given_model(L, S, LL, P, kwargs_extinction=None, kwargs_special=X, source_marg=c["marg"] and c["linear"])
            out += -1e15 if np.isnan(im) else im
        if c["td"]:
            dt = MPC_ARCSEC2_DAY * X["D_dt"] * lm.fermat_potential(px, py, L)
            out -= 0.5 * np.sum(((dt[1:] - dt[0] - np.array(c["meas"])) / np.array([2.0, 3.0])) ** 2)
        if c["fr"]:
            mu = np.abs(lm.magnification(px, py, L))
            out -= 0.5 * np.sum(((mu[1:] / mu[0] - np.array(c["ratio"])) / np.array([0.2, 0.3])) ** 2)
        if c["pos"]:
            out -= np.sum((px - x - 0.01) ** 2 + (py - y + 0.02) ** 2) / 2 / 0.03**2
            bx, by = lm.ray_shooting(px, py, L)
            fxx, fxy, fyx, fyy = lm.hessian(px, py, L)
            for j in range(n):
                A = np.array([[1 - fxx[j], -fxy[j]], [-fyx[j], 1 - fyy[j]]])
                th = np.linalg.solve(A, [np.mean(bx) - bx[j], np.mean(by) - by[j]])
                out -= 0.5 * np.sum(th**2) / 0.02**2
        return out

    refs = [reference(v) for v in vecs]
    if not all(np.isfinite(refs)):
        t.trivial()
        return
    for step, i in enumerate(c["order"]):
        i = i % len(vecs)
        v = vecs[i].copy()
        got = [like.logL(v), like(v), like.likelihood(v), -like.negativelogL(v), like.logL(v, verbose=True), like.log_likelihood(par.args2kwargs(v))][step % 6]
        t.true(not np.isnan(got), "log-likelihood is not NaN")
        t.close(got, refs[i], "log-likelihood (step %d)" % step, rtol=2e-6, atol=1e-5)
        t.same(v, vecs[i], "parameter vector not modified")
        # outside of one limit
        j = (c["out"] + step) % len(v)
        w = v.copy()
        w[j] = hi[j] + 1e-6 * (hi[j] - lo[j]) if step % 2 else lo[j] - 1e-6 * (hi[j] - lo[j])
        if c["bounds"]:
            before = len(calls)
            t.equal(like.logL(w), -(10**18), "vector outside the limits")
            t.equal(len(calls), before, "no evaluation outside the limits")
            w[j] = hi[j] if step % 2 else lo[j]
            t.true(like.logL(w) != -(10**18) or c["custom"] == "kill", "limits themselves are allowed")
    t.unchanged((joint, km, pk, low, up, {k: v for k, v in opt.items() if k != "custom_logL_addition"}), keep, "inputs not modified")
    num = int(np.sum(mask)) * c["img"] + 2 * c["td"] + 2 * c["fr"] + 2 * n * c["pos"]
    t.equal(int(like.num_data), num, "number of data points")
    nlin = (2 + n) * (c["linear"] and c["img"])
    kw = par.args2kwargs(vecs[0])
    t.equal(int(like.effective_num_data_points(**kw)), num - len(lo) - nlin, "effective number of data points")
    for flag in ("img", "td", "fr", "pos", "prior"):
        if c[flag]:
            t.label(flag)
    t.nontrivial(sum([c["img"], c["td"], c["fr"], c["pos"], c["prior"], bool(c["custom"])]) > 1)


# ------------------------------------------------------------------ further terms
def extra_case():
    return st.fixed_dictionaries(dict(s=lens_setup(), r=g.fl(0.0, 0.15), ph=g.fl(0, 6.28), keep=st.integers(1, 4), unl=st.booleans()))


@PROP.facet("additional-images", extra_case, quick=60, shards=2)
def additional_images(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood

    s = dict(case["s"], mp=False, th2=0.02)
    km, kl = setup_kwargs(s, None)
    lm = LensModel(**km)
    bx, by = case["r"] * math.cos(case["ph"]), case["r"] * math.sin(case["ph"])
    x, y = LensEquationSolver(LensModel(**km)).image_position_from_source(bx, by, kl, min_distance=0.05, search_window=6, precision_limit=1e-10)
    if len(x) < 2 or np.max(np.abs(LensModel(**km).magnification(x, y, kl))) > 30 or np.min(np.abs(LensModel(**km).magnification(x, y, kl))) < 0.05:
        t.trivial()
        return
    k = min(case["keep"], len(x))
    typ = (["UNLENSED"] if case["unl"] else []) + ["LENSED_POSITION"]
    kps = ([dict(ra_image=np.array([0.4]), dec_image=np.array([0.2]))] if case["unl"] else []) + [dict(ra_image=x[:k].copy(), dec_image=y[:k].copy())]
    ps = PointSource(typ, lens_model=lm, kwargs_lens_eqn_solver=dict(min_distance=0.05, search_window=6))
    keep = copy.deepcopy((kl, kps))
    like = PositionLikelihood(ps, source_position_likelihood=False, force_no_add_image=True)
    for rep in range(2):
        t.close(like.logL(kl, kps, {}), -1e5 if k < len(x) else 0.0, "penalty with %d of %d images given (evaluation %d)" % (k, len(x), rep), rtol=1e-9)
        t.equal(bool(like.check_additional_images(kps, kl)), k < len(x), "additional images found")
    none = PositionLikelihood(ps, source_position_likelihood=False)
    t.close(none.logL(kl, kps, {}), 0.0, "no penalty when not requested", atol=1e-9)
    t.unchanged((kl, kps), keep, "inputs not modified")
    t.nontrivial(True)


def finite_case():
    return st.fixed_dictionaries(dict(s=lens_setup(), ps=ps_lists(), z=st.one_of(st.none(), st.tuples(g.fl(1.2, 2.5), g.fl(1.2, 2.5)).map(list)), size=g.logf(0.005, 0.03), win=g.fl(0.1, 0.25), n=st.sampled_from([30, 41]), polar=st.booleans(), asp=g.fl(0.4, 1.0),
                                      ratio=st.lists(g.uni(0.2, 3), min_size=6, max_size=6)))


@PROP.facet("finite-source-flux-ratios", finite_case, quick=60, shards=2)
def finite_flux(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLikelihood

    s, c = case["s"], case
    nps = len(c["ps"])
    zps = None if c["z"] is None else c["z"][:nps]
    km, kl = setup_kwargs(s, zps)
    fr, k = [], 0
    for p in c["ps"]:
        fr.append(list(c["ratio"][k:k + len(p) - 1]))
        k += len(p) - 1
    fe = [[0.3] * len(f) for f in fr]
    X = [xy(p) for p in c["ps"]]
    like = FluxRatioLikelihood(LensModel(**km), fr if nps > 1 else fr[0], fe if nps > 1 else fe[0], num_point_sources=nps, point_source_redshift_list=zps, source_type="GAUSSIAN", window_size=c["win"], grid_number=c["n"], polar_grid=c["polar"],
                               aspect_ratio=c["asp"])
    ref = 0.0
    for i in range(nps):
        own, _ = lens_at(s, None if zps is None else zps[i])
        mu = LensModelExtensions(own).magnification_finite(X[i][0], X[i][1], kl, source_sigma=c["size"], window_size=c["win"], grid_number=c["n"], polar_grid=c["polar"], aspect_ratio=c["asp"])
        if np.min(mu) < 1e-3:
            t.trivial()
            return
        ref -= 0.5 * np.sum((mu[1:] / mu[0] - fr[i]) ** 2) / 0.09
    for rep in range(2):
        t.close(like.logL([x[0] for x in X], [x[1] for x in X], kl, {"source_size": c["size"]}), ref, "finite-source flux-ratio term (evaluation %d)" % rep, rtol=1e-5, atol=1e-6)
    t.nontrivial(ref != 0)


def cosmo_case():
    one = st.fixed_dictionaries(dict(H0=g.uni(50, 90), Om0=g.uni(0.15, 0.45)))
    return st.fixed_dictionaries(dict(s=lens_setup(), ps=ps_lists(), z=st.one_of(st.none(), st.tuples(g.fl(1.2, 2.5), g.fl(1.2, 2.5)).map(list)), hist=st.lists(one, min_size=1, max_size=3), meas=st.lists(g.uni(-30, 30), min_size=6, max_size=6), lam=st.sampled_from([1, 0.9])))


@PROP.facet("sampled-cosmology", cosmo_case, quick=60, shards=2)
def sampled_cosmology(case, t):
    from astropy.cosmology import FlatLambdaCDM

    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood
    from lenstronomy.Sampling.Likelihoods.time_delay_likelihood import TimeDelayLikelihood

    s, c = case["s"], case
    nps = len(c["ps"])
    zps = None if c["z"] is None else c["z"][:nps]
    km, kl = setup_kwargs(s, zps)
    lm = LensModel(**km, cosmology_sampling=True, cosmology_model="FlatLambdaCDM")
    ps = PointSource(["LENSED_POSITION"] * nps, lens_model=lm, redshift_list=zps)
    kps = [dict(ra_image=xy(p)[0], dec_image=xy(p)[1]) for p in c["ps"]]
    meas, k = [], 0
    for p in c["ps"]:
        meas.append(np.array(c["meas"][k:k + len(p) - 1]))
        k += len(p) - 1
    errs = [np.full(len(m), 4.0) for m in meas]
    like = TimeDelayLikelihood(lens_model_class=lm, point_source_class=ps, time_delays_measured=meas if nps > 1 else meas[0], time_delays_uncertainties=errs if nps > 1 else errs[0])
    pos = PositionLikelihood(ps, source_position_likelihood=True, source_position_sigma=0.05)
    for h in c["hist"]:
        cosmo = FlatLambdaCDM(H0=h["H0"], Om0=h["Om0"], Ob0=0.0, Tcmb0=0.0)
        ref = refp = 0.0
        for i in range(nps):
            kw = dict(km)
            if zps is not None:
                kw["z_source"] = zps[i]
            own = LensModel(**kw, cosmo=cosmo)
            x, y = kps[i]["ra_image"], kps[i]["dec_image"]
            dt = own.arrival_time(x, y, kl) * c["lam"]
            ref -= 0.5 * np.sum((dt[1:] - dt[0] - meas[i]) ** 2) / 16.0
            bx, by = own.ray_shooting(x, y, kl)
            fxx, fxy, fyx, fyy = own.hessian(x, y, kl)
            for j in range(len(x)):
                A = np.array([[1 - fxx[j], -fxy[j]], [-fyx[j], 1 - fyy[j]]])
                if abs(np.linalg.det(A)) < 1e-3:
                    t.trivial()
                    return
                th = np.linalg.solve(A, np.array([np.mean(bx) - bx[j], np.mean(by) - by[j]]))
                refp -= 0.5 * np.sum(th**2) / 0.05**2
        for rep in range(2):
            t.close(like.logL(kl, kps, dict(h), lambda_mst=c["lam"]), ref, "time-delay term with sampled cosmology %s (evaluation %d)" % (h, rep), rtol=1e-3, atol=1e-4)
            t.close(pos.logL(kl, kps, dict(h)), refp, "position term with sampled cosmology %s (evaluation %d)" % (h, rep), rtol=1e-3, atol=1e-3)
    t.nontrivial(len(c["hist"]) > 0)


def tracer_case():
    return st.fixed_dictionaries(dict(nx=st.integers(6, 12), dpix=g.fl(0.1, 0.3), ss=st.integers(1, 2), psf=st.sampled_from(["NONE", "GAUSSIAN", "PIXEL"]), fwhm=g.fl(0.15, 0.6), theta=g.fl(0.3, 1.2), e1=g.fl(-0.2, 0.2), src=st.lists(st.tuples(g.fl(0.5, 5.0), g.fl(0.15, 0.6), g.fl(-0.3, 0.3), g.fl(-0.3, 0.3)).map(list), min_size=1, max_size=3),
                                      tr=st.lists(st.tuples(g.fl(0.5, 3.0), g.fl(-1, 1), g.fl(-0.3, 0.3), g.fl(-0.3, 0.3)).map(list), min_size=1, max_size=2), part=st.booleans(), log=st.booleans(), mask=st.booleans(), de=st.booleans(), noise=st.lists(g.uni(-1, 1), min_size=16, max_size=16), full=st.booleans()))


@PROP.facet("tracer", tracer_case, quick=80, shards=2)
def tracer(case, t):
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.psf import PSF
    from lenstronomy.ImSim.image_model import ImageModel
    from lenstronomy.ImSim.tracer_model import TracerModelSource
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Sampling.likelihood import Likelihood
    from lenstronomy.Sampling.parameters import Param

    c = case
    n = c["nx"]
    h = (n - 1) / 2 * c["dpix"]
    data = np.array([c["noise"][(7 * i) % 16] for i in range(n * n)]).reshape(n, n) + 1.5
    kd = dict(image_data=data, ra_at_xy_0=-h, dec_at_xy_0=-h, transform_pix2angle=np.eye(2) * c["dpix"], background_rms=0.3, noise_map=np.full((n, n), 0.3))
    q = np.exp(-0.5 * ((np.arange(5) - 2) / 0.9) ** 2)
    kp = {"NONE": dict(psf_type="NONE"), "GAUSSIAN": dict(psf_type="GAUSSIAN", fwhm=c["fwhm"], pixel_size=c["dpix"]), "PIXEL": dict(psf_type="PIXEL", kernel_point_source=np.outer(q, q) / np.sum(np.outer(q, q)))}[c["psf"]]
    kn = dict(supersampling_factor=c["ss"], supersampling_convolution=False)
    kl = [dict(theta_E=c["theta"], e1=c["e1"], e2=0.05, center_x=0.02, center_y=-0.03)]
    ks = [dict(amp=a, sigma=s, center_x=x, center_y=y) for a, s, x, y in c["src"]]
    kt = [dict(amp=a, k=k, center_x=x, center_y=y) for a, k, x, y in c["tr"]]
    sm, tm, lm = LightModel(["GAUSSIAN"] * len(ks)), LightModel(["LINEAR"] * len(kt)), LensModel(["SIE"])
    part = None
    if c["part"]:
        part = [[[i], [i % len(kt)]] for i in range(len(ks))]
    mask = None
    if c["mask"]:
        mask = np.ones((n, n))
        mask[1, 2] = 0
        mask[3] = 0
    typ = "LOG" if c["log"] else "LINEAR"
    mod = TracerModelSource(ImageData(**kd), psf_class=PSF(**kp), lens_model_class=lm, source_model_class=sm, tracer_source_class=tm, kwargs_numerics=kn, likelihood_mask=mask, tracer_partition=part, tracer_type=typ)
    ref_im = ImageModel(ImageData(**kd), PSF(**kp), LensModel(["SIE"]), LightModel(["GAUSSIAN"] * len(ks)), kwargs_numerics=kn)
    num = ref_im.ImageNumerics
    x, y = num.coordinates_evaluate
    bx, by = (x, y) if c["de"] else LensModel(["SIE"]).ray_shooting(x, y, kl)

    def predict(partition, kind):
        top, bot = 0.0, 0.0
        for li, ti in partition or [[list(range(len(ks))), list(range(len(kt)))]]:
            light = sum(ks[i]["amp"] / (2 * np.pi * ks[i]["sigma"] ** 2) * np.exp(-0.5 * ((bx - ks[i]["center_x"]) ** 2 + (by - ks[i]["center_y"]) ** 2) / ks[i]["sigma"] ** 2) for i in li)
            tr = sum(np.maximum(kt[i]["amp"] + kt[i]["k"] * np.hypot(bx - kt[i]["center_x"], by - kt[i]["center_y"]), 0.0) for i in ti)
            top = top + num.re_size_convolve((10**tr if kind == "LOG" else tr) * light, unconvolved=False)
            bot = bot + num.re_size_convolve(light, unconvolved=False)
        return top / bot if kind == "LINEAR" else np.log10(top / bot), bot

    want, bot = predict(part, typ)
    if np.min(bot) < 1e-12:
        t.trivial()
        return
    keep = copy.deepcopy((kl, ks, kt))
    for rep in range(2):
        got = mod.tracer_model(kt, kl, ks, de_lensed=c["de"])
        t.close(got, want, "tracer image (%s, %d components, evaluation %d)" % (typ, len(ks), rep), rtol=1e-5, atol=1e-6)
    t.unchanged((kl, ks, kt), keep, "inputs not modified")
    if not c["de"]:
        m = np.ones((n, n), dtype=bool) if mask is None else mask > 0
        ll = -0.5 * np.sum(((want - data) ** 2 / 0.09)[m])
        t.close(mod.likelihood_data_given_model(kt, kl, ks), ll, "tracer likelihood", rtol=1e-5, atol=1e-6)
        t.equal(int(mod.num_data_evaluate), int(np.sum(m)), "number of tracer pixels")
        if c["full"]:
            km = dict(lens_model_list=["SIE"], source_light_model_list=["GAUSSIAN"] * len(ks), tracer_source_model_list=["LINEAR"] * len(kt))
            if part:
                km["tracer_partition"] = part
            if c["log"] or c["mask"]:
                km["tracer_type"] = typ
            joint = dict(multi_band_list=[[dict(kd, image_data=np.zeros((n, n)) + 1.0), kp, kn]], multi_band_type="single-band", tracer_data=[kd, kp, kn])
            par = Param(km, linear_solver=False)
            args = par.kwargs2args(kwargs_lens=kl, kwargs_source=ks, kwargs_tracer_source=kt)
            base = dict(kwargs_data_joint=joint, kwargs_model=km, param_class=par)
            with_t = Likelihood(**base, image_likelihood=False, tracer_likelihood=True, tracer_likelihood_mask=mask)
            with_i = Likelihood(**base, image_likelihood=True, tracer_likelihood=True, tracer_likelihood_mask=mask)
            only_i = Likelihood(**base, image_likelihood=True)
            t.close(with_t.logL(args), ll, "likelihood with only the tracer term", rtol=1e-5, atol=1e-6)
            t.close(with_i.logL(args) - only_i.logL(args), ll, "tracer term added to the image term", rtol=1e-5, atol=1e-5 * (1 + abs(only_i.logL(args))))
            t.equal(int(with_i.num_data), n * n + int(np.sum(m)), "number of data of image and tracer")
    t.label(typ)
    t.nontrivial(True)
