"""C34: two-dimensional kinematic maps and their likelihood."""

import sys
import types

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C34",
    title="2D kinematic maps are compared with the data in the right place",
    statement=(
        "A model map of the velocity is evaluated at every spectroscopic pixel at its position relative to the centre and along the axes of the lens, for any pixel scales, rotation and offset of the grids. "
        "The prediction per bin is the light-weighted mean over the pixels of that bin, scales with the square root of D_dt/D_d, uses the selected mass and light profiles, and the log-likelihood is the Gaussian one with the covariance of the bins; "
        "models outside the range of the emulator are rejected."
    ),
    over=("inputs",),
    quant="grids (size, scale, rotation, origin), lens centres and position angles, bin maps, covariances, distances, profile indices",
    why="the tests use 3 x 3 pixel maps of ones, one rotation by 90 degrees and one unit offset",
    files=["lenstronomy/Util/kin_sampling_util.py", "lenstronomy/Data/kinematic_bin_2D.py", "lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py", "lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py"],
    mechanism=["chain of affine maps between three pixel grids", "spline interpolation", "bin indices", "profile indices of mass and light"],
    observe=["KinNNImageAlign.interp_image", "KinLikelihood.logL/calc_vrms", "KinBin"],
    rule="non-trivial: rotated or offset lens and spectroscopic grids, more than one bin",
    assumptions=["the emulator SKiNN is not installed: a stand-in emulator with a known analytic map takes its place", "imaging grid aligned with the axes, pixel n/2 as the centre of image and map (the convention of the code)", "PSF of one pixel (the code convolves map and light separately)"],
)


def quad(c, u, v):
    return c[0] + c[1] * u + c[2] * v + c[3] * u * u + c[4] * u * v + c[5] * v * v


def align_case():
    return st.fixed_dictionaries(dict(ns=st.integers(2, 6), ni=st.integers(3, 12), pi=g.uni(0.05, 0.3), ps=g.uni(0.1, 0.4), rot=g.uni(-3, 3), flip=st.booleans(), x0=g.uni(-0.3, 0.3), y0=g.uni(-0.3, 0.3), pa=g.uni(-3, 3), ox=g.uni(-0.4, 0.4), oy=g.uni(-0.4, 0.4), seed=st.integers(0, 10**6), nk=st.sampled_from([61, 80, 101])))


def inputs(c):
    r = np.random.default_rng(c["seed"])
    co, si = np.cos(c["rot"]), np.sin(c["rot"])
    T = c["ps"] * np.array([[co, -si], [si, co]]) @ np.diag([-1.0 if c["flip"] else 1.0, 1.0])
    o = np.array([c["x0"], c["y0"]]) - T @ np.full(2, (c["ns"] - 1) / 2)
    spec = dict(image=np.zeros((c["ns"], c["ns"])), transform_pix2angle=T, ra_at_xy0=o[0], dec_at_xy0=o[1])
    im = dict(image=np.zeros((c["ni"], c["ni"])), transform_pix2angle=np.eye(2) * c["pi"], ra_at_xy0=-c["ni"] / 2 * c["pi"], dec_at_xy0=-c["ni"] / 2 * c["pi"], ellipse_PA=c["pa"], offset_x=c["ox"], offset_y=c["oy"])
    nk, dk = c["nk"], 6.0 / c["nk"]
    q = r.normal(size=6)
    j, i = np.meshgrid(np.arange(nk), np.arange(nk))
    nn = dict(image=quad(q, (j - nk / 2) * dk, (i - nk / 2) * dk), delta_pix=dk)
    jx, iy = np.meshgrid(np.arange(c["ns"]), np.arange(c["ns"]))
    ra = T[0, 0] * jx + T[0, 1] * iy + o[0]
    dec = T[1, 0] * jx + T[1, 1] * iy + o[1]
    return spec, im, nn, q, ra, dec


@PROP.facet("alignment", align_case, quick=300, thorough=4000, shards=2)
def alignment(case, t):
    from lenstronomy.Util.kin_sampling_util import KinNNImageAlign

    spec, im, nn, q, ra, dec = inputs(case)
    A = KinNNImageAlign(spec, im, nn)
    got = A.interp_image()
    z = (ra - case["ox"] + 1j * (dec - case["oy"])) * np.exp(-1j * case["pa"])
    ok = (abs(z.real) < 2.8) & (abs(z.imag) < 2.8)
    want = quad(q, z.real, z.imag)
    t.equal(got.shape, want.shape, "shape of the map")
    t.close(got[ok], want[ok], "map at the spectroscopic pixels", 1e-5, 1e-5)
    r1, d1 = A.spectragrid_in_radec()
    t.close(r1, ra.ravel(), "spectroscopic pixels in ra", 1e-9, 1e-9)
    t.close(d1, dec.ravel(), "spectroscopic pixels in dec", 1e-9, 1e-9)
    # a later change of the map, lens centre and orientation is used
    im2 = dict(im, ellipse_PA=case["pa"] + 0.4, offset_x=case["oy"])
    nn2 = dict(nn, image=2 * nn["image"] + 1)
    A.update(spec, im2, nn2)
    z = (ra - case["oy"] + 1j * (dec - case["oy"])) * np.exp(-1j * (case["pa"] + 0.4))
    ok = (abs(z.real) < 2.8) & (abs(z.imag) < 2.8)
    t.close(A.interp_image()[ok], 2 * quad(q, z.real, z.imag)[ok] + 1, "updated map", 1e-5, 1e-5)
    t.nontrivial(bool(ok.any()))


class Emulator:
    """stand-in for the SKiNN package: a quadratic map whose coefficients depend on the parameters"""

    def __init__(self, q):
        self.q = q
        self.calls = []

    def __enter__(self):
        me = self

        class Generator:
            def generate_map(self, p):
                me.calls.append(np.array(p, float))
                n, d = 551, 0.02
                j, i = np.meshgrid(np.arange(n), np.arange(n))
                return 200 + p[0] * 10 + quad(me.q, (j - n / 2) * d, (i - n / 2) * d)

        a, b = types.ModuleType("SKiNN"), types.ModuleType("SKiNN.generator")
        b.Generator = Generator
        a.generator = b
        self.old = {k: sys.modules.get(k) for k in ("SKiNN", "SKiNN.generator")}
        sys.modules.update({"SKiNN": a, "SKiNN.generator": b})
        return self

    def __exit__(self, *x):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def like_case():
    return st.fixed_dictionaries(
        dict(
            grid=align_case(), nb=st.integers(1, 5), qm=g.uni(0.65, 0.97), ql=g.uni(0.65, 0.97), te=g.uni(0.7, 1.4), gam=g.uni(1.7, 2.3), n=g.uni(2.2, 3.8), rfrac=g.uni(0.62, 0.8), b=g.uni(-0.35, 0.35), inc=g.uni(60, 88),
            ddt=g.uni(1500, 6000), dd=g.uni(600, 1800), zl=g.uni(0.2, 0.8), turn=st.sampled_from([0, 1, -1]), il=st.integers(0, 1), ill=st.integers(0, 1), out=st.sampled_from([None, None, None, "n", "b", "pa"]),
        )
    )


@PROP.facet("likelihood", like_case, quick=60, thorough=700, shards=3)
def likelihood(case, t):
    from lenstronomy.Data.kinematic_bin_2D import KinBin
    from lenstronomy.Data.psf import PSF
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood import KinLikelihood

    c = dict(case["grid"])
    spec, im, nn, q, ra, dec = inputs(c)
    r = np.random.default_rng(c["seed"])
    n = c["ns"]
    nb = min(case["nb"], n * n)
    bins = np.concatenate([np.arange(nb), r.integers(-1, nb, n * n - nb)])
    r.shuffle(bins)
    bins = bins.reshape(n, n)
    data = 200 + 30 * r.normal(size=nb)
    L = r.normal(size=(nb, nb))
    cov = 100 * np.eye(nb) + 20 * L @ L.T
    K = KinBin(data, cov, bins, spec["ra_at_xy0"] - 0.3, spec["dec_at_xy0"] + 0.2, spec["transform_pix2angle"], PSF(psf_type="PIXEL", kernel_point_source=np.ones((1, 1))), ra_shift=0.3, dec_shift=-0.2)
    bi = KinBin.binned_image(data, bins)
    t.close(bi[bins >= 0], data[bins[bins >= 0]], "map of the binned data", 1e-12)
    t.close(bi[bins < 0], np.zeros(np.sum(bins < 0)), "pixels in no bin", 0)
    gx, gy = K.kin_grid()
    t.close(gx, ra, "kinematic grid in ra", 1e-9, 1e-9)
    t.close(gy, dec, "kinematic grid in dec", 1e-9, 1e-9)
    il, ill = case["il"], case["ill"]
    lens = LensModel(["EPL_Q_PHI"] * 2, z_lens=case["zl"])
    light = LightModel(["SERSIC_ELLIPSE_Q_PHI"] * 2)
    pa = c["pa"]
    kl = [dict(theta_E=1.9, gamma=2.0, q=0.7, phi=pa + 0.7, center_x=1.0, center_y=0.5) for _ in range(2)]
    kl[il] = dict(theta_E=case["te"], gamma=case["gam"], q=case["qm"], phi=pa, center_x=c["ox"], center_y=c["oy"])
    kll = [dict(amp=3.0, R_sersic=0.9, n_sersic=1.0, q=0.5, phi=pa + 0.9, center_x=0.6, center_y=0.2) for _ in range(2)]
    kll[ill] = dict(amp=2.0, R_sersic=case["te"] * case["rfrac"], n_sersic=case["n"], q=case["ql"], phi=pa + np.pi * case["turn"] + 0.02, center_x=c["ox"], center_y=c["oy"])
    sp = dict(D_dt=case["ddt"], D_d=case["dd"], b_ani=case["b"], incli=np.deg2rad(case["inc"]))
    if case["out"] == "n":
        kll[ill]["n_sersic"] = 1.0
    elif case["out"] == "b":
        sp["b_ani"] = 0.6
    elif case["out"] == "pa":
        kll[ill]["phi"] += 0.5
    with Emulator(q) as em:
        M = KinLikelihood(K, lens, light, dict(image_data=im["image"], transform_pix2angle=im["transform_pix2angle"], ra_at_xy_0=im["ra_at_xy0"], dec_at_xy_0=im["dec_at_xy0"]), idx_lens=il, idx_lens_light=ill)
        logL = M.logL(kl, kll, sp)
        if case["out"]:
            t.true(logL <= -(10**7), "model outside the range of the emulator")
            t.label("outside")
            t.nontrivial(True)
            return
        valid = case["inc"] - 2 >= np.rad2deg(np.arccos(min(case["qm"], case["ql"])))
        if not valid:
            t.true(logL <= -(10**7), "inclination outside the physical range")
            t.trivial()
            return
        vrms = np.asarray(M.calc_vrms(kl, kll, sp))
        v2 = np.asarray(M.calc_vrms(kl, kll, dict(sp, D_dt=4 * sp["D_dt"])))
    if not em.calls:  # the Einstein radius in the convention of the emulator can leave its range
        t.trivial()
        return
    p = em.calls[0]
    t.close(p[[0, 1, 3, 4, 6, 7, 8]], [case["qm"], case["ql"], kll[ill]["n_sersic"], kll[ill]["R_sersic"], (case["gam"] - 1) / 2, case["b"], case["inc"]], "parameters handed to the emulator", 1e-7)
    z = (ra - c["ox"] + 1j * (dec - c["oy"])) * np.exp(-1j * pa)
    f = np.sqrt(case["ddt"] / (case["dd"] * (1 + case["zl"])) / (1650.753 / 1042.883))
    v = f * (200 + 10 * case["qm"] + quad(q, z.real, z.imag))
    w = LightModel(["SERSIC_ELLIPSE_Q_PHI"]).surface_brightness(ra, dec, [kll[ill]])
    want = np.array([np.sum((v * w)[bins == k]) / np.sum(w[bins == k]) for k in range(nb)])
    t.close(vrms, want, "binned velocity dispersion", 1e-5)
    t.close(v2, 2 * vrms, "velocity dispersion and distance ratio", 1e-6)
    if logL > -(10**7):
        d = want - data
        t.close(logL, -0.5 * d @ np.linalg.solve(cov, d), "log-likelihood", 1e-3, 1e-4)
        t.label("inside")
    t.nontrivial(nb > 1)
