"""C31: pixelated source reconstruction."""

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C31",
    title="Pixelated source reconstruction sets up the linear problem of the data",
    statement=(
        "The matrix and vector of the pixelated source reconstruction are those of the noise-weighted least-squares problem for the bilinear, lensed, primary-beam-weighted and convolved image of every source pixel, "
        "for diagonal and natural-weighting interferometric noise, whatever the grids; sparse and dense operations agree, lensing an image is the sum of its lensed pixels. "
        "Regularisation matrices are the quadratic forms they are named after, and the evidence derivative and its root are those of the Bayesian evidence."
    ),
    over=("inputs",),
    quant="lens models, data and source grids (size, pixel scale, centre), kernels, noise maps, primary beams, source images, sparse images, regularisation types and strengths",
    why="tests compare a few entries for one lens and one grid",
    files=["lenstronomy/ImSim/SourceReconstruction/pixelated_source_reconstruction.py", "lenstronomy/ImSim/SourceReconstruction/regularization_matrix_pixel.py", "lenstronomy/ImSim/SourceReconstruction/solve_regularization_strength.py"],
    mechanism=["bilinear weights of the four source pixels around a traced ray", "sparse convolution with cropping at the edges", "block structure of the regularisation matrices", "bisection"],
    observe=["PixelatedSourceReconstruction.generate_M_b", "lens_pixel_source_of_a_rectangular_region", "sparse_convolution", "pixelated_regularization_matrix", "solve_optimal_lambda"],
    rule="non-trivial: some traced rays hit the source grid and some miss it, kernels that are not delta functions",
    assumptions=["square data images, source grids aligned with the axes (checked by the code)"],
)


def setup():
    return st.fixed_dictionaries(dict(n=st.integers(4, 9), pix=g.uni(0.2, 0.5), x0=g.uni(-0.3, 0.3), y0=g.uni(-0.3, 0.3), rot=st.sampled_from([0.0, 0.0, 0.5]), nx=st.integers(2, 7), ny=st.integers(2, 7), spix=g.uni(0.08, 0.5), sx=g.uni(-0.4, 0.4), sy=g.uni(-0.4, 0.4),
                                      ks=st.sampled_from([1, 3, 5, 7]), seed=st.integers(0, 10**6), pb=st.booleans(), te=g.uni(0.2, 1.0), e1=g.uni(-0.2, 0.2), g1=g.uni(-0.1, 0.1), kind=st.sampled_from(["diagonal", "diagonal", "interferometry_natwt"]), rms=g.logf(0.05, 2.0)))


class W:
    def __init__(self, c):
        from lenstronomy.Data.imaging_data import ImageData
        from lenstronomy.Data.pixel_grid import PixelGrid
        from lenstronomy.Data.psf import PSF
        from lenstronomy.ImSim.SourceReconstruction.pixelated_source_reconstruction import PixelatedSourceReconstruction
        from lenstronomy.LensModel.lens_model import LensModel

        r = np.random.default_rng(c["seed"])
        n = c["n"]
        co, si = np.cos(c["rot"]), np.sin(c["rot"])
        T = c["pix"] * np.array([[co, -si], [si, co]])
        o = T @ np.array([(n - 1) / 2] * 2)
        kw = dict(image_data=r.normal(size=(n, n)), ra_at_xy_0=c["x0"] - o[0], dec_at_xy_0=c["y0"] - o[1], transform_pix2angle=T, likelihood_method=c["kind"])
        self.pb = None
        if c["pb"]:
            self.pb = r.uniform(0.3, 1, (n, n))
            kw["antenna_primary_beam"] = self.pb
        ks = c["ks"] if c["kind"] == "diagonal" else 2 * n + 1
        if c["kind"] == "diagonal":
            self.noise = c["rms"] * r.uniform(0.5, 2, (n, n))
            kw.update(background_rms=c["rms"], noise_map=self.noise)
        else:
            kw.update(background_rms=c["rms"], noise_map=c["rms"] * np.ones((n, n)))
        self.data_img = kw["image_data"]
        self.k = r.uniform(0, 1, (ks, ks))
        if c["kind"] != "diagonal":
            self.k = self.k + self.k[::-1, ::-1]
            self.k /= self.k[ks // 2, ks // 2] * 3
            self.k[ks // 2, ks // 2] = 1.0
        else:
            self.k /= self.k.sum()
        self.data = ImageData(**kw)
        self.psf = PSF(psf_type="PIXEL", kernel_point_source=self.k, kernel_point_source_normalisation=False)
        self.lens = LensModel(["NIE", "SHEAR"])
        self.kl = [dict(theta_E=c["te"], e1=c["e1"], e2=0.05, s_scale=0.1, center_x=0.02, center_y=-0.05), dict(gamma1=c["g1"], gamma2=0.03)]
        self.smin = (c["sx"] - (c["nx"] - 1) / 2 * c["spix"], c["sy"] - (c["ny"] - 1) / 2 * c["spix"])
        self.grid = PixelGrid(nx=c["nx"], ny=c["ny"], transform_pix2angle=c["spix"] * np.eye(2), ra_at_xy_0=self.smin[0], dec_at_xy_0=self.smin[1])
        self.rec = PixelatedSourceReconstruction(self.data, self.psf, self.lens, self.grid)
        self.c = c
        jj, ii = np.meshgrid(np.arange(n), np.arange(n))
        X, Y = kw["ra_at_xy_0"] + T[0, 0] * jj + T[0, 1] * ii, kw["dec_at_xy_0"] + T[1, 0] * jj + T[1, 1] * ii
        self.u, self.v = self.lens.ray_shooting(X, Y, self.kl)

    def response(self, m):
        """unconvolved image of source pixel m: hat function around its centre"""
        c = self.c
        ix, iy = m % c["nx"], m // c["nx"]
        hat = lambda d: np.maximum(1 - np.abs(d), 0)
        a = hat((self.u - self.smin[0]) / c["spix"] - ix) * hat((self.v - self.smin[1]) / c["spix"] - iy) * (c["pix"] / c["spix"]) ** 2
        return a if self.pb is None else a * self.pb

    def conv(self, im, k=None):
        from scipy.signal import convolve2d

        k = self.k if k is None else k
        h, n = len(k) // 2, self.c["n"]
        return convolve2d(im, k)[h : h + n, h : h + n]


@PROP.facet("linear-problem", setup, quick=400, thorough=10000, shards=16)
def linear_problem(case, t):
    w = W(case)
    N = case["nx"] * case["ny"]
    M, b = w.rec.generate_M_b(w.kl, show_progress=False)
    A = [w.response(m) for m in range(N)]
    B = [w.conv(a) for a in A]
    d = w.data_img
    if case["kind"] == "diagonal":
        Mr = np.array([[np.sum(p * q / w.noise**2) for q in B] for p in B])
        br = np.array([np.sum(p * d / w.noise**2) for p in B])
    else:
        Mr = np.array([[np.sum(p * q) for q in A] for p in B]) / case["rms"] ** 2
        br = np.array([np.sum(p * d) for p in A]) / case["rms"] ** 2
    sc = np.abs(Mr).max() + 1e-12
    t.close(M, Mr, "matrix of the linear problem", rtol=1e-8, atol=1e-9 * sc)
    t.close(b, br, "vector of the linear problem", rtol=1e-8, atol=1e-9 * (np.abs(br).max() + 1e-12))
    sp = w.rec.lens_pixel_source_of_a_rectangular_region(w.kl)
    t.equal(len(sp), N, "number of lensed source pixels")
    for m in range(N):
        t.close(w.rec.sparse_to_array(sp[m]), A[m], f"lensed image of source pixel {m}", rtol=1e-8, atol=1e-10)
    hit = np.array([len(s) for s in sp]).sum()
    inside = (w.u > w.smin[0]) & (w.v > w.smin[1]) & (w.u < w.smin[0] + (case["nx"] - 1) * case["spix"]) & (w.v < w.smin[1] + (case["ny"] - 1) * case["spix"])
    # lensing a whole source image
    img = np.random.default_rng(case["seed"] + 1).uniform(size=(case["ny"], case["nx"]))
    li = w.rec.lens_an_image_by_rayshooting(w.kl, img)
    tot = sum(a * s for a, s in zip(A, img.flatten()))
    if w.pb is not None:
        tot = tot / w.pb
    t.close(li[inside], tot[inside], "lensed source image", rtol=1e-8, atol=1e-10)
    t.label(case["kind"])
    t.nontrivial(hit > 0 and bool(inside.any()))


@PROP.facet("sparse", lambda: st.fixed_dictionaries(dict(c=setup(), s2=st.integers(0, 10**6), n1=st.integers(0, 6), n2=st.integers(0, 6), own=st.booleans())), quick=400, thorough=10000, shards=8)
def sparse(case, t):
    c = dict(case["c"], kind="diagonal")
    w = W(c)
    n = c["n"]
    r = np.random.default_rng(case["s2"])

    def mk(k):
        idx = r.choice(n * n, size=min(k, n * n), replace=False)
        s = [[int(i // n), int(i % n), float(r.normal())] for i in idx]
        d = np.zeros((n, n))
        for i, j, v in s:
            d[i, j] = v
        return s, d

    (s1, d1), (s2, d2) = mk(case["n1"]), mk(case["n2"])
    t.close(w.rec.sparse_to_array(s1), d1, "dense form of a sparse image", rtol=1e-12)
    full = r.normal(size=(n, n))
    t.close(w.rec.sum_sparse_elementwise_product(s1, full), np.sum(d1 * full), "sparse product", rtol=1e-9, atol=1e-10)
    kern = None if case["own"] else r.normal(size=w.k.shape)
    k = w.k if kern is None else kern
    t.close(w.rec.sparse_convolution(s1, kern), w.conv(d1, k), "sparse convolution", rtol=1e-9, atol=1e-10)
    t.close(w.rec.sparse_convolve_and_dot_product(s1, s2, kern), np.sum(w.conv(d1, k) * d2), "convolution and product", rtol=1e-8, atol=1e-10)
    t.nontrivial(bool(s1 and s2))


@PROP.facet("regularisation", lambda: st.fixed_dictionaries(dict(nx=st.integers(1, 6), ny=st.integers(1, 6), seed=st.integers(0, 10**6), lam=g.logf(1e-2, 1e2), kind=st.sampled_from(["zeroth_order", "gradient", "curvature"]), nd=st.integers(1, 50))), quick=600, thorough=20000, shards=4)
def regularisation(case, t):
    from lenstronomy.ImSim.SourceReconstruction.regularization_matrix_pixel import pixelated_regularization_matrix
    from lenstronomy.ImSim.SourceReconstruction.solve_regularization_strength import d_log_evi_d_lambda, solve_optimal_lambda

    nx, ny = case["nx"], case["ny"]
    r = np.random.default_rng(case["seed"])
    U = pixelated_regularization_matrix(nx, ny, case["kind"])
    s = r.normal(size=(ny, nx))
    v = s.flatten()
    t.true(U.shape == (nx * ny, nx * ny), "shape of the regularisation matrix")
    t.close(U, U.T, "symmetry", rtol=1e-12)
    p = np.pad(s, 2)
    if case["kind"] == "zeroth_order":
        q = np.sum(s**2)
    elif case["kind"] == "gradient":
        q = np.sum(np.diff(p, axis=0) ** 2) + np.sum(np.diff(p, axis=1) ** 2)
    else:
        q = np.sum(np.diff(p, n=2, axis=0) ** 2) + np.sum(np.diff(p, n=2, axis=1) ** 2)
    t.close(v @ U @ v, q, f"quadratic form of the {case['kind']} regularisation", rtol=1e-9)
    # evidence
    N = nx * ny
    A = r.normal(size=(case["nd"], N))
    M, b = A.T @ A, A.T @ (A @ r.normal(size=N) + r.normal(size=case["nd"]))

    def evi(l):
        K = M + l * U
        return 0.5 * b @ np.linalg.solve(K, b) - 0.5 * np.linalg.slogdet(K)[1] + 0.5 * N * np.log(l)

    l = case["lam"]
    h = 1e-4 * l
    num = (evi(l + h) - evi(l - h)) / (2 * h)
    d = d_log_evi_d_lambda(l, U, M, b)
    t.close(d, 2 * num, "derivative of the evidence", rtol=1e-4, atol=1e-4 * N / l)
    lo, hi = 1e-4, 1e4
    dl, dh = d_log_evi_d_lambda(lo, U, M, b), d_log_evi_d_lambda(hi, U, M, b)
    if dl > 0 and dh < 0:
        root = solve_optimal_lambda(d_log_evi_d_lambda, U, M, b, lo, hi, tolerance=1e-9, max_iterations=80)
        t.true(lo <= root <= hi, "root outside the bracket")
        e = 1e-5 * root + 1e-7
        t.true(d_log_evi_d_lambda(max(root - e, lo), U, M, b) >= -1e-9 * N / root and d_log_evi_d_lambda(min(root + e, hi), U, M, b) <= 1e-9 * N / root, f"no sign change of the derivative at {root}")
        t.label("root")
    else:
        try:
            solve_optimal_lambda(d_log_evi_d_lambda, U, M, b, lo, hi)
            t.fail("no error although the root is not bracketed")
        except ValueError:
            pass
    t.nontrivial(N > 1)
