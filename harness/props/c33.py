"""C33: array, grid, mask and selection utilities."""

import itertools

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C33",
    title="Array, mask and parameter-conversion utilities do what their names say",
    statement=(
        "Conversions between array, image and cube, between polar, shear and ellipticity parameters and between width conventions are inverses of each other and keep the geometry; "
        "pairing and sorting of image positions is optimal and does not depend on their order, selections return exactly the best elements, minima returned on a grid are minima, and masks contain exactly the pixels inside the shape for any centre, size, angle and branch of the angle. "
        "Rotation, averaging, resampling and radial profiles of images conserve what they should."
    ),
    over=("inputs",),
    quant="array shapes, positions, criteria with ties, angles on every branch, mask geometries, kernels and supersampling factors",
    why="tests use one array each",
    files=["lenstronomy/Util/util.py", "lenstronomy/Util/image_util.py", "lenstronomy/Util/mask_util.py", "lenstronomy/Util/param_util.py", "lenstronomy/Util/kernel_util.py", "lenstronomy/Util/sampling_util.py"],
    mechanism=["index arithmetic on flattened grids", "argsort and tie breaking", "arctan2 branches", "reshape order"],
    observe=["util.sort_image_index, get_distance, select_best, local_minima_2d, make_grid", "mask_util.mask_half_moon", "param_util.*", "kernel_util.kernel_average_pixel, kernel_moffat, fwhm_kernel"],
    rule="non-trivial: more than one element, off-centre geometry, angles that cross the branch cut",
    assumptions=["square flattened grids where the function requires it", "points closer than 1e-6 to a mask edge are not compared"],
)


def pos_case():
    return st.fixed_dictionaries(dict(n=st.integers(1, 6), seed=st.integers(0, 10**6), lattice=st.booleans(), ns=st.integers(1, 8), hi=st.booleans()))


@PROP.facet("positions", pos_case, quick=300, thorough=4000, shards=2)
def positions(case, t):
    from lenstronomy.Util import util as u
    from lenstronomy.Util import image_util as iu

    r = np.random.default_rng(case["seed"])
    n = case["n"]
    gen = (lambda k: r.integers(-2, 3, k).astype(float)) if case["lattice"] else (lambda k: r.normal(size=k))
    x, y, a, b = gen(n), gen(n), gen(n), gen(n)
    d2 = (x[:, None] - x) ** 2 + (y[:, None] - y) ** 2
    t.close(u.compare_distance(x, y), d2.sum() / 2, "sum of pairwise distances", 1e-9, 1e-12)
    m = u.min_square_dist(x, y, a, b)
    t.close(m, ((x[:, None] - a) ** 2 + (y[:, None] - b) ** 2).min(axis=1), "distance to the closest point", 1e-9, 1e-12)
    t.close(u.displaceAbs(x, y, 0.3, -0.2), np.hypot(x - 0.3, y + 0.2), "distance from a point", 1e-12)
    perm = r.permutation(n)
    d = u.get_distance(x, y, x[perm], y[perm])
    t.close(d, 0.0, "distance between the same points in another order", 0, 1e-12)
    d = u.get_distance(x, y, a, b)
    best = min(sum((x[i] - a[p[i]]) ** 2 + (y[i] - b[p[i]]) ** 2 for i in range(n)) for p in itertools.permutations(range(n)))
    low = sum(m)
    t.true(low - 1e-9 <= d, "pairing distance below the sum of closest distances")
    t.true(d >= best - 1e-9, "pairing distance below the optimal pairing: %s %s" % (d, best))
    if n == 1:
        t.close(d, best, "distance of a single pair", 1e-9, 1e-12)
    t.true(u.get_distance(x, y, np.append(a, 0.0), np.append(b, 0.0)) >= 10**9, "different numbers of points")
    # four images
    X, Y, A, B = gen(4), gen(4), gen(4), gen(4)
    idx = np.asarray(u.sort_image_index(X, Y, A, B))
    t.equal(sorted(idx.tolist()), [0, 1, 2, 3], "sorting is a permutation")
    cost = lambda p: sum((X[p[i]] - A[i]) ** 2 + (Y[p[i]] - B[i]) ** 2 for i in range(4))
    t.close(cost(idx), min(cost(p) for p in itertools.permutations(range(4))), "optimal matching of four images", 1e-9, 1e-12)
    p4 = r.permutation(4)
    t.close(u.approx_theta_E(X, Y), u.approx_theta_E(X[p4], Y[p4]), "approximate Einstein radius and the order of images", 1e-9, 1e-12)
    D = np.sort([np.hypot(X[i] - X[j], Y[i] - Y[j]) for i in range(4) for j in range(i)])
    t.close(u.approx_theta_E(X, Y), 0.5 * np.sqrt(D[-1] * D[-2]), "approximate Einstein radius", 1e-9, 1e-12)
    # selections
    arr, crit = r.normal(size=n), gen(n)
    for f in (u.selectBest, u.select_best):
        out = np.asarray(f(arr, crit, case["ns"], highest=case["hi"]))
        k = min(case["ns"], n)
        t.equal(len(out), k, "number of selected elements")
        pos = [int(np.argmin(abs(arr - o))) for o in out]
        t.equal(len(set(pos)), k, "elements selected once")
        c = np.sort(crit)
        t.close(np.sort(crit[pos]), c[n - k :] if case["hi"] else c[:k], "criteria of the selected elements", 1e-12)
        if case["ns"] <= n:
            t.true(np.all(np.diff(crit[pos]) <= 0), "selected elements in falling order of the criterion")
    # overlap and field of view
    dist = 0.5 if not case["lattice"] else 1.0
    xo, yo = iu.findOverlap(x, y, dist)
    keep = []
    for i in range(n):
        if not any(abs(x[i] - x[j]) < dist and abs(y[i] - y[j]) < dist for j in range(i)):
            keep.append(i)
    t.close(np.asarray(xo), x[keep], "positions without overlap", 1e-12)
    t.close(np.asarray(yo), y[keep], "positions without overlap", 1e-12)
    npix, dp = 7, 0.31
    xi, yi = iu.coord_in_image(x, y, npix, dp)
    ins = (abs(x) <= npix * dp / 2) & (abs(y) <= npix * dp / 2)
    t.close(xi, x[ins], "positions inside the image", 1e-12)
    t.close(yi, y[ins], "positions inside the image", 1e-12)
    t.nontrivial(n > 1)


def arr_case():
    return st.fixed_dictionaries(dict(n=st.integers(3, 9), m=st.integers(1, 6), k=st.integers(1, 5), seed=st.integers(0, 10**6), sub=st.integers(1, 4), dp=g.logf(0.02, 2.0), ll=st.booleans(), flat=st.booleans(), sym=st.sampled_from([1, 2, 4])))


@PROP.facet("arrays", arr_case, quick=300, thorough=4000, shards=2)
def arrays(case, t):
    from lenstronomy.Util import image_util as iu
    from lenstronomy.Util import util as u

    r = np.random.default_rng(case["seed"])
    n, m, k = case["n"], case["m"], case["k"]
    img = r.normal(size=(n, m))
    v = u.image2array(img)
    t.close(v[1 * m + (m - 1)], img[1, m - 1], "row-major order", 0)
    t.same(u.array2image(v, nx=m, ny=n), img, "image to array and back")
    sq = r.normal(size=(n, n))
    t.same(u.array2image(u.image2array(sq)), sq, "square image to array and back")
    cube = r.normal(size=(k, n, n))
    c2 = u.array2cube(u.cube2array(cube), k, n * n)
    t.same(c2, cube, "cube to array and back")
    # grids
    for num in (n, (n, m), np.array([m, n])):
        x, y = u.make_grid(num, case["dp"], subgrid_res=case["sub"], left_lower=case["ll"])
        nx, ny = (num, num) if np.isscalar(num) else num
        s, d = case["sub"], case["dp"] / case["sub"]
        t.equal(len(x), nx * ny * s * s, "number of grid points")
        X, Y = np.asarray(x).reshape(ny * s, nx * s), np.asarray(y).reshape(ny * s, nx * s)
        ex = np.arange(nx * s) * d
        ey = np.arange(ny * s) * d
        if case["ll"]:
            ex, ey = ex - (s - 1) / 2 * d, ey - (s - 1) / 2 * d
        else:
            ex, ey = ex - ex.mean(), ey - ey.mean()
        t.close(X, np.broadcast_to(ex, X.shape), "x-coordinates of the grid", 1e-9, 1e-10)
        t.close(Y, np.broadcast_to(ey[:, None], Y.shape), "y-coordinates of the grid", 1e-9, 1e-10)
    x, y = u.make_grid(n, case["dp"])
    ax, ay = u.get_axes(x + 0.3, y - 0.1)
    t.close(ax, np.unique(np.round(x, 12)) + 0.3, "x-axis", 1e-9, 1e-10)
    t.close(ay, np.unique(np.round(y, 12)) - 0.1, "y-axis", 1e-9, 1e-10)
    T = r.normal(size=(2, 2))
    kw = u.centered_coordinate_system(n, T)
    c = np.array([kw["ra_at_xy_0"], kw["dec_at_xy_0"]]) + T @ np.full(2, (n - 1) / 2)
    t.close(c, [0, 0], "centre of the centred coordinate system", 0, 1e-9)
    xt, yt = u.make_grid_transformed(n, T)
    gx, gy = u.grid_from_coordinate_transform(n, n, T, kw["ra_at_xy_0"], kw["dec_at_xy_0"])
    t.close(xt, gx, "transformed grid in ra", 1e-9, 1e-9)
    t.close(yt, gy, "transformed grid in dec", 1e-9, 1e-9)
    # minima
    z = r.integers(0, 4, (n, n)).astype(float) if case["flat"] else r.normal(size=(n, n))
    mx, my, mv = u.local_minima_2d(z.ravel(), x, y)
    got = {(round(float(p), 9), round(float(q), 9)) for p, q in zip(mx, my)}
    want = set()
    for i in range(1, n - 1):
        for j in range(1, n - 1):
            w = z[i - 1 : i + 2, j - 1 : j + 2].ravel()
            if np.all(np.delete(w, 4) > w[4]):
                want.add((round(float(x[i * n + j]), 9), round(float(y[i * n + j]), 9)))
    inner = {p for p in got if max(abs(p[0]), abs(p[1])) < (n - 2) / 2 * case["dp"]}
    t.equal(inner, want, "local minima away from the edge")
    for p, q, w in zip(mx, my, mv):
        i = int(np.argmin((x - p) ** 2 + (y - q) ** 2))
        t.close(w, z.ravel()[i], "value at a minimum", 1e-12)
    # rebinning and cutting
    f = case["sub"]
    big = r.normal(size=(n * f, m * f))
    sm = iu.re_size(big, f)
    t.close(sm, big.reshape(n, f, m, f).sum(axis=(1, 3)) / f**2, "block average", 1e-9, 1e-12)
    e = r.normal(size=(n + 4, n + 4))
    t.same(iu.cut_edges(e, n), e[2:-2, 2:-2], "cut edges")
    # symmetric averages
    o = r.uniform(0, 1, (2 * (n // 2) + 1,) * 2)
    s_ = iu.symmetry_average(o, case["sym"])
    if case["sym"] == 1:
        t.close(s_, o, "one-fold symmetry", 1e-9, 1e-9)
    else:
        ref = (o + np.rot90(o, 2)) / 2 if case["sym"] == 2 else (o + np.rot90(o) + np.rot90(o, 2) + np.rot90(o, 3)) / 4
        h = o.shape[0]
        t.close(s_[1 : h - 1, 1 : h - 1], ref[1 : h - 1, 1 : h - 1], "symmetric average", 1e-6, 1e-6)
    # radial profile
    cen = [float(r.integers(0, n)), float(r.integers(0, n))]
    prof = iu.radial_profile(sq, cen)
    yy, xx = np.indices(sq.shape)
    rr = np.hypot(xx - cen[0], yy - cen[1]).astype(int)
    for i in range(len(prof)):
        if np.any(rr == i):
            t.close(prof[i], sq[rr == i].mean(), "radial profile", 1e-9, 1e-12)
    # selections of components
    q = r.integers(0, 2, n).astype(bool)
    idx = np.flatnonzero(q)
    want = q.tolist()
    t.equal([bool(b) for b in u.convert_bool_list(n, want)], want, "selection by booleans")
    t.equal([bool(b) for b in u.convert_bool_list(n, [int(i) for i in idx])], want, "selection by a list of indices")
    t.equal([bool(b) for b in u.convert_bool_list(n, tuple(int(i) for i in idx))], want, "selection by a tuple of indices")
    t.equal([bool(b) for b in u.convert_bool_list(n, np.array(idx))], want, "selection by an array of indices")
    j = int(r.integers(0, n))
    t.equal([bool(b) for b in u.convert_bool_list(n, j)], [i == j for i in range(n)], "selection by an index")
    t.equal([bool(b) for b in u.convert_bool_list(n)], [True] * n, "no selection")
    vs = np.array([[np.cos(p) * 2 + 1, np.sin(p) * 0.5 - 3] for p in np.linspace(0, 2 * np.pi, 40 + n)])
    po = np.array(vs)
    sho = 0.5 * abs(np.sum(po[:-1, 0] * po[1:, 1] - po[1:, 0] * po[:-1, 1]))
    t.close(u.area(vs), sho, "area of a polygon", 1e-8)
    t.nontrivial(True)


def par_case():
    return st.fixed_dictionaries(dict(phi=g.uni(-7, 7), q=g.uni(0.05, 0.999), gam=g.uni(1e-3, 0.5), r=g.logf(0.01, 10), cx=g.uni(-2, 2), cy=g.uni(-2, 2), seed=st.integers(0, 10**6), s=g.logf(1e-3, 1e3)))


@PROP.facet("parameters", par_case, quick=300, thorough=4000)
def parameters(case, t):
    from lenstronomy.Util import param_util as p
    from lenstronomy.Util import util as u

    phi, q = case["phi"], case["q"]
    r = np.random.default_rng(case["seed"])
    e1, e2 = p.phi_q2_ellipticity(phi, q)
    a, b = p.ellipticity2phi_q(e1, e2)
    t.close(b, q, "axis ratio round trip", 1e-8)
    t.close([np.cos(2 * a), np.sin(2 * a)], [np.cos(2 * phi), np.sin(2 * phi)], "position angle round trip", 1e-6, 1e-7 / (1 - q + 1e-9))
    g1, g2 = p.shear_polar2cartesian(phi, case["gam"])
    a, b = p.shear_cartesian2polar(g1, g2)
    t.close(b, case["gam"], "shear strength round trip", 1e-9)
    t.close([np.cos(2 * a), np.sin(2 * a)], [np.cos(2 * phi), np.sin(2 * phi)], "shear angle round trip", 1e-8, 1e-9)
    x, y = r.normal(size=(2, 6)) * 2
    rr, ph = p.cart2polar(x, y, center_x=case["cx"], center_y=case["cy"])
    t.close(rr * np.cos(ph) + case["cx"], x, "polar coordinates", 1e-9, 1e-9)
    t.close(rr * np.sin(ph) + case["cy"], y, "polar coordinates", 1e-9, 1e-9)
    rr, ph = p.cart2polar(x, y)
    bx, by = p.polar2cart(rr, ph, center=np.array([0.0, 0.0]))
    t.close(bx, x, "polar round trip", 1e-9, 1e-9)
    t.close(by, y, "polar round trip", 1e-9, 1e-9)
    # elliptical coordinates: the curve of constant transformed radius is an ellipse of axis ratio q along phi
    w = r.uniform(0, 2 * np.pi, 6)
    A, B = np.cos(w), q * np.sin(w)
    ex, ey = case["cx"] + case["r"] * (A * np.cos(phi) - B * np.sin(phi)), case["cy"] + case["r"] * (A * np.sin(phi) + B * np.cos(phi))
    for f, rad in ((p.transform_e1e2_product_average, case["r"] * np.sqrt(q)), (p.transform_e1e2_square_average, None)):
        xx, yy = f(ex, ey, e1, e2, case["cx"], case["cy"])
        R = np.hypot(xx, yy)
        t.close(R, np.full(6, R[0]), "elliptical coordinates on an ellipse", 1e-6)
        if rad is not None:
            t.close(R[0], rad, "product-average radius", 1e-6)
        else:
            t.close(R[0], case["r"] * np.sqrt(2 * q**2 / (1 + q**2)), "square-average radius", 1e-6)
    xx, yy = p.transform_e1e2_product_average(x, y, e1, e2, case["cx"], case["cy"])
    x2, y2 = p.elliptical_distortion_product_average(x, y, e1, e2, case["cx"], case["cy"])
    t.close(x2, xx + case["cx"], "elliptical distortion", 1e-9, 1e-10)
    t.close(y2, yy + case["cy"], "elliptical distortion", 1e-9, 1e-10)
    x3, y3 = p.transform_e1e2_product_average_old(x, y, e1, e2, case["cx"], case["cy"])
    t.close(np.hypot(x3, y3), np.hypot(xx, yy), "former elliptical coordinates", 1e-6, 1e-9)
    t.close(u.fwhm2sigma(u.sigma2fwhm(case["s"])), case["s"], "width round trip", 1e-10)
    s = case["s"]
    t.close(np.exp(-((u.sigma2fwhm(s) / 2) ** 2) / 2 / s**2), 0.5, "half maximum", 1e-9)
    xr, yr = u.rotate(x, y, phi)
    z = (x + 1j * y) * np.exp(-1j * phi)
    t.close(xr, z.real, "rotation", 1e-9, 1e-9)
    t.close(yr, z.imag, "rotation", 1e-9, 1e-9)
    n = int(r.integers(3, 9))
    for ends in (True, False):
        cx_, cy_ = u.points_on_circle(case["r"], n, connect_ends=ends)
        t.equal(len(cx_), n, "number of points on the circle")
        t.close(np.hypot(cx_, cy_), np.full(n, case["r"]), "radius of the points", 1e-9)
        steps = np.hypot(np.diff(cx_), np.diff(cy_))
        t.close(steps, np.full(n - 1, 2 * case["r"] * np.sin(np.pi / (n - 1 if ends else n))), "spacing of the points", 1e-8, 1e-9)
    t.nontrivial(True)


def mask_case():
    return st.fixed_dictionaries(dict(cx=st.sampled_from([0.0, 0.3, -1.0]), cy=st.sampled_from([0.0, -0.7, 1.0]), r1=g.uni(0.2, 2), w=g.uni(0.3, 3), phi0=st.one_of(st.just(0.0), g.uni(-np.pi, np.pi)), dphi=st.one_of(st.just(2 * np.pi), g.uni(0.1, 6.2)), n=st.integers(5, 25)))


@PROP.facet("half-moon", mask_case, quick=200, thorough=3000)
def half_moon(case, t):
    from lenstronomy.Util import mask_util as mu
    from lenstronomy.Util import util as u

    x, y = u.make_grid(case["n"], 0.5)
    r2 = case["r1"] + case["w"]
    kw = {} if case["dphi"] == 2 * np.pi and case["phi0"] == 0 else dict(phi0=case["phi0"], delta_phi=case["dphi"])
    m = np.asarray(mu.mask_half_moon(x, y, case["cx"], case["cy"], case["r1"], r2, **kw))
    dx, dy = x - case["cx"], y - case["cy"]
    R = np.hypot(dx, dy)
    # angle from the direction phi0 measured from the y-axis towards x
    c = (dx * np.sin(case["phi0"]) + dy * np.cos(case["phi0"])) / np.maximum(R, 1e-12)
    sep = np.arccos(np.clip(c, -1, 1))
    want = (R > case["r1"]) & (R < r2) & (sep < case["dphi"] / 2)
    if case["dphi"] >= 2 * np.pi:
        want = (R > case["r1"]) & (R < r2)
        edge = np.zeros_like(want)
    else:
        edge = abs(sep - case["dphi"] / 2) < 1e-6
    edge = edge | (abs(R - case["r1"]) < 1e-9) | (abs(R - r2) < 1e-9)
    t.equal(m.shape, x.shape, "shape of the mask")
    t.same(m[~edge] > 0, want[~edge], "pixels inside the half moon")
    t.true(set(np.unique(m)) <= {0, 1}, "values of the mask")
    t.label("across" if abs(case["phi0"]) + case["dphi"] / 2 > np.pi and case["dphi"] < 2 * np.pi else "plain")
    t.nontrivial(0 < want.sum() < len(want))


def shape_case():
    return st.fixed_dictionaries(dict(n=st.integers(5, 25), cx=g.uni(-3, 3), cy=g.uni(-3, 3), a=g.uni(0.3, 6), b=g.uni(0.3, 6), ang=g.uni(-7, 7), e1=g.uni(-0.5, 0.5), e2=g.uni(-0.5, 0.5)))


@PROP.facet("shapes", shape_case, quick=200, thorough=3000)
def shapes(case, t):
    from lenstronomy.Util import mask_util as mu
    from lenstronomy.Util import util as u

    c = case
    x, y = u.make_grid(c["n"], 0.5)
    dx, dy = x - c["cx"], y - c["cy"]
    R = np.hypot(dx, dy)

    def cmp(mask, level, what):
        """pixels with level <= 1 belong to the shape"""
        mask = np.asarray(mask)
        t.equal(mask.shape, x.shape, "shape of the " + what)
        t.true(set(np.unique(mask)) <= {0, 1}, "values of the " + what)
        sure = abs(level - 1) > 1e-9
        t.same(mask[sure] > 0, level[sure] <= 1, "pixels of the " + what)

    cmp(mu.mask_azimuthal(x, y, c["cx"], c["cy"], c["a"]), R / c["a"], "circular mask")
    cmp(1 - np.asarray(mu.mask_center_2d(c["cx"], c["cy"], c["a"], x, y)), R / c["a"], "central mask")
    # ellipse with axis a along the direction of the angle, counter-clockwise from the x-axis
    xr, yr = np.cos(c["ang"]) * dx + np.sin(c["ang"]) * dy, -np.sin(c["ang"]) * dx + np.cos(c["ang"]) * dy
    lev = (xr / c["a"]) ** 2 + (yr / c["b"]) ** 2
    cmp(mu.mask_ellipse(x, y, c["cx"], c["cy"], c["a"], c["b"], c["ang"]), lev, "elliptical mask")
    # eccentricity: axis ratio q along phi, product-averaged radius
    e = np.hypot(c["e1"], c["e2"])
    if e < 0.65:
        q, phi = (1 - e) / (1 + e), np.arctan2(c["e2"], c["e1"]) / 2
        xm, ym = np.cos(phi) * dx + np.sin(phi) * dy, -np.sin(phi) * dx + np.cos(phi) * dy
        cmp(mu.mask_eccentric(x, y, c["cx"], c["cy"], c["e1"], c["e2"], c["a"]), (q * xm**2 + ym**2 / q) / c["a"] ** 2, "eccentric mask")
    cmp(mu.mask_shell(x, y, c["cx"], c["cy"], c["a"], c["a"] + c["b"]), np.where((R >= c["a"]) & (R < c["a"] + c["b"]), 0.0, 2.0), "ring mask")
    t.nontrivial(0 < (lev <= 1).sum() < len(lev) and abs(c["a"] - c["b"]) > 0.2)


def ker_case():
    return st.fixed_dictionaries(dict(n=st.sampled_from([7, 9, 11, 15, 21]), ss=st.integers(1, 5), fwhm=g.uni(2.0, 5), beta=g.uni(1.5, 5), dp=g.logf(0.03, 1), seed=st.integers(0, 10**6), norm=g.logf(0.1, 10)))


@PROP.facet("kernels", ker_case, quick=200, thorough=3000)
def kernels(case, t):
    from lenstronomy.Util import kernel_util as ku

    r = np.random.default_rng(case["seed"])
    n, dp = case["n"], case["dp"]
    f = case["fwhm"] * dp
    k = ku.kernel_moffat(n, dp, f, case["beta"])
    i = (np.arange(n) - (n - 1) / 2) * dp
    rr = np.hypot(*np.meshgrid(i, i))
    al = f / 2 / np.sqrt(2 ** (1 / case["beta"]) - 1)
    ref = (1 + (rr / al) ** 2) ** (-case["beta"])
    t.close(k, ref / ref.sum(), "Moffat kernel", 1e-7)
    k2 = ku.kernel_gaussian(n, dp, f)
    ref = np.exp(-(rr**2) / 2 / (f / 2.354820045) ** 2)
    t.close(k2, ref / ref.sum(), "Gaussian kernel", 1e-6)
    # averaging over a pixel: normalisation and the uniform-source definition
    s = r.uniform(0.1, 1, (n, n)) * case["norm"]
    ss = case["ss"]
    a = ku.kernel_average_pixel(s, ss)
    t.close(a.sum(), s.sum(), "flux of the pixel-averaged kernel", 1e-7)
    t.true(a.shape[0] == a.shape[1] and a.shape[0] % 2 == 1 and np.all(a >= -1e-12), "shape and sign of the averaged kernel")
    sy = s + s[::-1, ::-1]
    a = ku.kernel_average_pixel(sy, ss)
    t.close(a, a[::-1, ::-1], "symmetry of the averaged kernel", 1e-6, 1e-8)
    if ss == 1:
        c = (a.shape[0] - n) // 2
        t.close(a[c : c + n, c : c + n], sy, "kernel averaged at its own resolution", 1e-8)
    if ss % 2 == 1:
        # uniform pixel of ss x ss points convolved with the kernel, binned to pixels
        from scipy.signal import convolve2d

        big = convolve2d(np.ones((ss, ss)), s, mode="full")
        m = ((big.shape[0] // ss) // 2 * 2 + 3) * ss
        o = np.zeros((m, m))
        c = (m - big.shape[0]) // 2
        o[c : c + big.shape[0], c : c + big.shape[0]] = big
        o = o.reshape(m // ss, ss, m // ss, ss).sum(axis=(1, 3)) / ss**2
        a = ku.kernel_average_pixel(s, ss)
        d = (o.shape[0] - a.shape[0]) // 2
        o = o[d : o.shape[0] - d, d : o.shape[0] - d] if d >= 0 else np.pad(o, -d)
        t.close(a, o * s.sum() / o.sum(), "kernel averaged over a pixel", 1e-6, 1e-9)
    if n >= 2.2 * case["fwhm"]:
        w = ku.fwhm_kernel(ku.kernel_gaussian(n, 1.0, case["fwhm"]))
        t.true(abs(w - case["fwhm"]) < 1.0, "full width at half maximum of a kernel: %s %s" % (w, case["fwhm"]))
        t.close(ku.fwhm_kernel(ku.kernel_gaussian(n, 1.0, case["fwhm"]) * case["norm"]), w, "width and normalisation", 1e-8)
    t.nontrivial(ss > 1)
