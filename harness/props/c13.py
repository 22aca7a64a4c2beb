"""C13: data coordinates, pixel grids, noise model and likelihood of imaging data."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C13",
    title="Data coordinates, pixel grids, noise and pixel likelihood are consistent",
    statement=(
        "The maps between pixels and sky coordinates of image data are inverses of each other for every (rotated, sheared, mirrored) "
        "pixel grid and non-square image, the pixel coordinates are the map of the pixel indices, and after any history of shifts and rotations everything "
        "equals a newly built object with the final shift and rotation. The variance of a pixel is Poisson plus background (or the given noise map), the "
        "log-likelihood is -chi^2/2 over the unmasked pixels, both follow updates of the data, and arrays passed in are never modified. "
        "Re-gridding helpers (sub-grids, binning, cropping, stacking, adding a kernel to an image) preserve positions and flux."
    ),
    over=("inputs", "histories"),
    quant="all pixel-to-angle matrices (rotation, parity, anisotropy), image shapes, update histories, data/noise/exposure maps and masks",
    why="tests use square images, axis-aligned grids and one update; axis-order, cache and history errors need non-square images and several operations",
    files=["lenstronomy/Data/coord_transforms.py", "lenstronomy/Data/pixel_grid.py", "lenstronomy/Data/imaging_data.py",
           "lenstronomy/Data/image_noise.py", "lenstronomy/Util/util.py", "lenstronomy/Util/image_util.py"],
    mechanism=["Coordinates.update_coord_transform / map_*", "PixelGrid.update_coordinate_grid", "ImageNoise.C_D", "ImageData.update_data", "util.make_grid*"],
    observe=["map_pix2coord", "map_coord2pix", "pixel_coordinates", "pixel_area", "C_D", "C_D_model", "log_likelihood"],
    rule="non-trivial: the image is non-square or the grid is rotated/sheared/mirrored, and (histories) at least two operations were applied",
    assumptions=["pixel-to-angle matrices are invertible with condition number below about 30"],
)


# ---------------------------------------------------------------- generators
def _matrix(p):
    scale, ratio, phi, shear, flip = p
    c, s = np.cos(phi), np.sin(phi)
    m = np.array([[c, -s], [s, c]]).dot(np.array([[1.0, shear], [0.0, ratio]])) * scale
    if flip:
        m = m.dot(np.diag([-1.0, 1.0]))
    return [[float(v) for v in r] for r in m]


def matrix(square=False):
    if square:
        return st.tuples(g.logf(0.02, 2.0, special=(1.0, 0.05)), st.just(1.0), g.angle(), st.just(0.0), st.booleans()).map(_matrix)
    return st.tuples(g.logf(0.02, 2.0, special=(1.0, 0.05)), g.fl(0.6, 1.6, special=(1.0,)), g.angle(), g.fl(-0.4, 0.4, special=(0.0,)), st.booleans()).map(_matrix)


def dims():
    return st.tuples(st.integers(2, 9), st.integers(2, 9)).map(list)


def grid_case():
    return st.fixed_dictionaries(dict(m=matrix(), n=dims(), ra=g.fl(-5, 5, special=(0.0,)), dec=g.fl(-5, 5, special=(0.0,))))


def ref_grid(m, ra, dec, nx, ny):
    x, y = np.meshgrid(np.arange(nx), np.arange(ny))
    m = np.asarray(m)
    return m[0, 0] * x + m[0, 1] * y + ra, m[1, 0] * x + m[1, 1] * y + dec


def rot(phi):
    return np.array([[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]])


def check_grid(t, obj, m, ra, dec, nx, ny, tag):
    """All public coordinate queries of obj against the affine map (m, ra, dec)."""
    m = np.asarray(m)
    sc = np.max(np.abs(m)) * max(nx, ny) + abs(ra) + abs(dec)
    X, Y = ref_grid(m, ra, dec, nx, ny)
    gx, gy = obj.pixel_coordinates
    t.close(gx, X, tag + " pixel_coordinates RA", rtol=1e-8, atol=1e-8 * sc)
    t.close(gy, Y, tag + " pixel_coordinates DEC", rtol=1e-8, atol=1e-8 * sc)
    jx, jy = np.meshgrid(np.arange(nx), np.arange(ny))
    rx, ry = obj.map_pix2coord(jx.flatten(), jy.flatten())
    t.close(rx, X.flatten(), tag + " map_pix2coord RA", rtol=1e-8, atol=1e-8 * sc)
    t.close(ry, Y.flatten(), tag + " map_pix2coord DEC", rtol=1e-8, atol=1e-8 * sc)
    px, py = obj.map_coord2pix(rx, ry)
    k = 1e-6 * (1 + (abs(ra) + abs(dec)) / np.sqrt(abs(np.linalg.det(m))))
    t.close(px, jx.flatten().astype(float), tag + " map_coord2pix x", atol=k)
    t.close(py, jy.flatten().astype(float), tag + " map_coord2pix y", atol=k)
    # scalars
    sx, sy = obj.map_pix2coord(0.3, 1.7)
    e = m.dot([0.3, 1.7]) + np.array([ra, dec])
    t.close([sx, sy], e, tag + " scalar map_pix2coord", rtol=1e-8, atol=1e-8 * sc)
    t.close(obj.map_coord2pix(sx, sy), [0.3, 1.7], tag + " scalar round trip", atol=k)
    t.close(obj.radec_at_xy_0, [ra, dec], tag + " radec_at_xy_0", atol=1e-9 * sc)
    x0, y0 = obj.xy_at_radec_0
    z = obj.map_pix2coord(x0, y0)
    t.close(z, [0.0, 0.0], tag + " xy_at_radec_0 is mapped to the origin", atol=1e-7 * sc)
    t.close(np.dot(obj.transform_pix2angle, obj.transform_angle2pix), np.eye(2), tag + " transforms are inverses", atol=1e-9)
    t.close(obj.transform_pix2angle, m, tag + " transform_pix2angle", rtol=1e-9, atol=1e-9 * np.max(np.abs(m)))
    area = abs(np.linalg.det(m))
    t.close(obj.pixel_area, area, tag + " pixel_area", rtol=1e-8)
    t.close(obj.pixel_width, np.sqrt(area), tag + " pixel_width", rtol=1e-8)
    t.equal(tuple(obj.num_pixel_axes), (nx, ny), tag + " num_pixel_axes")
    t.equal(int(obj.num_pixel), nx * ny, tag + " num_pixel")
    t.close(obj.width, (nx * np.sqrt(area), ny * np.sqrt(area)), tag + " width", rtol=1e-8)
    t.close(obj.center, [np.mean(X), np.mean(Y)], tag + " center", atol=1e-8 * sc)


# ---------------------------------------------------------------- grids and histories
def op():
    v = g.fl(-2, 2, special=(0.0, 0.0, 0.1))
    upd = st.fixed_dictionaries(dict(op=st.just("update"), ra=st.one_of(st.none(), v), dec=st.one_of(st.none(), v),
                                     phi=st.one_of(st.none(), g.angle())))
    return upd


def history_case():
    return st.fixed_dictionaries(dict(base=grid_case(), cls=st.sampled_from(["PixelGrid", "ImageData"]), ops=st.lists(op(), min_size=0, max_size=5),
                                      init=st.one_of(st.none(), st.tuples(g.fl(-1, 1), g.fl(-1, 1), g.angle()).map(list)),
                                      shift=st.one_of(st.none(), st.tuples(g.fl(-3, 3), g.fl(-3, 3), st.booleans()).map(list))))


@PROP.facet("coordinate-history", history_case, quick=400, shards=2)
def coordinate_history(case, t):
    from lenstronomy.Data.imaging_data import ImageData
    from lenstronomy.Data.pixel_grid import PixelGrid

    b = case["base"]
    nx, ny = b["n"]
    m0 = np.array(b["m"])
    m_in = m0.copy()
    ra0, dec0 = b["ra"], b["dec"]
    if case["cls"] == "PixelGrid":
        obj = PixelGrid(nx=nx, ny=ny, transform_pix2angle=m_in, ra_at_xy_0=ra0, dec_at_xy_0=dec0)
        mref = m0
    else:
        data = np.zeros((ny, nx))
        kw = {}
        mref = m0
        if case["init"] is not None:
            s1, s2, ph = case["init"]
            kw = dict(ra_shift=s1, dec_shift=s2, phi_rot=ph)
            mref = m0.dot(rot(ph))
            ra0, dec0 = ra0 + s1, dec0 + s2
        obj = ImageData(data, transform_pix2angle=m_in, ra_at_xy_0=b["ra"], dec_at_xy_0=b["dec"], **kw)
    t.label(case["cls"])
    check_grid(t, obj, mref, ra0, dec0, nx, ny, "initial")
    cur = dict(ra=0.0, dec=0.0, phi=0.0)
    init = case["cls"] == "ImageData" and case["init"] is not None
    for i, o in enumerate([] if init else case["ops"]):
        new = dict(cur)
        for k in ("ra", "dec", "phi"):
            if o[k] is not None:
                new[k] = o[k]
        changed = new != cur
        cur = new
        ret = obj.update_coordinate_grid(ra_shift=o["ra"], dec_shift=o["dec"], phi_rot=o["phi"])
        t.equal(bool(ret), changed, "update_coordinate_grid reports whether the grid changed (step %d)" % i)
        check_grid(t, obj, mref.dot(rot(cur["phi"])), ra0 + cur["ra"], dec0 + cur["dec"], nx, ny, "after update %d" % i)
    if case["shift"] is not None and not init:
        sx, sy, pix = case["shift"]
        m = mref.dot(rot(cur["phi"]))
        d = m.dot([sx, sy]) if pix else np.array([sx, sy])
        obj.shift_coordinate_system(sx, sy, pixel_unit=pix)
        check_grid(t, obj, m, ra0 + cur["ra"] + d[0], dec0 + cur["dec"] + d[1], nx, ny, "after shift_coordinate_system")
    t.same(m_in, m0, "the transform passed in is not modified")
    t.nontrivial(len(case["ops"]) >= 2 and not init)


# ---------------------------------------------------------------- noise model
def noise_case():
    return st.fixed_dictionaries(dict(
        n=dims(), seed=st.integers(0, 10 ** 6), kind=st.sampled_from(["scalar", "map", "noise_map", "noise_map+exp"]),
        amp=g.logf(0.01, 100), exp=g.logf(0.1, 1e4), bkg=g.logf(1e-3, 10), zero=st.booleans(), boost=st.one_of(st.none(), st.none(), g.logf(0.01, 1)),
        history=st.lists(st.sampled_from(["C_D", "C_D_model", "update", "logL", "background_rms"]), min_size=1, max_size=6), err=st.booleans(),
        int_exp=st.booleans()))


def _var(d, bkg, exp, boost):
    grad = 0.0
    if boost is not None:
        grad = boost * _sobel(d)
    return np.where(d > 0, d, 0.0) / exp + bkg ** 2 + grad ** 2


def _sobel(d):
    from skimage import filters

    return filters.sobel(d)


@PROP.facet("noise-and-likelihood", noise_case, quick=400, shards=2)
def noise(case, t):
    from lenstronomy.Data.imaging_data import ImageData

    rng = np.random.RandomState(case["seed"])
    nx, ny = case["n"]
    d = rng.normal(0.3, 1, (ny, nx)) * case["amp"]
    kw = dict(background_rms=case["bkg"], gradient_boost_factor=case["boost"])
    exp = case["exp"]
    kind = case["kind"]
    if kind == "scalar":
        exp = int(exp) + 1 if case["int_exp"] else exp
        kw["exposure_time"] = exp
    elif kind == "map":
        exp = exp * rng.uniform(0.5, 2, (ny, nx))
        if case["zero"]:
            exp[rng.uniform(size=(ny, nx)) < 0.3] = 0.0
        kw["exposure_time"] = exp.copy()
    else:
        nm = rng.uniform(0.1, 2, (ny, nx)) * case["bkg"]
        kw["noise_map"] = nm.copy()
        if kind == "noise_map":
            kw["background_rms"] = None
        else:
            kw["exposure_time"] = exp
    kw_in = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    d_in = d.copy()
    obj = ImageData(d_in, **kw)
    t.label(kind)
    e = np.maximum(exp, 1e-10)

    def var(x):
        return nm ** 2 if "noise_map" in kind else _var(x, case["bkg"], e, case["boost"])

    cur = d
    nupd = 0
    for h in list(case["history"]) + ["C_D", "logL"]:
        model = rng.normal(0.3, 1, (ny, nx)) * case["amp"]
        if h == "update":
            cur = rng.normal(0.3, 1, (ny, nx)) * case["amp"]
            obj.update_data(cur.copy())
            nupd += 1
        elif h == "C_D":
            t.close(obj.C_D, var(cur), "C_D after %d updates" % nupd, rtol=1e-8, atol=0)
        elif h == "C_D_model":
            t.close(obj.C_D_model(model), var(model), "C_D_model", rtol=1e-8, atol=0)
        elif h == "background_rms":
            exp_b = np.median(nm) if kind == "noise_map" else case["bkg"]
            t.close(obj.background_rms, exp_b, "background_rms", rtol=1e-10)
        else:
            mask = (rng.uniform(size=(ny, nx)) < 0.7).astype(float)
            err = rng.uniform(0, 1, (ny, nx)) * case["bkg"] if case["err"] else 0
            m_in, k_in = model.copy(), mask.copy()
            ll = obj.log_likelihood(m_in, k_in, err) if case["err"] else obj.log_likelihood(m_in, k_in)
            ref = -0.5 * np.sum((mask * (model - cur) ** 2 / (var(model) + err)))
            t.close(ll, ref, "log_likelihood after %d updates" % nupd, rtol=1e-7, atol=1e-10)
            # pixels outside the mask have no influence
            m2 = np.where(mask > 0, model, model + 7 * case["amp"])
            if case["boost"] is None:
                t.close(obj.log_likelihood(m2, mask, err), ref, "masked pixels do not count", rtol=1e-7, atol=1e-10)
            t.same(m_in, model, "model not modified")
            t.same(k_in, mask, "mask not modified")
        t.same(obj.data, cur, "data")
    for k, v in kw.items():
        if isinstance(v, np.ndarray):
            t.same(v, kw_in[k], "%s passed by the user is not modified" % k)
    t.same(d_in, d, "data passed by the user is not modified")
    for bad in [(ny + 1, nx), (ny, nx + 1)]:
        try:
            obj.update_data(np.zeros(bad))
        except ValueError:
            continue
        t.fail("update_data accepts an image of shape %s for data of shape %s" % (bad, (ny, nx)))
    t.nontrivial(nx != ny or nupd > 0)


def interf_case():
    return st.fixed_dictionaries(dict(n=dims(), seed=st.integers(0, 10 ** 6), bkg=g.logf(1e-2, 10), const=g.fl(-10, 10), pb=st.booleans()))


@PROP.facet("interferometric-likelihood", interf_case, quick=80)
def interferometric(case, t):
    """Natural-weighting likelihood: -(x^T A x - 2 x^T d)/(2 sigma^2) + const, with A x given."""
    from lenstronomy.Data.imaging_data import ImageData

    rng = np.random.RandomState(case["seed"])
    nx, ny = case["n"]
    d = rng.normal(size=(ny, nx))
    x = rng.normal(size=(ny, nx))
    ax = rng.normal(size=(ny, nx))
    pb = rng.uniform(size=(ny, nx)) if case["pb"] else None
    obj = ImageData(d, background_rms=case["bkg"], exposure_time=1.0, likelihood_method="interferometry_natwt",
                    log_likelihood_constant=case["const"], antenna_primary_beam=pb)
    ll = obj.log_likelihood([x, ax], np.ones((ny, nx)))
    ref = -(np.sum(x * ax) - 2 * np.sum(x * d)) / (2 * case["bkg"] ** 2) + case["const"]
    t.close(ll, ref, "log_likelihood", rtol=1e-7, atol=1e-7 * nx * ny / case["bkg"] ** 2)
    t.equal(obj.likelihood_method(), "interferometry_natwt", "likelihood_method")
    if pb is None:
        t.true(obj.primary_beam is None, "no primary beam")
    else:
        t.same(obj.primary_beam, pb, "primary beam")
        if nx != ny:
            try:
                ImageData(d, background_rms=1.0, exposure_time=1.0, antenna_primary_beam=pb.T)
            except ValueError:
                pass
            else:
                t.fail("a primary beam of transposed shape is accepted")
    t.nontrivial(nx != ny)


# ---------------------------------------------------------------- grid helpers
def helper_case():
    return st.fixed_dictionaries(dict(n=dims(), delta=g.logf(0.01, 3, special=(1.0, 0.05)), s=st.integers(1, 5), c=st.tuples(g.fl(-3, 3), g.fl(-3, 3)).map(list),
                                      left=st.booleans(), inv=st.booleans(), m=matrix(True)))


@PROP.facet("grid-helpers", helper_case, quick=300)
def grid_helpers(case, t):
    from lenstronomy.Util import util

    nx, ny = case["n"]
    dlt, s = case["delta"], case["s"]
    left = case["left"]
    # make_grid: sub-pixels of a pixel are spread evenly around the pixel centre
    x, y = util.make_grid((nx, ny), dlt, subgrid_res=s, left_lower=left)
    X, Y = util.make_grid((nx, ny), dlt, subgrid_res=1, left_lower=left)
    t.shape(x, (nx * ny * s * s,), "make_grid")
    jx, jy = np.meshgrid(np.arange(nx), np.arange(ny))
    o = (0.0, 0.0) if left else ((nx - 1) / 2.0, (ny - 1) / 2.0)
    t.close(X, ((jx - o[0]) * dlt).flatten(), "make_grid x", atol=1e-9 * dlt * 10)
    t.close(Y, ((jy - o[1]) * dlt).flatten(), "make_grid y", atol=1e-9 * dlt * 10)
    xm = x.reshape(ny, s, nx, s)
    ym = y.reshape(ny, s, nx, s)
    off = (np.arange(s) - (s - 1) / 2.0) / s * dlt
    t.close(xm, X.reshape(ny, 1, nx, 1) + off.reshape(1, 1, 1, s) + np.zeros((ny, s, nx, s)), "sub-grid x (left_lower=%s)" % left, atol=1e-8 * dlt * 10)
    t.close(ym, Y.reshape(ny, 1, nx, 1) + off.reshape(1, s, 1, 1) + np.zeros((ny, s, nx, s)), "sub-grid y (left_lower=%s)" % left, atol=1e-8 * dlt * 10)
    # with coordinate transform: square grids
    n = nx
    ra, dec, ra0, dec0, x0, y0, p2c, c2p = util.make_grid_with_coordtransform(n, dlt, subgrid_res=s, center_ra=case["c"][0], center_dec=case["c"][1],
                                                                              left_lower=left, inverse=case["inv"])
    N = n * s
    sx = -1.0 if case["inv"] else 1.0
    ix, iy = np.meshgrid(np.arange(N), np.arange(N))
    mid = (s - 1) / 2.0 if left else (N - 1) / 2.0
    sc = dlt * n + 10
    t.close(ra, (sx * (ix - mid) * dlt / s + case["c"][0]).flatten(), "make_grid_with_coordtransform RA", atol=1e-9 * sc)
    t.close(dec, ((iy - mid) * dlt / s + case["c"][1]).flatten(), "make_grid_with_coordtransform DEC", atol=1e-9 * sc)
    a, b = util.map_coord2pix(ix.flatten(), iy.flatten(), ra0, dec0, p2c)
    t.close(a, ra, "pix2coord transform RA", atol=1e-9 * sc)
    t.close(b, dec, "pix2coord transform DEC", atol=1e-9 * sc)
    a, b = util.map_coord2pix(ra, dec, x0, y0, c2p)
    t.close(a, ix.flatten().astype(float), "coord2pix transform x", atol=1e-6 * (1 + sc / dlt * s))
    t.close(b, iy.flatten().astype(float), "coord2pix transform y", atol=1e-6 * (1 + sc / dlt * s))
    # from a transform
    m = np.array(case["m"])
    gx, gy = util.grid_from_coordinate_transform(nx, ny, m, case["c"][0], case["c"][1])
    RX, RY = ref_grid(m, case["c"][0], case["c"][1], nx, ny)
    t.close(gx, RX.flatten(), "grid_from_coordinate_transform RA", atol=1e-9 * 100)
    t.close(gy, RY.flatten(), "grid_from_coordinate_transform DEC", atol=1e-9 * 100)
    tx, ty = util.make_grid_transformed(n, m)
    CX, CY = ref_grid(m, 0, 0, n, n)
    t.close(tx, (CX - CX.mean()).flatten(), "make_grid_transformed RA", atol=1e-8)
    t.close(ty, (CY - CY.mean()).flatten(), "make_grid_transformed DEC", atol=1e-8)
    kc = util.centered_coordinate_system(n, m)
    DX, DY = ref_grid(m, kc["ra_at_xy_0"], kc["dec_at_xy_0"], n, n)
    t.close([DX.mean(), DY.mean()], [0, 0], "centered_coordinate_system is centred", atol=1e-8)
    # sub-grid of a rotated square grid
    kx, ky = util.grid_from_coordinate_transform(n, n, m, case["c"][0], case["c"][1])
    ux, uy = util.make_subgrid(kx, ky, s)
    fx, fy = np.meshgrid((np.arange(N) - (s - 1) / 2.0) / s, (np.arange(N) - (s - 1) / 2.0) / s)
    t.close(ux, (m[0, 0] * fx + m[0, 1] * fy + case["c"][0]).flatten(), "make_subgrid RA", atol=1e-8 * 100)
    t.close(uy, (m[1, 0] * fx + m[1, 1] * fy + case["c"][1]).flatten(), "make_subgrid DEC", atol=1e-8 * 100)
    # arrays <-> images
    arr = np.arange(nx * ny, dtype=float)
    im = util.array2image(arr, nx, ny)
    t.shape(im, (ny, nx), "array2image")
    t.same(util.image2array(im), arr, "image2array(array2image)")
    t.close(im[ny - 1, 0], float((ny - 1) * nx), "row order")
    t.nontrivial(nx != ny or s > 1)


def bin_case():
    return st.fixed_dictionaries(dict(n=st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list), f=st.integers(1, 4), seed=st.integers(0, 10 ** 6), m=matrix(True),
                                      k=st.integers(1, 4), s=g.logf(0.01, 3)))


@PROP.facet("binning", bin_case, quick=200)
def binning(case, t):
    from lenstronomy.Util import image_util, util

    rng = np.random.RandomState(case["seed"])
    a, b = case["n"]
    f = case["f"]
    im = rng.normal(size=(a * f, b * f))
    i0 = im.copy()
    out = image_util.re_size(im, f)
    ref = im.reshape(a, f, b, f).mean(axis=(1, 3))
    t.close(out, ref, "re_size averages blocks", rtol=1e-9, atol=1e-12)
    # averaging (square)
    sq = rng.normal(size=(a * f, a * f))
    t.close(util.averaging(sq, a * f, a), sq.reshape(a, f, a, f).mean(axis=(1, 3)), "averaging", rtol=1e-9, atol=1e-12)
    # rebinned coordinate transform
    m = np.array(case["m"])
    ra0, dec0 = rng.normal(size=2)
    c2p = np.linalg.inv(m)
    x0, y0 = c2p.dot([-ra0, -dec0])
    ra, dec, xx, yy, p2c_n, c2p_n = image_util.rebin_coord_transform(f, x0, y0, m, c2p)
    t.close(p2c_n, m * f, "rebinned pix2coord", rtol=1e-9, atol=1e-12)
    t.close(c2p_n, c2p / f, "rebinned coord2pix", rtol=1e-9, atol=1e-12)
    X, Y = ref_grid(m, ra0, dec0, b * f, a * f)
    XN, YN = ref_grid(p2c_n, ra, dec, b, a)
    sc = np.max(np.abs(X)) + np.max(np.abs(Y)) + 1
    t.close(XN, X.reshape(a, f, b, f).mean(axis=(1, 3)), "centre of a binned pixel RA", atol=1e-8 * sc)
    t.close(YN, Y.reshape(a, f, b, f).mean(axis=(1, 3)), "centre of a binned pixel DEC", atol=1e-8 * sc)
    t.close(m.dot([0, 0]) * 0 + p2c_n.dot([xx, yy]) + [ra, dec], [0, 0], "rebinned position of the origin", atol=1e-8 * sc)
    # rebin_image on a square image, possibly with a remainder
    extra = case["k"] % f if f > 1 else 0
    N = a * f + extra
    q = rng.normal(size=(N, N))
    wht = rng.uniform(1, 2, size=(N, N))
    X, Y = ref_grid(m, ra0, dec0, N, N)
    mask = (rng.uniform(size=(N, N)) < 0.2).astype(float)
    ins = [v.copy() for v in (q, wht, X, Y, mask)]
    r = image_util.rebin_image(f, q, wht, case["s"], X, Y, mask)
    c = slice(0, a * f)

    def blk(v):
        return v[c, c].reshape(a, f, a, f)

    t.close(r[0], blk(ins[0]).sum(axis=(1, 3)), "rebinned image sums the flux", rtol=1e-9, atol=1e-10)
    t.close(r[1], blk(ins[1]).mean(axis=(1, 3)), "rebinned weight", rtol=1e-9)
    t.close(r[2], f * case["s"], "rebinned background", rtol=1e-10)
    t.close(r[3], blk(ins[2]).mean(axis=(1, 3)), "rebinned RA", rtol=1e-9, atol=1e-9)
    t.close(r[4], blk(ins[3]).mean(axis=(1, 3)), "rebinned DEC", rtol=1e-9, atol=1e-9)
    t.close(r[5], (blk(ins[4]).sum(axis=(1, 3)) > 0).astype(float), "rebinned mask")
    if f > 1:
        for v, w, nm in zip((q, wht, X, Y, mask), ins, ("image", "weight", "RA", "DEC", "mask")):
            t.same(v, w, "rebin_image does not modify %s" % nm)
    t.same(im, i0, "re_size does not modify the image")
    # cropping keeps the centre
    k = case["k"]
    big = rng.normal(size=(a * 2 + 1 + 2 * k, b * 2 + 1 + 2 * k))
    new = 2 * min(a, b) + 1
    cut = image_util.cut_edges(big, new)
    h = (new - 1) // 2
    cy, cx = (big.shape[0] - 1) // 2, (big.shape[1] - 1) // 2
    t.same(cut, big[cy - h:cy + h + 1, cx - h:cx + h + 1], "cut_edges keeps the central pixels")
    # weighted stack
    ims = [rng.normal(size=(a, b)) for _ in range(k + 1)]
    ws = [rng.uniform(0.5, 2) * np.ones((a, b)) for _ in range(k + 1)]
    sg = list(rng.uniform(0.1, 1, k + 1))
    st_i, st_w, st_s = image_util.stack_images(ims, ws, sg)
    wt = np.sum(ws, axis=0)
    t.close(st_i, np.sum([i * w for i, w in zip(ims, ws)], axis=0) / wt, "stacked image is the weighted mean", rtol=1e-9, atol=1e-10)
    t.close(st_w, wt / (k + 1), "stacked weight", rtol=1e-9)
    t.close(st_s, np.sqrt(np.sum([s_ ** 2 * w[0, 0] for s_, w in zip(sg, ws)]) / wt[0, 0]), "stacked sigma", rtol=1e-9)
    t.nontrivial(f > 1 or a != b)


def layer_case():
    return st.fixed_dictionaries(dict(n=st.tuples(st.integers(3, 14), st.integers(3, 14)).map(list), k=st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list),
                                      pos=st.tuples(g.fl(-6, 20, special=(0.0, 3.0, 2.5)), g.fl(-6, 20, special=(0.0, 4.0, 1.5))).map(list),
                                      seed=st.integers(0, 10 ** 6), integer=st.booleans()))


@PROP.facet("adding-a-layer", layer_case, quick=300)
def add_layer(case, t):
    """add_layer2image(_int): embedding of the kernel in an unbounded image, cropped to the frame."""
    from lenstronomy.Util import image_util

    rng = np.random.RandomState(case["seed"])
    nx, ny = case["n"]
    kx, ky = 2 * case["k"][0] + 1, 2 * case["k"][1] + 1
    ker = rng.uniform(0.1, 1, size=(ky, kx))
    im = rng.normal(size=(ny, nx))
    i0, k0 = im.copy(), ker.copy()
    px, py = case["pos"]
    P = 30
    if case["integer"]:
        px, py = int(round(px)), int(round(py))
        out = image_util.add_layer2image_int(im, px, py, ker)
        big = np.zeros((ny + 2 * P, nx + 2 * P))
        big[py + P - ky // 2:py + P + ky // 2 + 1, px + P - kx // 2:px + P + kx // 2 + 1] += ker
        t.close(out, i0 + big[P:P + ny, P:P + nx], "kernel added at integer position", rtol=1e-9, atol=1e-10)
    else:
        pad = np.zeros((ky + 4, kx + 4))
        pad[2:-2, 2:-2] = ker
        out = image_util.add_layer2image(im, px, py, pad, order=1)
        # bilinear placement
        big = np.zeros((ny + 2 * P, nx + 2 * P))
        fx, fy = int(np.floor(px)), int(np.floor(py))
        wx, wy = px - fx, py - fy
        for dx, ax in ((0, 1 - wx), (1, wx)):
            for dy, ay in ((0, 1 - wy), (1, wy)):
                cy, cx = fy + dy + P, fx + dx + P
                big[cy - ky // 2:cy + ky // 2 + 1, cx - kx // 2:cx + kx // 2 + 1] += ax * ay * ker
        t.close(out, i0 + big[P:P + ny, P:P + nx], "kernel added at fractional position (linear interpolation)", rtol=1e-7, atol=1e-7)
    t.same(im, i0, "image not modified")
    t.same(ker, k0, "kernel not modified")
    t.nontrivial(nx != ny)
