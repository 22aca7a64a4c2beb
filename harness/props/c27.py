"""C27: lens model extensions: stretches, curved arcs, critical curves, finite sources."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C27",
    title="Stretches, arcs, critical curves and finite-source fluxes fit the lens",
    statement=(
        "Eigenvectors and stretches are those of the lensing Jacobian (also in several planes), their product is the magnification, and curved-arc parameters read off a curved-arc lens are the ones it was built with. "
        "Critical curves are where the magnification diverges, and caustics their images. "
        "Finite-source magnifications are the lensed flux over the source flux for every grid and aperture option; all of this moves with the lens under translation and rotation and does not depend on scalar, array or integer input."
    ),
    over=("inputs",),
    quant="lens models (single and multi-plane), positions, arc parameters, centres, source models, grids and apertures",
    why="tests place lenses at the origin and check a few points with coarse tolerance",
    files=["lenstronomy/LensModel/lens_model_extensions.py", "lenstronomy/Util/magnification_finite_util.py", "lenstronomy/LensModel/Arcs/", "lenstronomy/LensModel/Profiles/curved_arc_spp.py"],
    mechanism=["hessian_eigenvectors", "radial_tangential_stretch", "curved_arc_estimate", "critical_curve_caustics", "magnification_finite_adaptive"],
    observe=["LensModelExtensions"],
    rule="non-trivial: off-origin lens or non-zero ellipticity",
    assumptions=["positions closer than a few grid cells to a critical curve are left out of point-value comparisons"],
)


def lens_case():
    return st.fixed_dictionaries(dict(gamma=g.uni(1.6, 2.3), e1=g.uni(-0.25, 0.25), e2=g.uni(-0.25, 0.25), g1=g.uni(-0.08, 0.08), g2=g.uni(-0.08, 0.08), cx=g.uni(-3, 3), cy=g.uni(-3, 3), multi=st.booleans(), pts=st.lists(st.tuples(g.uni(-2, 2), g.uni(-2, 2)).map(list), min_size=2, max_size=5), rot=g.uni(0, 6.28), ints=st.booleans()))


def make(c, x=None, y=None, rot=0.0):
    from lenstronomy.LensModel.lens_model import LensModel

    x, y = c["cx"] if x is None else x, c["cy"] if y is None else y
    r2 = lambda a, b: (a * np.cos(2 * rot) - b * np.sin(2 * rot), a * np.sin(2 * rot) + b * np.cos(2 * rot))
    e, s = r2(c["e1"], c["e2"]), r2(c["g1"], c["g2"])
    kw = [dict(theta_E=1.0, gamma=c["gamma"], e1=e[0], e2=e[1], center_x=x, center_y=y), dict(gamma1=s[0], gamma2=s[1], ra_0=x, dec_0=y)]
    if c.get("multi"):
        d = (0.3 * np.cos(rot) + 0.2 * np.sin(rot), 0.3 * np.sin(rot) - 0.2 * np.cos(rot))
        e3 = r2(-0.1, 0.15)
        kw = kw + [dict(theta_E=0.4, e1=e3[0], e2=e3[1], center_x=x + d[0], center_y=y + d[1])]
        return LensModel(["EPL", "SHEAR", "SIE"], multi_plane=True, lens_redshift_list=[0.4, 0.4, 0.7], z_source=2.0), kw
    return LensModel(["EPL", "SHEAR"]), kw


@PROP.facet("stretch", lens_case, quick=200, shards=4)
def stretch(case, t):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    c = case
    lm, kw = make(c)
    ex = LensModelExtensions(lm)
    p = np.array(c["pts"])
    x, y = p[:, 0] + c["cx"], p[:, 1] + c["cy"]
    if c["ints"]:
        x, y = np.round(x).astype(int), np.round(y).astype(int)
    far = np.hypot(x - c["cx"], y - c["cy"]) > 0.15
    h = np.array(lm.hessian(x.astype(float), y.astype(float), kw))
    tr, det = 2 - h[0] - h[3], (1 - h[0]) * (1 - h[3]) - h[1] * h[2]
    disc = tr**2 / 4 - det
    ok = far & (np.abs(det) > 1e-3) & (disc > 1e-4)
    if not ok.any():
        return t.trivial()
    x, y = x[ok], y[ok]
    h = h[:, ok]
    keep = (x.copy(), y.copy())
    out = ex.hessian_eigenvectors(x, y, kw)
    t.unchanged((x, y), keep, "the positions")
    w1, w2, v11, v12, v21, v22 = out
    for i in range(len(x)):
        A = np.array([[1 - h[0, i], -h[1, i]], [-h[2, i], 1 - h[3, i]]])
        for w, v in ((w1[i], (v11[i], v12[i])), (w2[i], (v21[i], v22[i]))):
            t.close(A.dot(v), w * np.array(v), "eigenvector of the Jacobian", 1e-5, 1e-5)
            t.close(np.hypot(*v), 1.0, "norm of the eigenvector", 1e-6)
        one = ex.hessian_eigenvectors(float(x[i]), float(y[i]), kw)
        t.close(np.sort([float(one[0]), float(one[1])]), np.sort([w1[i], w2[i]]), "eigenvalues at a single position", 1e-6, 1e-8)
    mu = lm.magnification(x.astype(float), y.astype(float), kw)
    for frame in (False, True):
        a = dict(ra_0=c["cx"], dec_0=c["cy"], coordinate_frame_definitions=frame)
        lr, lt, r1, r2, t1, t2 = ex.radial_tangential_stretch(x, y, kw, **a)
        t.close(lr * lt, mu, "product of the stretches", 1e-4)
        t.true(bool(np.all(r1 * (x - c["cx"]) + r2 * (y - c["cy"]) >= -1e-9)), "the radial direction points inwards")
        t.true(bool(np.all(r1 * t2 - r2 * t1 >= -1e-9)), "radial and tangential directions are not right-handed")
        if not frame:
            t.true(bool(np.all(1 / lr >= 1 / lt - 1e-9)), "the tangential direction is not the one stretched most")
        for i in range(len(x)):
            s = [float(q) for q in ex.radial_tangential_stretch(float(x[i]), float(y[i]), kw, **a)]
            t.close(s, [lr[i], lt[i], r1[i], r2[i], t1[i], t2[i]], "stretch at a single position", 1e-5, 1e-5)
            A = np.array([[1 - h[0, i], -h[1, i]], [-h[2, i], 1 - h[3, i]]])
            t.close(A.dot([r1[i], r2[i]]) * lr[i], np.array([r1[i], r2[i]]), "radial stretch", 1e-4, 1e-5)
            t.close(A.dot([t1[i], t2[i]]) * lt[i], np.array([t1[i], t2[i]]), "tangential stretch", 1e-4, 1e-5)
        # translated and rotated system
        cr, sr = np.cos(c["rot"]), np.sin(c["rot"])
        lm2, kw2 = make(c, 0.7, -0.4, c["rot"])
        dx, dy = x - c["cx"], y - c["cy"]
        o = LensModelExtensions(lm2).radial_tangential_stretch(0.7 + dx * cr - dy * sr, -0.4 + dx * sr + dy * cr, kw2, ra_0=0.7, dec_0=-0.4, coordinate_frame_definitions=frame)
        out_r = r1 * dx + r2 * dy
        safe = (np.abs(out_r) > 1e-3) & (np.abs(1 / lr - 1 / lt) > 1e-3)
        pr = [np.abs(r1 * dx + r2 * dy), np.abs(t1 * dx + t2 * dy)]
        if frame:
            safe &= np.abs(pr[0] - pr[1]) > 1e-3
        if safe.any():
            t.close(np.array(o[0])[safe], lr[safe], "radial stretch of the moved system", 1e-4)
            t.close(np.array(o[1])[safe], lt[safe], "tangential stretch of the moved system", 1e-4)
            t.close(np.array([o[2] * cr + o[3] * sr, -o[2] * sr + o[3] * cr])[:, safe], np.array([r1, r2])[:, safe], "radial direction of the moved system", 1e-4, 1e-4)
    t.label("multi" if c["multi"] else "single")
    t.nontrivial(True)


def arc_case():
    return st.fixed_dictionaries(dict(model=st.sampled_from(["CURVED_ARC_SPP", "CURVED_ARC_SIS_MST", "CURVED_ARC_TAN_DIFF", "CURVED_ARC_SPT"]), ts=st.one_of(g.uni(1.5, 8.0), g.uni(-8.0, -1.5)), rs=g.uni(0.8, 1.3), cu=g.uni(0.2, 1.5), di=g.uni(-3.1, 3.1), cx=g.uni(-4, 4), cy=g.uni(-4, 4), dtan=g.uni(-0.1, 0.1), L=lens_case(), r=g.uni(0.75, 1.4), ph=g.uni(0, 6.28)))


@PROP.facet("arcs", arc_case, quick=240, shards=4)
def arcs(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    c = case
    kw = dict(tangential_stretch=c["ts"], radial_stretch=c["rs"], curvature=c["cu"], direction=c["di"], center_x=c["cx"], center_y=c["cy"])
    if c["model"] == "CURVED_ARC_TAN_DIFF":
        kw["dtan_dtan"] = 0.0
    if c["model"] == "CURVED_ARC_SPT":
        kw.update(gamma1=0.0, gamma2=0.0)
    keep = copy.deepcopy(kw)
    ex = LensModelExtensions(LensModel([c["model"]]))
    smooth = 1e-4 if c["model"] == "CURVED_ARC_SPT" else None
    est = ex.curved_arc_estimate(c["cx"], c["cy"], [kw], smoothing=smooth, smoothing_3rd=1e-2 if c["model"] == "CURVED_ARC_TAN_DIFF" else 1e-3)
    t.unchanged(kw, keep, "the arc parameters")
    tol = 2e-2 if c["model"] in ("CURVED_ARC_SPT", "CURVED_ARC_TAN_DIFF") else 5e-3
    t.close([est["tangential_stretch"], est["radial_stretch"]], [c["ts"], c["rs"]], "stretches of the arc", tol)
    t.close(est["curvature"], c["cu"], "curvature of the arc", tol, tol)
    d = np.array([np.cos(est["direction"]), np.sin(est["direction"])])
    t.close(d, np.array([np.cos(c["di"]), np.sin(c["di"])]), "direction of the arc", 0, tol)
    t.close([est["center_x"], est["center_y"]], [c["cx"], c["cy"]], "centre of the arc", 1e-9)
    if c["model"] != "CURVED_ARC_SPT":
        fa = ex.curved_arc_finite_area(c["cx"], c["cy"], [kw], dr=1e-3)
        t.close([fa["tangential_stretch"], fa["radial_stretch"], fa["curvature"]], [c["ts"] if c["ts"] > 0 else -c["ts"], c["rs"], c["cu"]], "arc of the finite area", 0.02, 5e-3)
        t.close([np.cos(fa["direction"]), np.sin(fa["direction"])], d, "direction of the finite-area arc", 0, 0.02)
        t.close(ex.tangential_average(c["cx"], c["cy"], [kw], dr=1e-4), c["ts"], "tangential average", 5e-3)
    # a galaxy lens anywhere, in any orientation
    L = c["L"]
    L = dict(L, multi=False)
    lm, k1 = make(L, 0.0, 0.0)
    lm2, k2 = make(L, rot=L["rot"])
    x, y = c["r"] * np.cos(c["ph"]), c["r"] * np.sin(c["ph"])
    if abs(1 / lm.magnification(x, y, k1)) < 0.02:
        t.nontrivial(True)
        return
    a = LensModelExtensions(lm).curved_arc_estimate(x, y, k1, tan_diff=True)
    cr, sr = np.cos(L["rot"]), np.sin(L["rot"])
    x2, y2 = L["cx"] + x * cr - y * sr, L["cy"] + x * sr + y * cr
    b = LensModelExtensions(lm2).curved_arc_estimate(float(x2), float(y2), k2, tan_diff=True)
    w1, w2 = 1 / a["radial_stretch"], 1 / a["tangential_stretch"]
    if abs(w1 - w2) > 0.1:
        for key in ("radial_stretch", "tangential_stretch", "curvature"):
            t.close(b[key], a[key], key + " of the moved lens", 1e-2, 1e-2)
        if a["curvature"] > 0.05:
            t.close([np.cos(b["direction"]), np.sin(b["direction"])], [np.cos(a["direction"] + L["rot"]), np.sin(a["direction"] + L["rot"])], "direction of the moved lens", 0, 2e-2)
            t.close(b["dtan_dtan"], a["dtan_dtan"], "tangential differential of the moved lens", 2e-2, 2e-2)
    t.nontrivial(True)
    t.label(c["model"])


@PROP.facet("differentials", lens_case, quick=80, shards=2)
def differentials(case, t):
    """Differentials against direct finite differences of the stretches."""
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    c = dict(case, multi=False)
    lm, kw = make(c)
    ex = LensModelExtensions(lm)
    p = np.array(c["pts"])
    r = np.hypot(p[:, 0], p[:, 1])
    x, y = p[:, 0] + c["cx"], p[:, 1] + c["cy"]
    mu = lm.magnification(x, y, kw)
    a = dict(ra_0=c["cx"], dec_0=c["cy"], coordinate_frame_definitions=True)
    lr, lt, r1, r2, t1, t2 = ex.radial_tangential_stretch(x, y, kw, **a)
    pr = np.abs(r1 * p[:, 0] + r2 * p[:, 1]) - np.abs(t1 * p[:, 0] + t2 * p[:, 1])
    ok = (r > 0.3) & (np.abs(1 / mu) > 0.05) & (np.abs(1 / lr - 1 / lt) > 0.1) & (pr > 0.1)
    if not ok.any():
        return t.trivial()
    x, y = x[ok], y[ok]
    out = ex.radial_tangential_differentials(x, y, kw, center_x=c["cx"], center_y=c["cy"])
    lr, lt, r1, r2, t1, t2 = [np.array(q)[ok] for q in (lr, lt, r1, r2, t1, t2)]
    t.close(out[0], lr, "radial stretch", 1e-8)
    t.close(out[1], lt, "tangential stretch", 1e-8)
    e = 1e-4
    fd = []
    for v1, v2 in ((t1, t2), (r1, r2)):
        up = ex.radial_tangential_stretch(x + e * v1, y + e * v2, kw, **a)
        dn = ex.radial_tangential_stretch(x - e * v1, y - e * v2, kw, **a)
        fd.append([(np.array(up[i]) - np.array(dn[i])) / 2 / e for i in range(6)])
    sc = 1 + np.abs(lt) + np.abs(lr)
    t.close(out[3] / sc**2, fd[0][1] / sc**2, "d lambda_tan / d tan", 0.02, 0.02)
    t.close(out[4] / sc**2, fd[1][1] / sc**2, "d lambda_tan / d rad", 0.02, 0.02)
    t.close(out[5] / sc**2, fd[1][0] / sc**2, "d lambda_rad / d rad", 0.02, 0.02)
    t.close(out[6] / sc**2, fd[0][0] / sc**2, "d lambda_rad / d tan", 0.02, 0.02)
    t.close(out[7], np.hypot(fd[0][4], fd[0][5]), "curvature of the tangential lines", 0.02, 0.02)
    t.close(out[8], np.hypot(fd[1][4], fd[1][5]), "turning of the tangent in radial direction", 0.02, 0.02)
    t.close(out[9], np.hypot(fd[1][2], fd[1][3]), "curvature of the radial lines", 0.02, 0.02)
    t.close(out[10], np.hypot(fd[0][2], fd[0][3]), "turning of the radius in tangential direction", 0.02, 0.02)
    dx, dy = x - c["cx"], y - c["cy"]
    ang = np.arccos(np.clip((t1 * dx + t2 * dy) / np.hypot(dx, dy), -1, 1)) - np.pi / 2
    t.close(out[2], ang, "orientation", 1e-5, 1e-5)
    t.nontrivial(True)


def crit_case():
    return st.fixed_dictionaries(dict(theta_E=g.uni(0.7, 1.3), e1=g.uni(-0.25, 0.25), e2=g.uni(0.03, 0.25), g1=g.uni(-0.08, 0.08), g2=g.uni(-0.08, 0.08), cx=g.uni(-2, 2), cy=g.uni(-2, 2), gs=g.uni(0.03, 0.06), order=st.integers(5, 8)))


@PROP.facet("critical_curves", crit_case, quick=32, shards=4)
def critical_curves(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    c = case
    lm = LensModel(["SIE", "SHEAR"])
    kw = [dict(theta_E=c["theta_E"], e1=c["e1"], e2=c["e2"], center_x=c["cx"], center_y=c["cy"]), dict(gamma1=c["g1"], gamma2=c["g2"], ra_0=c["cx"], dec_0=c["cy"])]
    ex = LensModelExtensions(lm)
    # tangential critical curve of an SIE with shear along each direction: root of det A
    from scipy.optimize import brentq

    def det(r, ph):
        return 1.0 / lm.magnification(c["cx"] + r * np.cos(ph), c["cy"] + r * np.sin(ph), kw)

    phs = np.linspace(0, 2 * np.pi, 181)[:-1]
    rr = []
    for ph in phs:
        rg = np.linspace(0.25, 2.45, 120)
        v = det(rg, ph)
        j = np.where(np.sign(v[1:]) != np.sign(v[:-1]))[0]
        if len(j) != 1:
            return t.trivial()
        rr.append(brentq(lambda r: det(r, ph), rg[j[0]], rg[j[0] + 1]))
    rr = np.array(rr)
    if rr.max() > 2.2 or rr.min() < 0.35:
        return t.trivial()
    ra, dec, cra, cdec = ex.critical_curve_caustics(kw, compute_window=5.0, grid_scale=c["gs"], center_x=c["cx"], center_y=c["cy"])
    big = [i for i in range(len(ra)) if np.min(np.hypot(ra[i] - c["cx"], dec[i] - c["cy"])) > 0.25]
    t.equal(len(big), 1, "number of tangential critical curves")
    i = big[0]
    ph = np.mod(np.arctan2(dec[i] - c["cy"], ra[i] - c["cx"]), 2 * np.pi)
    r = np.hypot(ra[i] - c["cx"], dec[i] - c["cy"])
    t.close(r, np.interp(ph, np.append(phs, 2 * np.pi), np.append(rr, rr[0])), "critical curve", 0, 0.5 * c["gs"])
    t.true(np.max(np.diff(np.sort(ph))) < 0.5, "the critical curve is not closed")
    for a, b, u, v in zip(ra, dec, cra, cdec):
        bx, by = lm.ray_shooting(a, b, kw)
        t.close(np.array([u, v]), np.array([bx, by]), "caustic", 1e-6, 1e-8)
    px, py = c["cx"] + rr * np.cos(phs), c["cy"] + rr * np.sin(phs)
    bx, by = lm.ray_shooting(px, py, kw)
    # |area| of the caustic polygon
    area = abs(0.5 * np.sum(bx * np.roll(by, -1) - by * np.roll(bx, -1)))
    got = ex.caustic_area(kw, dict(compute_window=5.0, grid_scale=c["gs"], center_x=c["cx"], center_y=c["cy"]), index_vertices=i)
    t.close(abs(got), area, "caustic area", 0.1, 0.02)
    tx, ty = ex.critical_curve_tiling(kw, compute_window=5.0, start_scale=0.4, max_order=c["order"], center_x=c["cx"], center_y=c["cy"])
    r = np.hypot(tx - c["cx"], ty - c["cy"])
    out = r > 0.25 + 0.4 * 2 ** (-(c["order"] - 1) / 2)
    ph = np.mod(np.arctan2(ty - c["cy"], tx - c["cx"]), 2 * np.pi)[out]
    t.close(r[out], np.interp(ph, np.append(phs, 2 * np.pi), np.append(rr, rr[0])), "critical curve by tiling", 0, 1.2 * 0.4 * 2 ** (-(c["order"] - 2) / 2))
    t.true(out.sum() > 8 and np.max(np.diff(np.sort(ph))) < 1.2, "the tiled critical curve has gaps")
    t.nontrivial(True)


def fin_case():
    return st.fixed_dictionaries(dict(gamma=g.uni(1.7, 2.2), e1=g.uni(-0.2, 0.2), e2=g.uni(-0.2, 0.2), g1=g.uni(-0.05, 0.05), g2=g.uni(-0.05, 0.05), cx=g.uni(-1, 1), cy=g.uni(-1, 1), r=g.uni(0.6, 1.6), ph=g.uni(0, 6.28), sig=g.uni(0.002, 0.006), ratio=st.sampled_from([1, 0.5, 0, 0.7]), fixed=st.booleans(), largest=st.booleans(), list_in=st.booleans()))


@PROP.facet("finite_source", fin_case, quick=64, shards=4)
def finite_source(case, t):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.LightModel.light_model import LightModel

    c = case
    lm, kw = make(dict(c, multi=False))
    ex = LensModelExtensions(lm)
    x, y = c["cx"] + c["r"] * np.cos(c["ph"]), c["cy"] + c["r"] * np.sin(c["ph"])
    mu = abs(lm.magnification(x, y, kw))
    w = np.abs(ex.hessian_eigenvectors(float(x), float(y), kw)[:2])
    if mu > 12 or mu < 0.3 or w.min() < 0.1:
        return t.trivial()
    sig = c["sig"]
    R = 5.5 * sig / w.min()  # aperture that holds the image
    n = 220
    xs, ys = np.array([x, x]), np.array([y, y])
    if c["list_in"]:
        xs, ys = [float(x), float(x)], [float(y), float(y)]
    # brute force
    gx, gy = np.meshgrid((np.arange(n) - (n - 1) / 2) * 2 * R / n, (np.arange(n) - (n - 1) / 2) * 2 * R / n)
    bx0, by0 = lm.ray_shooting(x, y, kw)
    bx, by = lm.ray_shooting(gx + x, gy + y, kw)
    ref = np.sum(np.exp(-((bx - bx0) ** 2 + (by - by0) ** 2) / 2 / sig**2) / (2 * np.pi * sig**2)) * (2 * R / n) ** 2
    t.close(ref, mu, "reference: small-source limit", 0.2)
    got = ex.magnification_finite(xs, ys, kw, source_sigma=sig, window_size=2 * R, grid_number=n)
    t.close(np.array(got), np.array([ref, ref]), "finite magnification", 1e-3)
    q = c["ratio"] if c["ratio"] else 0.3
    big = R / min(q, w.min() / w.max()) if c["ratio"] != 1 else R
    rad = min(big, 3.5 * R)
    wide = max(rad, 2 * R)
    ax = (np.arange(700) - 349.5) * 2 * wide / 700
    gx, gy = np.meshgrid(ax, ax)
    bx, by = lm.ray_shooting(gx + x, gy + y, kw)
    ref2 = np.sum(np.exp(-((bx - bx0) ** 2 + (by - by0) ** 2) / 2 / sig**2) / (2 * np.pi * sig**2)) * (2 * wide / 700) ** 2
    if abs(ref2 - ref) > 1e-3 * ref:  # the wider aperture holds another image of the source
        t.label("second image")
        t.nontrivial(True)
        return
    pol = ex.magnification_finite(xs, ys, kw, source_sigma=sig, window_size=2 * R / 0.5, grid_number=2 * n, polar_grid=True, aspect_ratio=0.5)
    t.close(np.array(pol), np.array([ref, ref]), "finite magnification in an elliptical window", 0.01)
    z = ex.zoom_source(x, y, kw, source_sigma=sig, window_size=2 * R, grid_number=n)
    t.close(np.sum(z) * (2 * R / n) ** 2, ref, "flux of the zoomed image", 1e-3)
    z = ex.zoom_source(x, y, kw, source_sigma=3 * sig, window_size=2 * R, grid_number=n, shape="TORUS")
    t.close(np.sum(z) * (2 * R / n) ** 2, mu, "flux of the zoomed disc", 0.25)
    km = [dict(amp=1.0, sigma=sig, center_x=float(bx0), center_y=float(by0))]
    keep = copy.deepcopy(km)
    ad = ex.magnification_finite_adaptive(xs, ys, kw, LightModel(["GAUSSIAN"]), km, grid_resolution=2 * R / n, grid_radius_arcsec=rad, axis_ratio=c["ratio"], tol=1e-5, step_size=0.1, use_largest_eigenvalue=True, fixed_aperture_size=c["fixed"])
    t.close(ad, np.array([ref, ref]), "adaptive finite magnification", 0.03)
    t.unchanged(km, keep, "the source parameters")
    t.label("ratio %s" % c["ratio"])
    t.nontrivial(True)
