"""C09: solving the lens equation."""

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as cz
from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import center, ellip, fl, uni

PROP = Property(
    "C09",
    rule="A case is a lens (EPL / SIE / SIS / NIE with shear, convergence, an NFW perturber, or two planes), a source position, and solver settings. "
    "Non-trivial: at least two images.",
    assumptions=["completeness is required only for images with 0.2 < |magnification| < 15, more than four grid cells apart and away from the edge of the search window, for lenses "
                 "whose Einstein radius is at least eight grid cells", "random restarts inside the solver are seeded per case"],
    title="Lens-equation solvers return the true images of a source, in order",
    statement="Every position returned by the grid-based, analytical and stochastic lens-equation solvers maps back to the source within the requested precision; no image is "
    "returned twice, images come in order of arrival time, and magnification limits are respected. For ordinary galaxy lenses and adequate settings no image is missed, and solvers agree with each other, and solving leaves the lens model as it was: later evaluations with other parameters are unaffected. Analytical caustics of power-law lenses are the mapped critical curves and enclose the multiply imaged region.",
    over=["inputs", "configurations", "histories"],
    quant="all lenses of the supported families, source positions, offsets of centre, shear and mass sheet, redshift scalings and solver settings",
    why="Tests solve a handful of fixed systems with centred shear and sheets, and check the images found but rarely that none is missing.",
    files=["lenstronomy/LensModel/Solver/lens_equation_solver.py", "lenstronomy/LensModel/Solver/epl_shear_solver.py", "lenstronomy/Util/util.py", "lenstronomy/Util/image_util.py"],
    mechanism=[("grid candidates, Newton steps, sorting", "lenstronomy/LensModel/Solver/lens_equation_solver.py"), ("semi-analytic solver and caustics", "lenstronomy/LensModel/Solver/epl_shear_solver.py")],
    observe=["LensEquationSolver.image_position_from_source(solver=lenstronomy|analytical|stochastic)", "LensEquationSolver.findBrightImage", "caustics_epl_shear"],
    note="Oracle: an independent solver that tiles the image plane with triangles, finds the mapped triangles containing the source and refines each with a root finder.",
)


def lens_strategy(kinds):
    mainc = {"theta_E": uni(0.7, 1.6), "e": ellip(0.35), "cx": center(0.2), "cy": center(0.2), "gamma": st.one_of(st.just(2.0), uni(1.6, 2.4)), "sc": uni(0.05, 0.2)}
    shear = {"gamma1": fl(-0.1, 0.1), "gamma2": fl(-0.1, 0.1), "ra_0": center(0.2), "dec_0": center(0.2)}
    conv = {"kappa": fl(-0.15, 0.15), "ra_0": center(0.2), "dec_0": center(0.2)}
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds), "main": st.fixed_dictionaries(mainc), "shear": st.one_of(st.none(), st.fixed_dictionaries(shear), st.fixed_dictionaries(shear)),
        "conv": st.one_of(st.none(), st.none(), st.fixed_dictionaries(conv)), "cpos": st.integers(0, 2), "src": st.tuples(uni(-0.35, 0.35), uni(-0.35, 0.35)),
        "scale": st.one_of(st.none(), st.none(), st.tuples(uni(0.3, 0.6), uni(0.9, 2.0), uni(0.9, 2.0))),
    })


def build(case):
    from lenstronomy.LensModel.lens_model import LensModel

    m = case["main"]
    k = {"theta_E": m["theta_E"], "center_x": m["cx"], "center_y": m["cy"]}
    kind = case["kind"]
    if kind in ("EPL", "SIE", "NIE", "EPL_NUMBA"):
        k.update(e1=m["e"][0], e2=m["e"][1])
    if kind in ("EPL", "EPL_NUMBA"):
        k["gamma"] = m["gamma"]
    if kind == "NIE":
        k["s_scale"] = m["sc"]
    names, kws = [kind], [k]
    if case["shear"]:
        names.append("SHEAR")
        kws.append(dict(case["shear"]))
    if case["conv"]:
        i = min(case["cpos"], len(names))
        names.insert(i, "CONVERGENCE")
        kws.insert(i, dict(case["conv"]))
    kw, s = {}, 1.0
    if case["scale"]:
        zl, z1, z2 = case["scale"]
        cosmo = cz.make({"m": "flat", "H0": 70.0, "Om": 0.3})
        kw = dict(z_lens=zl, z_source=z1, z_source_convention=z2, cosmo=cosmo)
        s = cz.beta(cosmo, zl, z1, z2)
    return LensModel(names, **kw), names, kws, s


def profile_alpha(names, kws, s, x, y):
    ax, ay = np.zeros_like(x), np.zeros_like(x)
    for n, k in zip(names, kws):
        d = lp.instance(n).derivatives(x, y, **k)
        ax, ay = ax + s * d[0], ay + s * d[1]
    return ax, ay


def tile_solve(alpha, src, half=4.0, n=220, c=(0.0, 0.0)):
    """All images of src: triangles whose mapped version contains the source, refined by Newton iteration."""
    # irrational offset: no grid point on a profile centre
    gx = np.linspace(-half, half, n) + c[0] + 0.0031415
    gy = np.linspace(-half, half, n) + c[1] + 0.0027182
    X, Y = np.meshgrid(gx, gy)
    ax, ay = alpha(X.ravel(), Y.ravel())
    B = np.stack([X.ravel() - ax - src[0], Y.ravel() - ay - src[1]], -1).reshape(n, n, 2)
    P = np.stack([X, Y], -1)
    cand = []
    for tri in (((0, 0), (0, 1), (1, 0)), ((1, 1), (0, 1), (1, 0))):
        v = [B[i:n - 1 + i, j:n - 1 + j] for i, j in tri]
        p = [P[i:n - 1 + i, j:n - 1 + j] for i, j in tri]
        cr = [v[a][..., 0] * v[b][..., 1] - v[a][..., 1] * v[b][..., 0] for a, b in ((0, 1), (1, 2), (2, 0))]
        ins = ((cr[0] >= 0) & (cr[1] >= 0) & (cr[2] >= 0)) | ((cr[0] <= 0) & (cr[1] <= 0) & (cr[2] <= 0))
        cand += list(((p[0] + p[1] + p[2]) / 3)[ins])
    out = []
    h = 1e-6
    for q in cand:
        z = np.array(q, float)
        ok = False
        for it in range(60):
            xx = np.array([z[0], z[0] + h, z[0] - h, z[0], z[0]])
            yy = np.array([z[1], z[1], z[1], z[1] + h, z[1] - h])
            ax, ay = alpha(xx, yy)
            bx, by = xx - ax - src[0], yy - ay - src[1]
            f = np.array([bx[0], by[0]])
            J = np.array([[bx[1] - bx[2], bx[3] - bx[4]], [by[1] - by[2], by[3] - by[4]]]) / 2 / h
            if not np.all(np.isfinite(J)) or abs(np.linalg.det(J)) < 1e-12:
                break
            d = np.linalg.solve(J, f)
            L = np.hypot(*d)
            if L > 0.05:
                d *= 0.05 / L
            z = z - d
            if L < 1e-10:
                ok = True
                break
        if ok and np.hypot(*(z - q)) < 0.3:
            mu = 1 / np.linalg.det(J)
            if not any(np.hypot(*(z - o[0])) < 1e-5 for o in out):
                out.append((z, mu))
    return out


def verify_images(t, x, y, model, names, kws, s, src, prec, what, sort=True, tmin=1e-6):
    ax, ay = profile_alpha(names, kws, s, np.array(x, float), np.array(y, float))
    bx, by = x - ax, y - ay
    err = np.hypot(bx - src[0], by - src[1])
    t.true(np.all(err <= prec), "%s: returned image %s maps to a source position %.3g away (allowed %.3g)" % (what, [float(v) for v in (x[np.argmax(err)], y[np.argmax(err)])] if len(x) else "", np.max(err) if len(x) else 0, prec))
    for i in range(len(x)):
        for j in range(i):
            t.true(np.hypot(x[i] - x[j], y[i] - y[j]) > tmin, "%s: image (%g, %g) is returned twice" % (what, x[i], y[i]))
    if sort and len(x) > 1:
        pot = sum(s * lp.instance(n).function(np.array(x, float), np.array(y, float), **k) for n, k in zip(names, kws))
        tau = ((x - src[0]) ** 2 + (y - src[1]) ** 2) / 2 - pot
        t.true(np.all(np.diff(tau) >= -1e-7), "%s: images are not in order of arrival time: %s" % (what, tau.tolist()))


def match(t, ref, x, y, what, tol, mags=(0.2, 15)):
    for z, mu in ref:
        if mags[0] < abs(mu) < mags[1]:
            d = np.min(np.hypot(x - z[0], y - z[1])) if len(x) else np.inf
            t.true(d < tol, "%s misses the image at (%.6f, %.6f) with magnification %.3g" % (what, z[0], z[1], mu))


def check_ana(case, t):
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver, analytical_lens_model_support

    model, names, kws, s = build(case)
    if not analytical_lens_model_support(names):
        t.trivial()
        return
    src = [case["src"][0] + case["main"]["cx"], case["src"][1] + case["main"]["cy"]]
    ref = tile_solve(lambda x, y: profile_alpha(names, kws, s, x, y), src)
    solver = LensEquationSolver(model)
    x, y = solver.image_position_from_source(src[0], src[1], kws, solver="analytical")
    x, y = np.asarray(x), np.asarray(y)
    t.label("%d images" % len(x))
    t.label(case["kind"])
    t.label("sheet" if case["conv"] else "no sheet")
    if len(x) < 2:
        t.trivial()
    # a central image of a near-isothermal lens lies closer to the centre than the coordinates resolve
    far = np.hypot(x - case["main"]["cx"], y - case["main"]["cy"]) > 1e-3
    verify_images(t, x[far], y[far], model, names, kws, s, src, 1e-6, "analytical solver")
    ell = np.hypot(*case["main"]["e"]) * (case["kind"] != "SIS")
    sh = np.hypot(case["shear"]["gamma1"], case["shear"]["gamma2"]) if case["shear"] else 0.0
    if min([abs(1 / mu) for _, mu in ref] + [1]) > 0.02 and max(ell, sh) > 0.02:
        t.label("complete")
        # the solver samples polar angles; images closer than 2 mrad to the direction the source has without the lens are not resolved
        kap = s * case["conv"]["kappa"] if case["conv"] else 0.0
        c0 = np.array([case["main"]["cx"], case["main"]["cy"]])
        gam = s / (1 - kap) * np.array([case["shear"]["gamma1"], case["shear"]["gamma2"]]) if case["shear"] else np.zeros(2)
        G = np.array([[gam[0], gam[1]], [gam[1], -gam[0]]])
        r0 = np.array([case["conv"]["ra_0"], case["conv"]["dec_0"]]) if case["conv"] else 0
        s0 = np.array([case["shear"]["ra_0"], case["shear"]["dec_0"]]) if case["shear"] else c0
        p = (np.array(src) - kap * r0) / (1 - kap) - c0 + G @ (c0 - s0)
        p1 = np.linalg.solve(np.eye(2) - G, p)
        ang = lambda v: np.arctan2(v[1], v[0])  # noqa
        far = lambda z: abs(np.sin(ang(z - c0) - ang(p1))) > 2e-3  # noqa
        ref = [r for r in ref if far(r[0])]
        match(t, ref, x, y, "analytical solver", 1e-4, mags=(0.05, 50))
    lim = case.get("mlim")
    if lim:
        x2, y2 = solver.image_position_from_source(src[0], src[1], kws, solver="analytical", magnification_limit=lim)
        mu = np.abs(model.magnification(x, y, kws))
        t.close(np.sort(x2), np.sort(x[mu >= lim]), "images above the magnification limit %g" % lim, 1e-6, 1e-6)


PROP.add("analytical", lambda: st.tuples(lens_strategy(["EPL", "SIE", "SIS", "EPL_NUMBA"]), st.one_of(st.none(), uni(0.5, 4))).map(lambda p: dict(p[0], mlim=p[1])), check_ana, quick=220, thorough=5000, shards=4)


def grid_strategy():
    pert = st.fixed_dictionaries({"Rs": uni(0.1, 0.4), "alpha_Rs": uni(0.01, 0.05), "center_x": uni(-1.5, 1.5), "center_y": uni(-1.5, 1.5)})
    return st.tuples(lens_strategy(["EPL", "SIE", "NIE", "SIS"]), st.fixed_dictionaries({
        "dist": st.sampled_from([0.05, 0.08]), "prec": st.sampled_from([1e-10, 1e-8, 1e-6]), "win": uni(6, 8), "off": st.tuples(center(0.5), center(0.5)), "sort": st.booleans(),
        "cut": st.booleans(), "mlim": st.one_of(st.none(), uni(0.5, 4)), "pert": st.one_of(st.none(), pert), "nr": st.sampled_from([0, 0, 5]), "seed": st.integers(0, 10**6)})).map(lambda p: dict(p[0], **p[1]))


def check_grid(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    model, names, kws, s = build(case)
    if case["pert"]:
        names, kws = names + ["NFW"], kws + [dict(case["pert"])]
        kw = {}
        if case["scale"]:
            zl, z1, z2 = case["scale"]
            kw = dict(z_lens=zl, z_source=z1, z_source_convention=z2, cosmo=cz.make({"m": "flat", "H0": 70.0, "Om": 0.3}))
        model = LensModel(names, **kw)
    np.random.seed(case["seed"])
    src = [case["src"][0] + case["main"]["cx"], case["src"][1] + case["main"]["cy"]]
    alpha = lambda x, y: profile_alpha(names, kws, s, x, y)  # noqa
    ref = tile_solve(alpha, src)
    solver = LensEquationSolver(model)
    probe = np.array([[0.7, -1.1], [0.4, 0.9]])
    other = [dict(k) for k in kws]
    im = names.index(case["kind"])
    other[im]["theta_E"] = kws[im]["theta_E"] * 0.8
    before = model.alpha(probe[0], probe[1], other)
    x, y = solver.image_position_from_source(src[0], src[1], kws, min_distance=case["dist"], search_window=case["win"], precision_limit=case["prec"], num_iter_max=200,
                                             arrival_time_sort=case["sort"], initial_guess_cut=case["cut"], x_center=case["off"][0], y_center=case["off"][1], num_random=case["nr"])
    x, y = np.asarray(x), np.asarray(y)
    for a, b in zip(model.alpha(probe[0], probe[1], other), before):
        t.close(a, b, "deflection with other parameters after solving", 1e-8, 1e-9)
    t.label("%d images" % len(x))
    t.label(case["kind"])
    if len(x) < 2:
        t.trivial()
    verify_images(t, x, y, model, names, kws, s, src, case["prec"] * 1.001 + 1e-9, "grid solver", case["sort"])
    lo = case["win"] / 2 - 0.3
    use = [(z, mu) for z, mu in ref if abs(z[0] - case["off"][0]) < lo and abs(z[1] - case["off"][1]) < lo]
    sep = [min([np.hypot(*(a[0] - b[0])) for b in ref if b is not a] + [9]) for a in use]
    close = [np.hypot(z[0] - case["main"]["cx"], z[1] - case["main"]["cy"]) for z, _ in use]
    pc = [np.hypot(z[0] - case["pert"]["center_x"], z[1] - case["pert"]["center_y"]) if case["pert"] else 9 for z, _ in use]
    use = [u for u, d, c, p in zip(use, sep, close, pc) if d > 4 * case["dist"] and c > 4 * case["dist"] and p > 2 * case["dist"]]
    match(t, use, x, y, "grid solver", 1e-3)
    if case["mlim"]:
        np.random.seed(case["seed"])
        x2, y2 = solver.image_position_from_source(src[0], src[1], kws, min_distance=case["dist"], search_window=case["win"], precision_limit=case["prec"], num_iter_max=200,
                                                   x_center=case["off"][0], y_center=case["off"][1], magnification_limit=case["mlim"])
        if len(x2):
            mu = np.abs(model.magnification(np.asarray(x2), np.asarray(y2), kws))
            t.true(np.all(mu >= case["mlim"] * (1 - 1e-6)), "an image below the magnification limit is returned")
        match(t, [u for u in use if abs(u[1]) > 1.01 * case["mlim"]], np.asarray(x2), np.asarray(y2), "grid solver with magnification limit", 1e-3)


PROP.add("grid", grid_strategy, check_grid, quick=120, thorough=3000, shards=4)


def bright_strategy():
    return st.tuples(lens_strategy(["SIE", "EPL"]), st.fixed_dictionaries({"num": st.integers(1, 4), "seed": st.integers(0, 10**6), "far": st.booleans(), "sort": st.booleans(), "off": st.one_of(st.just([0.0, 0.0]), st.tuples(uni(-6.0, 6.0), uni(-6.0, 6.0)).map(list))})).map(lambda p: dict(p[0], **p[1]))


def check_bright(case, t):
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    off = case.get("off", [0.0, 0.0])
    model, names, kws, s = build(case)
    for k in kws:
        # the whole system is placed elsewhere on the sky
        for a, o in (("center_x", 0), ("center_y", 1), ("ra_0", 0), ("dec_0", 1)):
            if a in k:
                k[a] += off[o]
    np.random.seed(case["seed"])
    solver = LensEquationSolver(model)
    probe = np.array([[0.7, -1.1], [0.4, 0.9]])
    other = [dict(k) for k in kws]
    im = names.index(case["kind"])
    other[im]["theta_E"] = kws[im]["theta_E"] * 0.8
    ref = profile_alpha(names, other, s, probe[0], probe[1])
    src = [case["src"][0] + case["main"]["cx"] + off[0], case["src"][1] + case["main"]["cy"] + off[1]]
    if case["far"]:
        # a source whose images are far outside the search window: the model stays usable
        if case["num"] % 2:
            # a window without any candidate position (the mapped distance to the source is monotonic in it)
            x, y = solver.image_position_from_source(src[0], src[1], kws, min_distance=0.2, search_window=4, x_center=35.0, y_center=-28.0, arrival_time_sort=case["sort"])
            t.equal(len(np.asarray(x)), 0, "number of images in a far-away window")
            for a, b in zip(model.alpha(probe[0], probe[1], other), ref):
                t.close(a, b, "deflection with other parameters after an empty search", 1e-6, 1e-8)
        x, y = solver.image_position_from_source(40.0, 30.0, kws, min_distance=0.2, search_window=4, x_center=off[0], y_center=off[1])
        t.label("no image")
        verify_images(t, np.asarray(x), np.asarray(y), model, names, kws, s, [40.0, 30.0], 1e-8, "grid solver")
    else:
        kw = dict(min_distance=0.05, search_window=7, precision_limit=1e-9, num_iter_max=200, x_center=off[0], y_center=off[1])
        x, y = solver.image_position_from_source(src[0], src[1], kws, **kw)
        np.random.seed(case["seed"])
        xb, yb = solver.find_bright_image(src[0], src[1], kws, numImages=case["num"], arrival_time_sort=case["sort"], **kw)
        x, y, xb, yb = map(np.asarray, (x, y, xb, yb))
        n = min(case["num"], len(x))
        t.equal(len(xb), n, "number of bright images")
        mu = np.sort(np.abs(model.magnification(x, y, kws)))[::-1]
        mb = np.abs(model.magnification(xb, yb, kws))
        if n and n < len(mu) and mu[n - 1] < 1.01 * mu[n]:
            return
        t.close(np.sort(mb)[::-1], mu[:n], "magnifications of the brightest images", 1e-3, 1e-3)
        verify_images(t, xb, yb, model, names, kws, s, src, 1.1e-9, "bright images", case["sort"])
        if not case["sort"] and n > 1 and case["num"] < len(x):
            t.true(np.all(np.diff(mb) <= 2e-3 * mb[0]), "bright images are not in order of brightness")
    for a, b in zip(model.alpha(probe[0], probe[1], other), ref):
        t.close(a, b, "deflection with other parameters after solving", 1e-6, 1e-8)


PROP.add("brightest", bright_strategy, check_bright, quick=60, thorough=1500, shards=2)


def caus_strategy():
    return lens_strategy(["EPL", "SIE"]).map(lambda c: dict(c, conv=None, scale=None))


def inside(poly, p):
    """Winding number of the closed polygon (2, N) around p."""
    z = (poly[0] - p[0]) + 1j * (poly[1] - p[1])
    ang = np.angle(np.roll(z, -1) / z)
    return int(round(abs(np.sum(ang)) / (2 * np.pi))), float(np.min(np.abs(z)))


def check_caus(case, t):
    from lenstronomy.LensModel.Solver.epl_shear_solver import caustics_epl_shear

    case = dict(case, shear=case["shear"] or {"gamma1": 0.0, "gamma2": 0.0, "ra_0": 0.0, "dec_0": 0.0})
    model, names, kws, s = build(case)
    if case["kind"] == "SIE":
        gam = 2.0
    else:
        gam = kws[0]["gamma"]
    ca = caustics_epl_shear(kws, return_which="caustic")
    cr = caustics_epl_shear(kws, return_which="caustic", sourceplane=False)
    h = 1e-4
    H = []
    for dx, dy in ((h, 0), (0, h)):
        p, m = profile_alpha(names, kws, 1.0, cr[0] + dx, cr[1] + dy), profile_alpha(names, kws, 1.0, cr[0] - dx, cr[1] - dy)
        H.append([(p[0] - m[0]) / 2 / h, (p[1] - m[1]) / 2 / h])
    det = (1 - H[0][0]) * (1 - H[1][1]) - H[0][1] * H[1][0]
    t.close(det, np.zeros_like(det), "inverse magnification on the critical curve", 0, 1e-3)
    a = profile_alpha(names, kws, 1.0, cr[0], cr[1])
    t.close(ca[0], cr[0] - a[0], "caustic x against the mapped critical curve", 0, 1e-5)
    t.close(ca[1], cr[1] - a[1], "caustic y against the mapped critical curve", 0, 1e-5)
    t.label(case["kind"])
    if gam <= 2.0:
        src = [case["src"][0] + case["main"]["cx"], case["src"][1] + case["main"]["cy"]]
        quad = caustics_epl_shear(kws, num_th=2000, return_which="quad")
        dbl = caustics_epl_shear(kws, num_th=2000, return_which="double")
        wq, dq = inside(quad, src)
        wd, dd = inside(dbl, src)
        cut = caustics_epl_shear(kws, num_th=2000, return_which="cut")
        cau = caustics_epl_shear(kws, num_th=2000, return_which="caustic")
        if min(dq, dd, inside(cut, src)[1], inside(cau, src)[1]) < 0.01:
            return
        ref = tile_solve(lambda x, y: profile_alpha(names, kws, 1.0, x, y), src)
        ref = [r for r in ref if np.hypot(r[0][0] - case["main"]["cx"], r[0][1] - case["main"]["cy"]) > 0.003]
        n = len(ref)
        t.label("%d images" % n)
        if wq:
            t.true(n >= 4, "number of images of a source in the 'quad' region is %d" % n)
        if wd:
            t.true(n >= 2, "number of images of a source in the 'double' region is %d" % n)
        if not wd:
            t.true(n <= 1, "number of images of a source outside the 'double' region is %d" % n)


PROP.add("caustics", caus_strategy, check_caus, quick=120, thorough=3000, shards=1)


def sto_strategy():
    return lens_strategy(["SIE", "EPL"]).map(lambda c: dict(c, scale=None))


def check_sto(case, t):
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    model, names, kws, s = build(case)
    np.random.seed(3)
    src = [case["src"][0] + case["main"]["cx"], case["src"][1] + case["main"]["cy"]]
    x, y = LensEquationSolver(model).image_position_from_source(src[0], src[1], kws, solver="stochastic", search_window=5, precision_limit=1e-7, num_random=12)
    x, y = np.asarray(x), np.asarray(y)
    if len(x) < 2:
        t.trivial()
    verify_images(t, x, y, model, names, kws, s, src, 1e-6, "stochastic solver", True, 1e-8)
    probe = np.array([[0.7, -1.1], [0.4, 0.9]])
    other = [dict(k) for k in kws]
    im = names.index(case["kind"])
    other[im]["theta_E"] = kws[im]["theta_E"] * 0.8
    for a, b in zip(model.alpha(probe[0], probe[1], other), profile_alpha(names, other, s, probe[0], probe[1])):
        t.close(a, b, "deflection with other parameters after solving", 1e-6, 1e-8)


PROP.add("stochastic", sto_strategy, check_sto, quick=20, thorough=500, shards=2)
