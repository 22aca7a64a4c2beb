"""C30: decoupled and fast multi-plane ray tracing, quad optimiser."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C30",
    title="Decoupled and fast ray tracing agree with the full multi-plane model",
    statement=(
        "A multi-plane model split into fixed and free deflectors (decoupled at points, images or on a grid, or with cached foreground rays) maps image positions to the same source positions as the full multi-plane model: with the parameters "
        "used for the split always, and with any parameters of the free deflectors where nothing fixed lies behind them (or with the fast ray tracing that follows the rays through the background). The quad optimiser's parameter vectors convert to "
        "deflector parameters and back without loss, keep what is declared fixed, and its result maps the images on to the reported source no worse than its start."
    ),
    over=("inputs", "histories"),
    quant="numbers, types, redshifts and parameters of foreground, main-plane and background deflectors, split index sets, cosmologies, source redshifts and conventions, image positions, parameter managers",
    why="tests split one model at one redshift and compare at one set of images; conventions and changed free parameters are not sampled",
    files=["lenstronomy/LensModel/Util/decouple_multi_plane_util.py", "lenstronomy/LensModel/MultiPlane/decoupled_multi_plane.py", "lenstronomy/LensModel/QuadOptimizer/multi_plane_fast.py", "lenstronomy/LensModel/QuadOptimizer/optimizer.py",
           "lenstronomy/LensModel/QuadOptimizer/param_manager.py"],
    mechanism=["foreground positions and angles, background deflection stored per point", "reduced-to-physical scaling of the main deflector", "cached foreground rays"],
    observe=["LensModel(decouple_multi_plane=True).ray_shooting", "MultiplaneFast.ray_shooting_fast", "Optimizer.optimize", "PowerLawFreeShear.args_to_kwargs"],
    rule="non-trivial: at least one fixed deflector outside the main plane, or changed free parameters",
    assumptions=["deflectors without singular rays at the sampled positions"],
)

Z = 0.5


def pert(zs):
    return st.tuples(st.sampled_from(["NIE", "TNFW", "CONVERGENCE", "SHEAR"]), zs, g.uni(-1.5, 1.5), g.uni(-1.5, 1.5), g.uni(0.02, 0.2))


def kw_pert(p):
    n, z, x, y, s = p
    if n == "NIE":
        return dict(theta_E=s, e1=0.1, e2=-0.05, s_scale=0.1, center_x=x, center_y=y)
    if n == "TNFW":
        return dict(Rs=0.3, alpha_Rs=s / 3, r_trunc=0.9, center_x=x, center_y=y)
    if n == "SHEAR":
        return dict(gamma1=s / 4, gamma2=-s / 5)
    return dict(kappa=s / 3)


MAIN = st.fixed_dictionaries(dict(te=g.uni(0.7, 1.2), gam=g.uni(1.8, 2.2), e1=g.uni(-0.2, 0.2), e2=g.uni(-0.2, 0.2), cx=g.uni(-0.1, 0.1), cy=g.uni(-0.1, 0.1), g1=g.uni(-0.08, 0.08), g2=g.uni(-0.08, 0.08)))


def kw_main(m):
    return [dict(theta_E=m["te"], gamma=m["gam"], e1=m["e1"], e2=m["e2"], center_x=m["cx"], center_y=m["cy"]), dict(gamma1=m["g1"], gamma2=m["g2"])]


def cosmology(h, om):
    from astropy.cosmology import FlatLambdaCDM

    return FlatLambdaCDM(H0=h, Om0=om)


CASE = st.fixed_dictionaries(dict(main=MAIN, main2=MAIN, fg=st.lists(pert(st.sampled_from([0.1, 0.3, 0.49])), max_size=3), same=st.lists(pert(st.just(Z)), max_size=1), bg=st.lists(pert(st.sampled_from([0.51, 0.8, 1.2])), max_size=3),
                                  zs=g.uni(1.4, 3.0), conv=st.sampled_from([None, None, 1.3, 4.0]), H0=g.uni(60, 80), Om=g.uni(0.2, 0.4), order=st.integers(0, 10**6), x=st.lists(st.tuples(g.uni(-1.5, 1.5), g.uni(-1.5, 1.5)), min_size=4, max_size=6),
                                  kind=st.sampled_from(["POINT", "MULTIPLE_IMAGES", "GRID"])))


class W:
    def __init__(self, c, conv=True, shuffle=True):
        from lenstronomy.LensModel.lens_model import LensModel

        self.c = c
        comp = [("EPL", Z, kw_main(c["main"])[0], kw_main(c["main2"])[0]), ("SHEAR", Z, kw_main(c["main"])[1], kw_main(c["main2"])[1])]
        comp += [(p[0], p[1], kw_pert(p), kw_pert(p)) for p in c["fg"] + c["same"] + c["bg"]]
        order = np.random.default_rng(c["order"]).permutation(len(comp)) if shuffle else np.arange(len(comp))
        self.names = [comp[i][0] for i in order]
        self.zl = [comp[i][1] for i in order]
        self.kw = [comp[i][2] for i in order]
        self.kw_free2 = [comp[i][3] for i in order if i < 2]
        self.kw2 = [comp[i][3] for i in order]
        self.free = [int(j) for j, i in enumerate(order) if i < 2]
        self.cosmo = cosmology(c["H0"], c["Om"])
        self.conv = c["conv"] if conv else None
        self.lens = LensModel(self.names, lens_redshift_list=self.zl, multi_plane=True, z_source=c["zs"], cosmo=self.cosmo, **({} if self.conv is None else dict(z_source_convention=self.conv)))
        self.x, self.y = np.array([p[0] for p in c["x"]]), np.array([p[1] for p in c["x"]])


@PROP.facet("decoupled", lambda: CASE, quick=600, thorough=15000, shards=16)
def decoupled(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Util.decouple_multi_plane_util import coordinates_and_deflections, decoupled_multiplane_class_setup, setup_grids, setup_lens_model

    w = W(case)
    kw0 = copy.deepcopy(w.kw)
    fixed, free, kw_fixed, kw_free, zs, zsplit, bkg = setup_lens_model(w.lens, w.kw, w.free)
    t.close([zs, zsplit], [case["zs"], Z], "redshifts of source and split", rtol=1e-12)
    t.equal(kw_free, [w.kw[i] for i in w.free], "parameters of the free deflectors")
    kind = case["kind"]
    interp = None
    x, y = w.x, w.y
    if kind == "GRID":
        x, y, interp, npix = setup_grids(2.0, 0.4, 0.3, -0.2)
        t.close([x.min(), x.max(), y.min(), y.max()], [-0.7, 1.3, -1.2, 0.8], "extent of the grid", rtol=1e-9, atol=1e-12)
        t.true(npix % 2 == 1 and npix * npix == len(x), "grid with an odd number of points")
    out = coordinates_and_deflections(fixed, free, kw_fixed, kw_free, x, y, zsplit, zs, bkg)
    kwm = decoupled_multiplane_class_setup(free, *out, zsplit, coordinate_type=kind, interp_points=interp, x_image=x, y_image=y)
    dec = LensModel(**kwm)
    b_dec = dec.ray_shooting(x, y, kw_free)
    b_full = w.lens.ray_shooting(x, y, w.kw)
    t.close(b_dec[0], b_full[0], "source position (x) with the parameters of the split", rtol=1e-7, atol=1e-8)
    t.close(b_dec[1], b_full[1], "source position (y) with the parameters of the split", rtol=1e-7, atol=1e-8)
    t.close(dec.alpha(x, y, kw_free)[0], x - b_full[0], "deflection of the decoupled model", rtol=1e-7, atol=1e-8)
    # other parameters of the free deflectors
    b2 = dec.ray_shooting(x, y, w.kw_free2)
    if not case["bg"]:
        f2 = w.lens.ray_shooting(x, y, w.kw2)
        t.close(b2[0], f2[0], "source position with other free parameters, nothing behind", rtol=1e-7, atol=1e-8)
        t.close(b2[1], f2[1], "source position with other free parameters, nothing behind", rtol=1e-7, atol=1e-8)
        t.label("free")
    else:
        # the change of the source position is that of the free deflectors alone
        Td, Ts, Tds = bkg.T_xy(0, Z), bkg.T_xy(0, zs), bkg.T_xy(Z, zs)
        zc = zs if w.conv is None else w.conv
        red = bkg.d_xy(0, zc) / bkg.d_xy(Z, zc)
        sp = LensModel([w.names[i] for i in w.free])
        a1 = sp.alpha(out[0] / Td, out[1] / Td, kw_free)
        a2 = sp.alpha(out[0] / Td, out[1] / Td, w.kw_free2)
        for i in range(2):
            t.close(b2[i] - b_dec[i], -(a2[i] - a1[i]) * red * Tds / Ts, "change with the free deflectors", rtol=1e-6, atol=1e-8)
    t.unchanged(kw0, w.kw, "lens parameters passed in")
    t.label(kind)
    t.nontrivial(bool(case["fg"] or case["bg"] or not case["bg"]))


@PROP.facet("grids", lambda: CASE, quick=60, thorough=1500, shards=8)
def grids(case, t):
    """one decoupled model per image; without other planes the interpolation is exact and so is the Hessian"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Util.decouple_multi_plane_util import setup_raytracing_lensmodels

    c = dict(case, fg=[], bg=[], same=[])
    w = W(c)
    lst, kws = setup_raytracing_lensmodels(w.x, w.y, w.lens, w.kw, w.free, 0.2, 0.05)
    t.equal(len(lst), len(w.x), "one model per image")
    kf = [w.kw[i] for i in w.free]
    for i, m in enumerate(lst):
        px, py = w.x[i] + np.array([0.0, 0.04, -0.07]), w.y[i] + np.array([0.0, -0.03, 0.06])
        if np.min(np.hypot(px - c["main"]["cx"], py - c["main"]["cy"])) < 0.1:
            continue
        a, b = m.ray_shooting(px, py, kf), w.lens.ray_shooting(px, py, w.kw)
        t.close(a[0], b[0], "source position around an image", rtol=1e-7, atol=1e-8)
        t.close(a[1], b[1], "source position around an image", rtol=1e-7, atol=1e-8)
        h1, h2 = m.hessian(px, py, kf), w.lens.hessian(px, py, w.kw)
        for p, q in zip(h1, h2):
            t.close(p, q, "Hessian around an image", rtol=1e-3, atol=1e-3)
    t.nontrivial(True)


@PROP.facet("fast", lambda: st.fixed_dictionaries(dict(c=CASE, steps=st.lists(MAIN, min_size=1, max_size=4), mult=st.booleans(), given=st.booleans())), quick=400, thorough=12000, shards=16)
def fast(case, t):
    """cached foreground rays: the full model for every history of main-deflector parameters"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.QuadOptimizer.multi_plane_fast import MultiplaneFast
    from lenstronomy.LensModel.QuadOptimizer.param_manager import PowerLawFreeShear, PowerLawFreeShearMultipole

    c = case["c"]
    w = W(c, conv=False, shuffle=False)
    names, zl, kw = list(w.names), list(w.zl), copy.deepcopy(w.kw)
    n = 2
    cls = PowerLawFreeShear
    if case["mult"]:
        names.insert(2, "MULTIPOLE")
        zl.insert(2, Z)
        kw.insert(2, dict(m=4, a_m=0.02, phi_m=0.0, center_x=0.0, center_y=0.0))
        n, cls = 3, PowerLawFreeShearMultipole
    par = cls(copy.deepcopy(kw))
    t.equal(par.to_vary_index, n, "number of varied deflectors")
    full = LensModel(names, lens_redshift_list=zl, multi_plane=True, z_source=c["zs"], cosmo=w.cosmo)
    fg = None
    if case["given"]:
        f0 = LensModel(names[n:], lens_redshift_list=zl[n:], multi_plane=True, z_source=c["zs"], cosmo=w.cosmo)
        fg = f0.lens_model.ray_shooting_partial_comoving(np.zeros_like(w.x), np.zeros_like(w.x), w.x, w.y, 0.0, Z, kw[n:])
    m = MultiplaneFast(w.x, w.y, Z, c["zs"], names, zl, w.cosmo, par, fg)
    for s in case["steps"]:
        a = par.kwargs_to_args(kw_main(s))
        k = par.args_to_kwargs(a)
        ref = copy.deepcopy(kw)
        ref[0].update({q: v for q, v in kw_main(s)[0].items() if q != "gamma"})
        ref[1] = kw_main(s)[1]
        if case["mult"]:
            ref[2].update(center_x=s["cx"], center_y=s["cy"], phi_m=0.5 * np.arctan2(s["e2"], s["e1"]))
        for p, q in zip(k, ref):
            t.equal(set(p), set(q), "names of the parameters")
            for nm in q:
                t.close(p[nm], q[nm], f"parameter {nm}", rtol=1e-9, atol=1e-12)
        t.close(par.kwargs_to_args(k), a, "vector from the parameters of the vector", rtol=1e-12)
        b1, b2 = m.ray_shooting_fast(w.x, w.y, k), full.ray_shooting(w.x, w.y, ref)
        t.close(b1[0], b2[0], "fast ray tracing (x)", rtol=1e-8, atol=1e-9)
        t.close(b1[1], b2[1], "fast ray tracing (y)", rtol=1e-8, atol=1e-9)
    t.nontrivial(bool(c["fg"] or c["bg"]))


@PROP.facet("parameters", lambda: st.fixed_dictionaries(dict(m=MAIN, m2=MAIN, shear=g.uni(0.01, 0.2), mult=st.booleans(), re=st.booleans(), scale=g.uni(0.2, 3.0))), quick=500, thorough=20000, shards=4)
def parameters(case, t):
    from lenstronomy.LensModel.QuadOptimizer.param_manager import PowerLawFixedShear, PowerLawFixedShearMultipole

    kw = kw_main(case["m"])
    if case["mult"]:
        kw.append(dict(m=4, a_m=0.02, phi_m=0.3, center_x=0.0, center_y=0.0))
    kw.append(dict(theta_E=0.1, center_x=1.0, center_y=0.5))
    last = dict(kw[-1])
    par = (PowerLawFixedShearMultipole if case["mult"] else PowerLawFixedShear)(kw, case["shear"])
    t.equal(par.to_vary_index, 3 if case["mult"] else 2, "number of varied deflectors")
    lo, hi = par.bounds(case["re"], case["scale"])
    lo1, hi1 = par.bounds(case["re"], 1.0)
    a0 = np.array(par.kwargs_to_args(kw_main(case["m"])))
    t.close((lo + hi) / 2, a0, "centre of the bounds", rtol=1e-9, atol=1e-10)
    t.close(hi - lo, case["scale"] * (hi1 - lo1), "width of the bounds", rtol=1e-9)
    t.true(np.all(hi1 > lo1), "bounds are ordered")
    if not case["re"]:
        lor, hir = par.bounds(True, 1.0)
        t.true(np.all(hir - lor < hi1 - lo1), "narrower bounds for a second optimisation")
    a = par.kwargs_to_args(kw_main(case["m2"]))
    k = par.args_to_kwargs(a)
    m2 = kw_main(case["m2"])
    for nm in ("theta_E", "center_x", "center_y", "e1", "e2"):
        t.close(k[0][nm], m2[0][nm], nm, rtol=1e-12)
    t.close(k[0]["gamma"], case["m"]["gam"], "slope, which is not varied", rtol=1e-12)
    gg = np.hypot(m2[1]["gamma1"], m2[1]["gamma2"])
    t.close(np.hypot(k[1]["gamma1"], k[1]["gamma2"]), case["shear"], "shear strength that was fixed", rtol=1e-9)
    if gg > 1e-6:
        t.close([k[1]["gamma1"] * gg, k[1]["gamma2"] * gg], [m2[1]["gamma1"] * case["shear"], m2[1]["gamma2"] * case["shear"]], "shear direction", rtol=1e-7, atol=1e-10)
    if case["mult"]:
        t.close([k[2]["center_x"], k[2]["center_y"]], [m2[0]["center_x"], m2[0]["center_y"]], "centre of the multipole", rtol=1e-12)
        t.close(np.array([np.cos(2 * k[2]["phi_m"]), np.sin(2 * k[2]["phi_m"])]) * np.hypot(m2[0]["e1"], m2[0]["e2"]), [m2[0]["e1"], m2[0]["e2"]], "orientation of the multipole", rtol=1e-7, atol=1e-10)
        t.close([k[2]["a_m"], k[2]["m"]], [0.02, 4], "multipole amplitude and order", rtol=1e-12)
    t.equal(k[-1], last, "parameters of the other deflectors")
    t.close(par.param_chi_square_penalty(a), 0.0, "penalty of the parameters", atol=1e-12)
    t.nontrivial(True)


@PROP.facet("optimise", lambda: st.fixed_dictionaries(dict(c=CASE, sx=g.uni(-0.06, 0.06), sy=g.uni(-0.06, 0.06), d=st.lists(g.uni(-0.02, 0.02), min_size=7, max_size=7), mode=st.sampled_from(["decoupled", "full", "full"]), pso=st.sampled_from([False, False, True]), seed=st.integers(0, 10**6))), quick=48, thorough=1000, shards=16)
def optimise(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.QuadOptimizer.optimizer import Optimizer
    from lenstronomy.LensModel.QuadOptimizer.param_manager import PowerLawFreeShear
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    c = dict(case["c"], fg=case["c"]["fg"][:1], bg=case["c"]["bg"][:1], same=[])
    w = W(c, conv=False, shuffle=False)
    x, y = LensEquationSolver(w.lens).image_position_from_source(case["sx"] + 0.05, case["sy"], w.kw, min_distance=0.1, search_window=4, precision_limit=1e-8, num_iter_max=50, magnification_limit=1e-3)
    if len(x) != 4:
        t.trivial()
        return
    start = copy.deepcopy(w.kw)
    for v, nm in zip(case["d"], ("theta_E", "center_x", "center_y", "e1", "e2")):
        start[0][nm] += v
    start[1]["gamma1"] += case["d"][5]
    start[1]["gamma2"] += case["d"][6]
    par = PowerLawFreeShear(copy.deepcopy(start))
    tol = 1e-5
    if case["mode"] == "full":
        opt = Optimizer.full_raytracing(x, y, w.names, w.zl, Z, c["zs"], par, astropy_instance=w.cosmo, particle_swarm=case["pso"], tol_source=tol)
        model = w.lens
    else:
        opt = Optimizer.decoupled_multiplane(x, y, w.lens, start, [0, 1], par, particle_swarm=case["pso"], tol_source=tol)
        model = opt.ray_shooting_class

    def spread(k):
        bx, by = model.ray_shooting(x, y, k)
        i, j = np.triu_indices(4, 1)
        return 0.5 * np.sum((bx[i] - bx[j]) ** 2 + (by[i] - by[j]) ** 2), bx, by

    k0 = start if case["mode"] == "full" else start[:2]
    s0, _, _ = spread(k0)
    a0 = par.kwargs_to_args(start)
    t.close(opt.source_plane_penalty(a0) * tol**2, s0, "penalty of the start", rtol=1e-6, atol=1e-14)
    res, src = opt.optimize(n_particles=10, n_iterations=20, seed=case["seed"])
    t.equal(len(res), len(k0), "number of deflectors of the result")
    s1, bx, by = spread(res)
    if not case["pso"]:
        t.true(s1 <= s0 * (1 + 1e-9) + 1e-14, f"spread of the source positions grew from {s0} to {s1}")
    t.close(src, [bx.mean(), by.mean()], "reported source position", rtol=1e-6, atol=1e-8)
    t.close(res[0]["gamma"], start[0]["gamma"], "slope, which is not varied", rtol=1e-12)
    for p, q in zip(res[2:], start[2:] if case["mode"] == "full" else []):
        t.equal(p, q, "parameters of the other deflectors")
    t.true(s1 < 0.5 * s0 or s0 < 1e-6 or case["pso"], f"no improvement: {s0} -> {s1}")
    t.label(case["mode"])
    t.nontrivial(True)
