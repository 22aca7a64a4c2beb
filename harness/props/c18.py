"""C18: point sources."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C18",
    title="Point sources appear at their lensed positions with consistent amplitudes",
    statement=(
        "Every point-source type (unlensed, image positions, source position) reports the positions its parameters define: the given images, or all images of "
        "the source under the lens model at the point source's own redshift, with amplitudes given directly or as source amplitude times absolute magnification. "
        "Positions, amplitudes, flattened lists, linear responses and intrinsic source quantities agree with each other for every selection of sources, "
        "and no cache, option or earlier call changes the answer, the parameters or the lens model that was passed in."
    ),
    over=("inputs", "histories"),
    quant="mixtures of point-source types, lens models (single and multi plane), redshifts, solver settings, magnification limits, query and update histories with and without caching",
    why="tests query one configuration with a fresh object; cross-talk between caches, redshifts, solver settings and amplitude conventions shows only in histories of several mixed sources",
    files=["lenstronomy/PointSource/point_source.py", "lenstronomy/PointSource/point_source_cached.py", "lenstronomy/PointSource/Types/"],
    mechanism=["PointSourceCached", "PSBase redshift switching", "PointSource.linear_response_set / update_linear / linear_param_from_kwargs", "point_source_list"],
    observe=["PointSource.image_position", "PointSource.image_amplitude", "PointSource.source_position", "PointSource.source_amplitude", "PointSource.point_source_list", "PointSource.linear_response_set"],
    rule="non-trivial: at least two point sources or a source with several images",
    assumptions=["with save_cache=True the caller deletes the cache when parameters change, as documented"],
)

SOLVER = dict(min_distance=0.1, search_window=6.0, precision_limit=1e-8, num_iter_max=300)


def ps_model():
    return st.fixed_dictionaries(dict(
        type=st.sampled_from(["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION", "LENSED_POSITION", "SOURCE_POSITION"]), fixed=st.booleans(), add=st.sampled_from([False, False, True]),
        flux=st.sampled_from([True, True, True, False]), z=st.sampled_from([None, None, 0.9, 1.4]), pos=st.lists(st.tuples(g.fl(-1.6, 1.6), g.fl(-1.6, 1.6)).map(list), min_size=1, max_size=4),
        src=st.tuples(g.fl(-0.25, 0.25, special=(0.0,)), g.fl(-0.25, 0.25, special=(0.0,))).map(list), amps=st.lists(g.fl(0.1, 9.0), min_size=9, max_size=9), pert=st.sampled_from([None, None, 1.3, "array"])))


def lens_case():
    return st.fixed_dictionaries(dict(
        mp=st.booleans(), theta=g.fl(0.6, 1.3), e1=g.fl(-0.25, 0.25, special=(0.0,)), e2=g.fl(-0.25, 0.25, special=(0.0,)), g1=g.fl(-0.08, 0.08, special=(0.0,)), cx=g.fl(-0.1, 0.1), z2=st.sampled_from([0.3, 0.5, 0.8])))


def conf():
    return st.fixed_dictionaries(dict(models=st.lists(ps_model(), min_size=1, max_size=3), lens=lens_case(), mlim=st.sampled_from([None, None, 0.3, 2.5]), cache=st.booleans()))


def make_lens(l, z=None):
    from lenstronomy.LensModel.lens_model import LensModel

    zs = 1.8
    models = ["NIE", "SHEAR", "NIE"]
    if l["mp"]:
        m = LensModel(models, multi_plane=True, lens_redshift_list=[0.4, 0.4, l["z2"]], z_source=zs if z is None else z, z_source_convention=zs)
    else:
        m = LensModel(models, z_lens=0.2, z_source=zs if z is None else z, z_source_convention=zs)
    return m


def lens_kwargs(l, scale=1.0):
    return [dict(theta_E=l["theta"] * scale, e1=l["e1"], e2=l["e2"], s_scale=0.15, center_x=l["cx"], center_y=0.02), dict(gamma1=l["g1"], gamma2=0.02), dict(theta_E=0.15, e1=0.0, e2=0.05, s_scale=0.1, center_x=1.1, center_y=-0.7)]


def kwargs_ps(models):
    out = []
    for m in models:
        n = len(m["pos"])
        k = {}
        if m["type"] in ("UNLENSED", "LENSED_POSITION"):
            k.update(ra_image=np.array([p[0] for p in m["pos"]]), dec_image=np.array([p[1] for p in m["pos"]]))
        else:
            k.update(ra_source=m["src"][0], dec_source=m["src"][1])
            if m["pert"] == "array":
                k["mag_pert"] = np.array([1 + 0.1 * a for a in m["amps"]])
            elif m["pert"] is not None:
                k["mag_pert"] = m["pert"]
        if m["type"] == "UNLENSED":
            k["point_amp"] = np.array(m["amps"][:n])
        elif m["fixed"]:
            k["source_amp"] = m["amps"][0]
        else:
            k["point_amp"] = None  # set once the number of images is known
        out.append(k)
    return out


def fixed_of(m):
    return m["fixed"] and m["type"] != "UNLENSED"


def make(c, lens, cache=None, solver=True):
    from lenstronomy.PointSource.point_source import PointSource

    ms = c["models"]
    # a shared unlensed source has no magnification
    return PointSource([m["type"] for m in ms], lens_model=lens, fixed_magnification_list=[fixed_of(m) for m in ms], additional_images_list=[m["add"] and m["type"] == "LENSED_POSITION" for m in ms],
                       flux_from_point_source_list=[m["flux"] for m in ms], redshift_list=[m["z"] for m in ms], magnification_limit=c["mlim"], save_cache=c["cache"] if cache is None else cache,
                       kwargs_lens_eqn_solver=dict(SOLVER) if solver else None)


def expected(c, kps, kl, t, l, mlim="conf"):
    """Positions, amplitudes (with point_amp filled in), source positions; None if images are too close to a caustic to be decided."""
    mlim = c["mlim"] if mlim == "conf" else mlim
    out = []
    for m, k in zip(c["models"], kps):
        lens = make_lens(l, m["z"])
        if m["type"] == "UNLENSED":
            x, y = k["ra_image"], k["dec_image"]
            sx, sy = x, y
            amp = k["point_amp"]
            samp = amp
        else:
            if m["type"] == "SOURCE_POSITION":
                sx, sy = k["ra_source"], k["dec_source"]
            else:
                bx, by = lens.ray_shooting(k["ra_image"], k["dec_image"], kl)
                sx, sy = np.mean(bx), np.mean(by)
            if m["type"] == "SOURCE_POSITION" or m["add"]:
                xy = images(l, m["z"], sx, sy, kl, mlim, **SOLVER)
                if xy is None or len(xy[0]) == 0:
                    return None
                x, y = xy
                bx, by = lens.ray_shooting(x, y, kl)
                t.close(bx, sx * np.ones(len(x)), "images map to the source", rtol=0, atol=1e-5)
                t.close(by, sy * np.ones(len(x)), "images map to the source", rtol=0, atol=1e-5)
            else:
                x, y = k["ra_image"], k["dec_image"]
            mag = np.abs(lens.magnification(x, y, kl))
            if np.any(mag > 300) or not np.all(np.isfinite(mag)):
                return None
            if mlim is not None and np.any(np.abs(mag - mlim) < 1e-3 * mlim):
                return None
            if m["fixed"]:
                amp = k["source_amp"] * mag
                samp = k["source_amp"]
            else:
                if k["point_amp"] is None:
                    k["point_amp"] = np.array(m["amps"][:len(x)])
                if len(k["point_amp"]) != len(x):
                    return None
                amp = np.array(k["point_amp"], dtype=float)
                samp = None
                if m["type"] == "SOURCE_POSITION" or not m["add"]:
                    samp = np.mean(amp / mag)
            pert = k.get("mag_pert", 1.0)
            amp = amp * (pert if np.ndim(pert) == 0 else np.asarray(pert)[:len(x)])
        out.append(dict(x=np.asarray(x), y=np.asarray(y), amp=np.asarray(amp) * (1.0 if m["flux"] else 0.0), samp=None if samp is None else np.asarray(samp) * (1.0 if m["flux"] else 0.0), sx=sx, sy=sy,
                        unit=(np.asarray(amp) / k["source_amp"]) if fixed_of(m) else (np.ones(len(x)) * (k.get("mag_pert", 1.0) if np.ndim(k.get("mag_pert", 1.0)) == 0 else np.asarray(k["mag_pert"])[:len(x)]) if m["type"] == "SOURCE_POSITION" else np.ones(len(x)))))
    return out


PT = 1e-5


class steady:
    """The lens-equation solver draws random numbers when a step fails; start every solve from the same state."""

    def __enter__(self):
        from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

        self.cls, self.orig = LensEquationSolver, LensEquationSolver.image_position_from_source
        orig = self.orig

        def solve(obj, *a, **k):
            np.random.seed(SEED[0])
            return orig(obj, *a, **k)

        LensEquationSolver.image_position_from_source = solve

    def __exit__(self, *a):
        self.cls.image_position_from_source = self.orig


SEED = [1]


def images(l, z, sx, sy, kl, mlim, **kw):
    """Images from a fresh solver; None where the answer depends on its random numbers or grid."""
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver

    out = []
    for seed, md in ((1, None), (2, None), (3, 0.83)):
        SEED[0] = seed
        k = dict(kw)
        if md and "min_distance" in k:
            k["min_distance"] = k["min_distance"] * md
            k["search_window"] = k["search_window"] * 0.9999
        out.append(LensEquationSolver(make_lens(l, z)).image_position_from_source(sx, sy, kl, magnification_limit=mlim, **k))
    SEED[0] = 1
    x, y = out[0]
    for a, b in out[1:]:
        if len(a) != len(x) or (len(x) and max(np.max(np.abs(a - x)), np.max(np.abs(b - y))) > 1e-5):
            return None
    return x, y


def same_pos(t, x, y, e, what):
    t.equal(len(x), len(e["x"]), what + ": number")
    t.close(x, e["x"], what, rtol=0, atol=PT)
    t.close(y, e["y"], what, rtol=0, atol=PT)


def check_query(q, ps, c, kps, kl, exp, t, l, mlens):
    n = len(exp)
    name = q[0]
    if name in ("pos", "amp"):
        k = q[1]
        k = None if k is None else ([i for i in k if i < n] if isinstance(k, list) else (k if k < n else None))
        sel = list(range(n)) if k is None else ([i for i in range(n) if i in k] if isinstance(k, list) else [k])
        if isinstance(k, list) and not k:
            return
        if name == "pos":
            xs, ys = ps.image_position(kps, kl, k=k)
            t.equal(len(xs), len(sel), "number of selected point sources")
            for x, y, i in zip(xs, ys, sel):
                same_pos(t, x, y, exp[i], "image positions of source %d" % i)
        else:
            a = ps.image_amplitude(kps, kl, k=k)
            t.equal(len(a), len(sel), "number of selected point sources")
            for v, i in zip(a, sel):
                t.close(v, exp[i]["amp"], "image amplitudes of source %d" % i, rtol=1e-4, atol=1e-9)
    elif name == "list":
        ra, dec, amp = ps.point_source_list(kps, kl, with_amp=q[1])
        ex = np.concatenate([e["x"] for e in exp])
        ey = np.concatenate([e["y"] for e in exp])
        ea = np.concatenate([e["amp"] for e in exp]) if q[1] else np.ones(len(ex))
        keep = ea != 0
        t.equal(len(ra), int(np.sum(keep)), "length of the point source list")
        t.close(ra, ex[keep], "positions in the list", rtol=0, atol=PT)
        t.close(dec, ey[keep], "positions in the list", rtol=0, atol=PT)
        t.close(amp, ea[keep], "amplitudes in the list", rtol=1e-4, atol=1e-9)
    elif name == "lin":
        ra, dec, amp, nn = ps.linear_response_set(kps, kl, with_amp=q[1])
        want = []
        for m, e in zip(c["models"], exp):
            if not m["flux"]:
                continue
            if fixed_of(m):
                want.append((e["x"], e["y"], e["amp"] if q[1] else e["unit"]))
            else:
                want += [(e["x"][j:j + 1], e["y"][j:j + 1], (e["amp"] if q[1] else e["unit"])[j:j + 1]) for j in range(len(e["x"]))]
        t.equal(nn, len(want), "number of linear responses")
        t.equal(ps.num_basis(kps, kl), len(want), "num_basis")
        for j, w in enumerate(want):
            t.close(ra[j], w[0], "linear response position", rtol=0, atol=PT)
            t.close(dec[j], w[1], "linear response position", rtol=0, atol=PT)
            t.close(amp[j], w[2], "linear response amplitude", rtol=1e-4, atol=1e-9)
    elif name == "source":
        xs, ys = ps.source_position(kps, kl)
        for i, e in enumerate(exp):
            t.close(xs[i], e["sx"], "source position", rtol=0, atol=1e-8)
            t.close(ys[i], e["sy"], "source position", rtol=0, atol=1e-8)
    elif name == "samp":
        if any(m["type"] == "LENSED_POSITION" and m["add"] and not m["fixed"] for m in c["models"]):
            return
        a = ps.source_amplitude(kps, kl)
        for i, e in enumerate(exp):
            t.close(a[i], e["samp"], "source amplitude", rtol=1e-4, atol=1e-9)
    elif name == "update":
        nn = sum(1 if fixed_of(m) else len(e["x"]) for m, e in zip(c["models"], exp) if m["flux"])
        par = 1.0 + np.arange(nn) * 0.7 + 0.1
        kw = copy.deepcopy(kps)
        kw, i = ps.update_linear(np.append([99.0], par), 1, kw, kl)
        t.equal(i, nn + 1, "number of linear parameters used")
        t.close(ps.linear_param_from_kwargs(kw), par, "linear parameters round trip", rtol=1e-12)
        t.true(ps.check_positive_flux(kw), "positive amplitudes are positive")
        if nn:
            par2 = par.copy()
            par2[q[1] % nn] = -0.5
            kw2, _ = ps.update_linear(par2, 0, copy.deepcopy(kps), kl)
            t.true(not ps.check_positive_flux(kw2), "a negative amplitude is found")
        # the response times the parameters is what the point sources show
        ra, dec, amp, _ = ps.linear_response_set(kps, kl, with_amp=False)
        lst = ps.point_source_list(kw, kl)
        flat = np.concatenate([np.asarray(a) * p for a, p in zip(amp, par)]) if nn else np.array([])
        t.close(lst[2], flat, "response times parameters equals the amplitudes", rtol=1e-4, atol=1e-9)
    elif name == "add":
        xs, ys = ps.image_position(kps, kl, additional_images=True)
        e2 = expected(dict(c, models=[dict(m, add=True) for m in c["models"]]), [dict(k, **({"point_amp": None} if m["type"] != "UNLENSED" and not m["fixed"] else {})) for k, m in zip(kps, c["models"])], kl, t, l)
        if e2 is None:
            return
        for i in range(n):
            same_pos(t, xs[i], ys[i], e2[i], "all images of source %d" % i)
    elif name == "check":
        if any(len(e["x"]) == 0 for e in exp):
            return
        worst = 0.0
        for m, e in zip(c["models"], exp):
            if m["type"] != "UNLENSED":
                bx, by = make_lens(l, m["z"]).ray_shooting(e["x"], e["y"], kl)
                worst = max(worst, np.max(np.hypot(bx - bx[0], by - by[0])))
        tol = 10.0 ** q[1]
        if abs(worst - tol) < 1e-4 * tol or abs(worst - tol) < 1e-6:
            return
        t.equal(bool(ps.check_image_positions(kps, kl, tolerance=tol)), bool(worst < tol), "images are checked against the lens equation")
    if c["lens"]["mp"] or mlens.z_source is not None:
        t.equal(mlens.z_source, 1.8, "source redshift of the lens model is kept")


QUERY = st.one_of(
    st.tuples(st.just("pos"), st.one_of(st.none(), st.integers(0, 2), st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True))), st.tuples(st.just("amp"), st.one_of(st.none(), st.integers(0, 2), st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True))),
    st.tuples(st.just("list"), st.booleans()), st.tuples(st.just("lin"), st.booleans()), st.tuples(st.just("source"), st.just(0)), st.tuples(st.just("samp"), st.just(0)),
    st.tuples(st.just("update"), st.integers(0, 5)), st.tuples(st.just("add"), st.just(0)), st.tuples(st.just("check"), st.sampled_from([-3, -1, 0]))).map(list)
UPDATE = st.one_of(st.tuples(st.just("kwargs"), st.sampled_from([0.93, 1.0, 1.06]), st.booleans()), st.tuples(st.just("lens"), st.just(0), st.just(True)), st.tuples(st.just("cache"), st.booleans(), st.just(True)),
                   st.tuples(st.just("delete"), st.just(0), st.just(True)), st.tuples(st.just("move"), g.fl(-0.2, 0.2), st.just(True))).map(list)


def hist_case():
    return st.tuples(conf(), st.lists(st.one_of(QUERY, QUERY, UPDATE), min_size=2, max_size=7)).map(lambda v: dict(v[0], ops=v[1]))


@PROP.facet("history", hist_case, quick=390, shards=6)
def history(case, t):
    with steady():
        run_history(case, t)


def run_history(case, t):
    c = case
    l = dict(c["lens"])
    lens = make_lens(l)
    ps = make(c, lens)
    kl = lens_kwargs(l)
    kps = kwargs_ps(c["models"])
    exp = expected(c, kps, kl, t, l)
    if exp is None:
        t.trivial()
        return
    for m in c["models"]:
        t.label(m["type"])
    t.nontrivial(len(exp) > 1 or any(len(e["x"]) > 1 for e in exp))
    k0, kl0 = copy.deepcopy(kps), copy.deepcopy(kl)
    cache = c["cache"]
    for op in c["ops"]:
        name = op[0]
        if name == "kwargs":
            kl = lens_kwargs(l, op[1])
        elif name == "move":
            kps = copy.deepcopy(kps)
            for k in kps:
                if "ra_source" in k:
                    k["ra_source"] = k["ra_source"] + op[1] * 0.3
                else:
                    k["ra_image"] = k["ra_image"] + op[1]
        elif name == "lens":
            l["mp"] = not l["mp"]
            lens = make_lens(l)
            ps.update_lens_model(lens)
        elif name == "cache":
            cache = op[1]
            ps.set_save_cache(cache)
            if cache:
                ps.delete_lens_model_cache()
        elif name == "delete":
            ps.delete_lens_model_cache()
        else:
            check_query(op, ps, dict(c, lens=l), kps, kl, exp, t, l, lens)
            t.unchanged(kl, kl0, "lens parameters are not modified")
            t.unchanged(kps, k0, "point source parameters are not modified")
            continue
        if name in ("kwargs", "move"):
            if cache:
                ps.delete_lens_model_cache()
        for k, m in zip(kps, c["models"]):
            if m["type"] != "UNLENSED" and not m["fixed"]:
                k["point_amp"] = None
        exp = expected(dict(c, lens=l), kps, kl, t, l)
        if exp is None:
            return
        k0, kl0 = copy.deepcopy(kps), copy.deepcopy(kl)


def window_case():
    return st.tuples(conf(), st.fixed_dictionaries(dict(w=st.sampled_from([0.4, 1.0, 3.0, 6.0]), cx=g.fl(-0.5, 0.5), cy=g.fl(-0.5, 0.5), only=st.booleans(), md=st.sampled_from([None, 0.05]), fac=st.sampled_from([1, 1, 2]), own=st.booleans()))).map(lambda v: dict(v[0], win=v[1]))


@PROP.facet("search-window", window_case, quick=120, shards=2)
def window(case, t):
    """Solver settings given at construction and later are the ones the images are searched with."""
    with steady():
        run_window(case, t)


def run_window(case, t):
    from lenstronomy.PointSource.point_source import PointSource

    c, w = case, case["win"]
    l = c["lens"]
    lens = make_lens(l)
    kl = lens_kwargs(l)
    m = next((m for m in c["models"] if m["type"] == "SOURCE_POSITION"), None)
    if m is None:
        t.trivial()
        return
    init = dict(SOLVER) if w["own"] else {k: v for k, v in SOLVER.items() if k not in ("min_distance", "search_window")}
    own = copy.deepcopy(init)
    ps = PointSource(["SOURCE_POSITION"], lens_model=lens, fixed_magnification_list=[True], redshift_list=[m["z"]], magnification_limit=c["mlim"], save_cache=c["cache"], kwargs_lens_eqn_solver=init)
    ps.update_search_window(w["w"], w["cx"], w["cy"], min_distance=w["md"], only_from_unspecified=w["only"])
    t.unchanged(init, own, "solver settings of the caller are not modified")
    eff = dict(own)
    if w["only"]:
        eff.setdefault("search_window", w["w"])
        eff.setdefault("x_center", w["cx"])
        eff.setdefault("y_center", w["cy"])
        if w["md"] is not None:
            eff.setdefault("min_distance", w["md"])
    else:
        eff.update(search_window=w["w"], x_center=w["cx"], y_center=w["cy"])
    eff["search_window"] = eff["search_window"] * w["fac"]
    k = [dict(ra_source=m["src"][0], dec_source=m["src"][1], source_amp=2.0)]
    x, y = ps.image_position(k, kl, width_search_factor=w["fac"])
    xy = images(l, m["z"], m["src"][0], m["src"][1], kl, c["mlim"], **eff)
    if xy is None:
        t.trivial()
        return
    ex, ey = xy
    if np.any(np.abs(make_lens(l, m["z"]).magnification(ex, ey, kl)) > 100):
        t.trivial()  # on a caustic the number of images is not defined
        return
    t.equal(len(x[0]), len(ex), "number of images in the window")
    t.close(x[0], ex, "images in the window", rtol=0, atol=1e-7)
    t.close(y[0], ey, "images in the window", rtol=0, atol=1e-7)
    t.nontrivial(len(ex) > 0)
    # the widened search does not stick
    if w["fac"] != 1 and not c["cache"]:
        eff["search_window"] = eff["search_window"] / w["fac"]
        x, y = ps.image_position(k, kl)
        xy = images(l, m["z"], m["src"][0], m["src"][1], kl, c["mlim"], **eff)
        if xy is not None:
            t.equal(len(x[0]), len(xy[0]), "number of images in the original window")


def frame_case():
    pos = st.lists(st.tuples(g.fl(-1.6, 1.6), g.fl(-1.6, 1.6), st.integers(0, 2)).map(list), min_size=1, max_size=4)
    return st.fixed_dictionaries(dict(pos=pos, lens=lens_case(), fixed=st.booleans(), z=st.sampled_from([None, 0.9]), amp=g.fl(0.2, 5.0)))


@PROP.facet("frames", frame_case, quick=360, shards=1)
def frames(case, t):
    """Images observed in different frames are each traced with the lens models of their frame."""
    from lenstronomy.PointSource.point_source import PointSource

    l = dict(case["lens"], mp=False)
    kl = lens_kwargs(l)
    index = [[0], [0, 1], [0, 1, 2]]
    fr = [p[2] for p in case["pos"]]
    lens = make_lens(l)
    ps = PointSource(["LENSED_POSITION"], lens_model=lens, fixed_magnification_list=[case["fixed"]], index_lens_model_list=index, point_source_frame_list=[fr])
    x, y = np.array([p[0] for p in case["pos"]]), np.array([p[1] for p in case["pos"]])
    n = len(x)
    k = [dict(ra_image=x, dec_image=y)]
    k[0].update(source_amp=case["amp"]) if case["fixed"] else k[0].update(point_amp=np.ones(n) * case["amp"])
    ref = make_lens(l)
    b = [ref.ray_shooting(x[i], y[i], kl, k=index[fr[i]]) for i in range(n)]
    mag = np.array([ref.magnification(x[i], y[i], kl, k=index[fr[i]]) for i in range(n)])
    if np.any(np.abs(mag) > 1e5):
        t.trivial()
        return
    sx, sy = ps.source_position(k, kl)
    t.close(sx[0], np.mean([v[0] for v in b]), "source position over frames", rtol=0, atol=1e-9)
    t.close(sy[0], np.mean([v[1] for v in b]), "source position over frames", rtol=0, atol=1e-9)
    a = ps.image_amplitude(k, kl)[0]
    t.close(a, case["amp"] * np.abs(mag) if case["fixed"] else case["amp"] * np.ones(n), "image amplitudes over frames", rtol=1e-7)
    s = ps.source_amplitude(k, kl)[0]
    t.close(s, case["amp"] if case["fixed"] else np.mean(case["amp"] / np.abs(mag)), "source amplitude over frames", rtol=1e-7)
    t.equal([list(v) for v in ps.k_list(0)], [index[i] for i in fr], "lens models of each image")
    d = max(np.hypot(v[0] - b[0][0], v[1] - b[0][1]) for v in b)
    if abs(d - 0.1) > 1e-4:
        t.equal(bool(ps.check_image_positions(k, kl, tolerance=0.1)), bool(d < 0.1), "image check over frames")
    t.nontrivial(n > 1 and len(set(fr)) > 1)


@PROP.facet("amplitude-lists", lambda: st.fixed_dictionaries(dict(
    kind=st.sampled_from(["SOURCE_POSITION", "LENSED_POSITION"]), n=st.integers(1, 5), na=st.integers(1, 5), scalar=st.booleans(), amps=st.lists(g.fl(0.1, 5.0), min_size=5, max_size=5), pert=st.sampled_from([None, 1.3, "array"]),
    x=st.lists(g.fl(-1.5, 1.5), min_size=10, max_size=10))), quick=300, shards=2)
def amplitude_lists(case, t):
    """amplitudes given for fewer positions than there are: the others carry no flux; a single number counts for all"""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource

    n, na = case["n"], min(case["n"], case["na"])
    x, y = np.array(case["x"][:n]), np.array(case["x"][5 : 5 + n])
    lens = LensModel(["SIS"])
    kl = [dict(theta_E=1.0, center_x=0.0, center_y=0.0)]
    a = case["amps"][0] if case["scalar"] else np.array(case["amps"][:na])
    kw = dict(point_amp=a)
    pert = 1.0
    if case["kind"] == "SOURCE_POSITION":
        kw.update(ra_source=0.1, dec_source=0.0)
        if case["pert"] == "array":
            kw["mag_pert"] = pert = 1 + 0.1 * np.arange(6)
            pert = pert[:n]
        elif case["pert"] is not None:
            kw["mag_pert"] = pert = case["pert"]
    else:
        kw.update(ra_image=x, dec_image=y)
    from lenstronomy.PointSource.Types.lensed_position import LensedPositions
    from lenstronomy.PointSource.Types.source_position import SourcePositions

    cls = SourcePositions if case["kind"] == "SOURCE_POSITION" else LensedPositions
    ps = cls(lens_model=lens, fixed_magnification=False)
    k0 = copy.deepcopy(kw)
    out = ps.image_amplitude(kw, kwargs_lens=kl, x_pos=x, y_pos=y)
    ref = np.zeros(n)
    if case["scalar"]:
        ref[:] = a
    else:
        ref[:na] = a
    t.close(out, ref * pert, "amplitudes at the given positions", rtol=1e-10, atol=1e-12)
    t.unchanged(k0, kw, "point source parameters")
    t.nontrivial(na < n or case["scalar"])
