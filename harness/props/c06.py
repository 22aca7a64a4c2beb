"""C06: a single-plane lens model is the sum of its components, with consistent derived quantities."""

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as cz
from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import fl, logf, points, uni

PROP = Property(
    "C06",
    rule="A case is a list of 1-4 lens components with generated parameters, 1-4 positions (array or single position), a selection of components and, for the "
    "redshift facet, a history of 1-5 source-redshift / cosmology changes. Non-trivial: at least two components or a non-empty history.",
    assumptions=["numerical differentials are compared at 0.5 % for smooth components", "redshifts 0.1-4"],
    title="A lens model is the sum of its components; derived quantities follow",
    statement="In a single lens plane, potential, deflection and Hessian of a lens model are the sums over its components, and any selection of components "
    "gives the sum over exactly those, independent of order and of how the selection is written. Convergence, shear, magnification, source position, "
    "Fermat potential, arrival time, flexion and numerical differentials follow from them by their definitions. Changing the source redshift or the "
    "cosmology rescales the deflections by the distance ratio and arrival times by the time-delay distance, exactly as a newly built model would, and fixing the parameters "
    "(static mode) and releasing them changes no value.",
    over=["inputs", "configurations", "histories"],
    quant="all component lists, parameters, positions, component selections, and all sequences of source-redshift and cosmology updates",
    why="Tests use two or three fixed component lists, mostly without component selection together with a redshift scaling, and single updates instead of sequences.",
    files=["lenstronomy/LensModel/lens_model.py", "lenstronomy/LensModel/single_plane.py", "lenstronomy/LensModel/profile_list_base.py", "lenstronomy/Cosmo/lens_cosmo.py"],
    mechanism=[("component loop and selection", "lenstronomy/LensModel/single_plane.py"), ("derived quantities, redshift updates", "lenstronomy/LensModel/lens_model.py")],
    observe=["LensModel.potential/alpha/hessian/kappa/gamma/magnification/fermat_potential/arrival_time/flexion", "LensModel.change_source_redshift/update_cosmology"],
    note="Oracle: direct sums over single profile instances, textbook formulas for the derived quantities, and distances taken from astropy directly; "
    "after every step of an update history the model is compared with a model constructed from scratch.",
)

SMOOTH = ["NIE", "NFW", "GAUSSIAN", "SHEAR", "CONVERGENCE", "CHAMELEON", "CORED_DENSITY", "HERNQUIST", "EPL", "SIS", "PJAFFE", "TNFW", "SERSIC", "GAUSSIAN_POTENTIAL",
          "POINT_MASS", "FLEXION", "HESSIAN", "SIE", "SPEP", "MULTIPOLE", "coreBURKERT", "ULDM", "CSE", "SHEAR_REDUCED", "NFW_ELLIPSE_CSE", "MULTI_GAUSSIAN"]
SMOOTH = [n for n in SMOOTH if n in lp.CAT]
ANY = [n for n in lp.FAST if lp.CAT[n].hess and not n.startswith('NFW_MC')]


def comps(names, nmin=1, nmax=4):
    one = st.sampled_from(names).flatmap(lambda n: lp.CAT[n].kw().map(lambda kw: [n, kw]))
    return st.lists(one, min_size=nmin, max_size=nmax)


def build(cs, **kwargs):
    from lenstronomy.LensModel.lens_model import LensModel

    init = [dict(lp.CAT[n].init) if lp.CAT[n].init else None for n, _ in cs]
    kw = {} if all(i is None for i in init) else {"profile_kwargs_list": [i or {} for i in init]}
    return LensModel([n for n, _ in cs], **kw, **kwargs), [lp.call_kw(k) for _, k in cs]


def sum_strategy():
    return st.fixed_dictionaries({
        "comps": comps(ANY), "pts": points(0.3, 6.0, 1, 4), "scalar": st.booleans(), "sel": st.lists(st.integers(0, 3), max_size=3, unique=True),
        "selkind": st.sampled_from(["none", "int", "list", "tuple", "array"]), "perm": st.permutations(list(range(4))),
    })


def eval_one(n, kw, x, y, pot=True):
    f = lp.instance(n)
    kw = lp.call_kw(kw)
    z = np.zeros_like(x)
    F = np.asarray(f.function(x.copy(), y.copy(), **kw)) + z if pot and lp.CAT[n].pot else z
    A = [np.asarray(a) + z for a in f.derivatives(x.copy(), y.copy(), **kw)]
    H = [np.asarray(a) + z for a in f.hessian(x.copy(), y.copy(), **kw)]
    return F, A, H


def check_sum(case, t):
    cs = case["comps"]
    model, kws = build(cs)
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    haspot = all(lp.CAT[n].pot for n, _ in cs)
    parts = [eval_one(n, kw, x, y) for n, kw in cs]
    sel = [i for i in case["sel"] if i < len(cs)]
    kind = case["selkind"]
    if kind == "none" or not sel:
        kind, sel, k = "none", list(range(len(cs))), None
    elif kind == "int":
        sel = sel[:1]
        k = int(sel[0])
    elif kind == "list":
        k = list(sel)
    elif kind == "tuple":
        k = tuple(sel)
    else:
        k = np.array(sel)
    t.label("select:" + kind)
    t.label("n=%d" % len(cs))
    for n, _ in cs:
        t.label(n)
    if len(cs) < 2:
        t.trivial()
    F = sum(parts[i][0] for i in sel)
    A = [sum(parts[i][1][c] for i in sel) for c in (0, 1)]
    H = [sum(parts[i][2][c] for i in sel) for c in range(4)]
    sa = sum(np.hypot(*parts[i][1]) for i in sel) + 1e-9
    sh = sum(np.max(np.abs(parts[i][2]), axis=0) for i in sel) + 1e-9
    # finite-difference Hessians carry rounding noise
    noise = 3e-2 if any(lp.CAT[cs[i][0]].htol > 1e-4 for i in sel) else 1e-4
    X, Y = (float(x[0]), float(y[0])) if case["scalar"] else (x, y)
    cut = (lambda a: a[0]) if case["scalar"] else (lambda a: a)
    if haspot:
        fs = sum(np.abs(parts[i][0]) for i in sel)
        t.close(model.potential(X, Y, kws, k=k), cut(F), "potential of selection %s" % (k,), 0, cut(1e-6 * fs + 1e-8))
    a = model.alpha(X, Y, kws, k=k)
    for i in (0, 1):
        t.close(a[i], cut(A[i]), "deflection %s of selection %s" % ("xy"[i], k), 0, cut(1e-6 * sa + 1e-9))
    h = model.hessian(X, Y, kws, k=k)
    for i in range(4):
        t.close(h[i], cut(H[i]), "Hessian entry %d of selection %s" % (i, k), 0, cut(noise * sh + 1e-6))
    rs = model.ray_shooting(X, Y, kws, k=k)
    t.close(rs[0], X - cut(A[0]), "source position x", 0, cut(1e-6 * sa + 1e-9))
    t.close(rs[1], Y - cut(A[1]), "source position y", 0, cut(1e-6 * sa + 1e-9))
    t.close(model.kappa(X, Y, kws, k=k), cut((H[0] + H[3]) / 2), "convergence", 0, cut(noise * sh + 1e-6))
    g1, g2 = model.gamma(X, Y, kws, k=k)
    t.close(g1, cut((H[0] - H[3]) / 2), "shear 1", 0, cut(noise * sh + 1e-6))
    t.close(g2, cut(H[1]), "shear 2", 0, cut(noise * sh + 1e-6))
    t.close(model.curl(X, Y, kws, k=k), cut(H[1] - H[2]), "curl", 0, cut(noise * sh + 1e-6))
    det = (1 - H[0]) * (1 - H[3]) - H[1] * H[2]
    t.close(1.0 / model.magnification(X, Y, kws, k=k), cut(det), "inverse magnification", 0, cut(2 * noise * (1 + sh) ** 2 + 1e-6))
    if haspot and k is None:
        fp = model.fermat_potential(X, Y, kws)
        t.close(fp, cut((A[0] ** 2 + A[1] ** 2) / 2 - F), "Fermat potential at the images' own source position", 0, cut(1e-5 * (sa**2 + np.abs(F) + sum(np.abs(p[0]) for p in parts)) + 1e-8))
        fp = model.fermat_potential(X, Y, kws, x_source=0.11, y_source=-0.07)
        t.close(fp, cut(((x - 0.11) ** 2 + (y + 0.07) ** 2) / 2 - F), "Fermat potential for a given source position", 0, cut(1e-5 * (1 + x**2 + y**2 + sum(np.abs(p[0]) for p in parts)) + 1e-8))
    # order of components does not matter
    perm = [i for i in case["perm"] if i < len(cs)]
    m2, kws2 = build([cs[i] for i in perm])
    k2 = None if k is None else [perm.index(i) for i in sel]
    b = m2.alpha(X, Y, kws2, k=k2)
    for i in (0, 1):
        t.close(b[i], cut(A[i]), "deflection %s after reordering the components" % "xy"[i], 0, cut(1e-6 * sa + 1e-9))


PROP.add("sum", sum_strategy, check_sum, quick=1000, thorough=20000, shards=4)


def diff_strategy():
    return st.fixed_dictionaries({"comps": comps(SMOOTH, 1, 3), "pts": points(0.4, 4.0, 1, 3), "method": st.sampled_from(["square", "cross"]), "diff": st.sampled_from([1e-3, 3e-4]),
                                  "k": st.one_of(st.none(), st.just(0), st.just([0]))})


def check_diff(case, t):
    cs = case["comps"]
    model, kws = build(cs)
    x = np.array([p[0] for p in case["pts"]]) + 0.013
    y = np.array([p[1] for p in case["pts"]]) - 0.017
    # stay away from the centres where the fields vary on the scale of the step
    for n, kw in cs:
        cx, cy = lp.origin(n, kw)
        if np.any(np.hypot(x - cx, y - cy) < 0.15):
            t.trivial()
            return
    if len(cs) < 2:
        t.label("single")
    d, k = case["diff"], case["k"]
    z = np.zeros_like(x)
    A = [np.asarray(a) + z for a in model.alpha(x, y, kws, k=k)]
    H = [np.asarray(a) + z for a in model.hessian(x, y, kws, k=k)]
    sa = np.hypot(*A) + np.sum(np.abs(H), axis=0)
    if all(lp.CAT[n].pot for n, _ in cs):
        for a, b, i in zip(model.alpha(x, y, kws, k=k, diff=d), A, "xy"):
            t.close(a, b, "numerical deflection %s (potential differences)" % i, 0, 5e-3 * sa + 1e-4)
    hs = np.sum(np.abs(H), axis=0) + 0.05
    for a, b, i in zip(model.hessian(x, y, kws, k=k, diff=d, diff_method=case["method"]), H, ("xx", "xy", "yx", "yy")):
        t.close(a, b, "numerical Hessian %s, method %s" % (i, case["method"]), 0, 1e-2 * hs + 1e-4)
    kap = model.kappa(x, y, kws, k=k, diff=d, diff_method=case["method"])
    t.close(kap, (H[0] + H[3]) / 2, "numerical convergence", 0, 1e-2 * hs + 1e-4)
    # flexion: third derivatives
    if any(lp.CAT[n].htol > 1e-4 for n, _ in cs):
        return
    e = 2e-3
    up = lambda dx, dy: [np.asarray(h) + z for h in model.hessian(x + dx, y + dy, kws, k=k)]  # noqa
    xp, xm, yp, ym = up(e, 0), up(-e, 0), up(0, e), up(0, -e)
    ref = [(xp[0] - xm[0]) / 2 / e, (yp[0] - ym[0]) / 2 / e, (yp[1] - ym[1]) / 2 / e, (yp[3] - ym[3]) / 2 / e]
    fs = np.sum(np.abs(ref), axis=0) + hs / 0.3
    for hd in (False, True):
        got = model.flexion(x, y, kws, k=k, diff=2e-3, hessian_diff=hd)
        for a, b, i in zip(got, ref, ("xxx", "xxy", "xyy", "yyy")):
            t.close(np.asarray(a) + z, b, "flexion %s (hessian_diff=%s)" % (i, hd), 0, 3e-2 * fs + 1e-3)


PROP.add("differentials", diff_strategy, check_diff, quick=500, thorough=8000, shards=2)


def z_strategy():
    step = st.one_of(st.tuples(st.just("zs"), fl(0.65, 4.0)), st.tuples(st.just("zs"), fl(0.65, 4.0)), st.tuples(st.just("same"), st.just(0)),
                     st.tuples(st.just("cosmo"), cz.cosmo_strategy()), st.tuples(st.just("none"), st.just(0)))
    return st.fixed_dictionaries({"comps": comps(["SIE", "SHEAR", "NFW", "EPL", "CONVERGENCE"], 1, 3), "pts": points(0.4, 3.0, 1, 3), "zl": fl(0.1, 0.6),
                                  "zs": fl(0.65, 4.0), "zc": st.one_of(st.none(), fl(0.65, 4.0)), "cosmo": cz.cosmo_strategy(), "steps": st.lists(step, max_size=5),
                                  "kext": fl(-0.1, 0.1)})


def check_z(case, t):
    zl, zs, zc = case["zl"], case["zs"], case["zc"]
    cosmo = cz.make(case["cosmo"])
    extra = {} if zc is None else {"z_source_convention": zc}
    model, kws = build(case["comps"], z_lens=zl, z_source=zs, cosmo=cosmo, **extra)
    plain, _ = build(case["comps"])
    zc = zs if zc is None else zc
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    F0, A0, H0 = plain.potential(x, y, kws), plain.alpha(x, y, kws), plain.hessian(x, y, kws)
    if not case["steps"]:
        t.label("no history")
    t.label("len=%d" % len(case["steps"]))

    def verify(when):
        s = cz.beta(cosmo, zl, zs, zc)
        t.close(model.potential(x, y, kws), s * F0, "potential %s" % when, 1e-6, 1e-8)
        for k in (None, 0, [0]):
            ref = A0 if k is None else plain.alpha(x, y, kws, k=k)
            for a, b in zip(model.alpha(x, y, kws, k=k), ref):
                t.close(a, s * b, "deflection (selection %s) %s" % (k, when), 1e-6, 1e-8)
        for a, b in zip(model.hessian(x, y, kws), H0):
            t.close(a, s * b, "Hessian %s" % when, 2e-2, 2e-2 * np.max(np.abs(H0)))
        fp = (s**2 * (A0[0] ** 2 + A0[1] ** 2)) / 2 - s * F0
        sc = np.max(np.abs(F0)) + np.max(np.abs(A0)) ** 2
        t.close(model.fermat_potential(x, y, kws), fp, "Fermat potential %s" % when, 1e-6, 1e-6 * sc)
        u = cz.days_per_arcsec2(cosmo, zl, zs)
        t.close(model.arrival_time(x, y, kws), u * fp, "arrival time %s" % when, 1e-4, 1e-4 * u * sc)
        t.close(model.arrival_time(x, y, kws, kappa_ext=case["kext"]), (1 - case["kext"]) * u * fp, "arrival time with external convergence %s" % when, 1e-4, 1e-4 * u * sc)
        t.close(model.ddt_scaling, cz.ddt(cosmo, zl, zs) / cz.ddt(cosmo, zl, zc), "time-delay distance scaling %s" % when, 1e-6)

    verify("as built")
    for i, (op, arg) in enumerate(case["steps"]):
        if op == "zs":
            model.change_source_redshift(arg)
            zs = arg
        elif op == "same":
            model.change_source_redshift(zs)
        elif op == "none":
            model.change_source_redshift(None)
        else:
            cosmo = cz.make(arg)
            model.update_cosmology(cosmo)
        t.label(op)
        verify("after step %d (%s)" % (i + 1, op))


PROP.add("redshift-history", z_strategy, check_z, quick=300, thorough=6000, shards=3)


STATIC = [n for n in ["EPL", "NIE", "NIE_POTENTIAL", "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "BPL", "SIE", "EPL_Q_PHI", "NFW_MC", "EPL_NUMBA", "PEMD", "SPEP", "SHEAR", "NFW"] if n in lp.CAT and n not in ("PEMD",)]


def static_strategy():
    def two(n):
        return st.tuples(lp.CAT[n].kw(), lp.CAT[n].kw()).map(lambda v: [n, v[0], v[1]])

    return st.fixed_dictionaries({"c": st.lists(st.sampled_from(STATIC).flatmap(two), min_size=1, max_size=3), "pts": points(0.3, 6.0, 2, 3),
                                  "ops": st.lists(st.sampled_from(["static0", "static1", "dynamic", "eval"]), min_size=1, max_size=5)})


@PROP.facet("static", static_strategy, quick=400, thorough=5000, shards=2)
def check_static(case, t):
    cs = [[[n, a] for n, a, _ in case["c"]], [[n, b] for n, _, b in case["c"]]]
    model, k0 = build(cs[0], lens_redshift_list=[0.5] * len(case["c"]), z_source_convention=1.5)
    kws = [k0, [lp.call_kw(k) for _, k in cs[1]]]
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    want = []
    for j in (0, 1):
        m, k = build(cs[j], lens_redshift_list=[0.5] * len(case["c"]), z_source_convention=1.5)
        want.append([m.potential(x, y, k), *m.alpha(x, y, k), *m.hessian(x, y, k)])

    def look(j, kw, what):
        got = [model.potential(x, y, kw), *model.alpha(x, y, kw), *model.hessian(x, y, kw)]
        for i, (a, b) in enumerate(zip(got, want[j])):
            t.close(a, b, "%s: field %d" % (what, i), 1e-6, 1e-9 * (1 + float(np.max(np.abs(b)))))

    cur = None
    for op in case["ops"]:
        if op == "dynamic":
            model.set_dynamic()
            cur = None
        elif op == "eval":
            pass
        else:
            cur = int(op[-1])
            ret = model.set_static(kws[cur])
            look(cur, ret, "static mode with the returned parameters")
        if cur is None:
            look(0, kws[0], "dynamic mode")
            look(1, kws[1], "dynamic mode, other parameters")
        else:
            look(cur, kws[cur], "static mode")
    model.set_dynamic()
    look(1, kws[1], "after releasing the static mode")
    look(0, kws[0], "after releasing the static mode, other parameters")
    for n, _, _ in case["c"]:
        t.label(n)
    t.nontrivial(any(o.startswith("static") for o in case["ops"]))
