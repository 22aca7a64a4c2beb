"""C07: multi-plane ray tracing."""

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as cz
from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import fl, points, uni
from harness.raytrace import trace

PROP = Property(
    "C07",
    rule="A case is a list of 1-5 deflectors at generated (unsorted, sometimes equal, sometimes behind the source) redshifts, a flat cosmology, a source and a convention "
    "redshift, 1-4 positions and a history of 0-4 source-redshift / cosmology changes. Non-trivial: at least two distinct redshifts in front of the source.",
    assumptions=["spatially flat background cosmologies (the recursion of the library adds comoving distances)", "numerical Hessians are compared at 1e-3"],
    title="Multi-plane ray tracing follows the lens equation of all planes",
    statement="For deflectors at any redshifts, listed in any order, ray shooting, deflection, Hessian and arrival time of a multi-plane lens model follow the "
    "multi-plane lens equation with the distances of the chosen cosmology: deflectors behind the source have no effect, deflectors at the same redshift act as one "
    "plane, and positions declared as observed are placed where an observer sees them. Tracing a ray in two pieces equals tracing it in one. Changing the source redshift or "
    "the cosmology gives the same results as a newly built model.",
    over=["inputs", "configurations", "histories"],
    quant="all deflector lists and orderings, redshifts, flat cosmologies, conventions, positions and update sequences",
    why="Tests use two to four planes with redshifts in ascending order and a source behind all of them, and compare mostly with the library's own single-plane mode.",
    files=["lenstronomy/LensModel/MultiPlane/multi_plane.py", "lenstronomy/LensModel/MultiPlane/multi_plane_base.py", "lenstronomy/LensModel/lens_model.py", "lenstronomy/Cosmo/background.py"],
    mechanism=[("plane ordering, partial ray shooting and delays", "lenstronomy/LensModel/MultiPlane/multi_plane_base.py"),
               ("source distances and observed-position convention", "lenstronomy/LensModel/MultiPlane/multi_plane.py")],
    observe=["LensModel(multi_plane=True).ray_shooting/alpha/hessian/arrival_time/fermat_potential", "MultiPlane.ray_shooting_partial_comoving", "LensModel.hessian_z1z2"],
    note="Oracle: an independent implementation of the multi-plane equation in its summed form (every plane gets T_j theta minus the sum of the earlier deflections), on astropy distances.",
)

NAMES = ["SIE", "SIS", "SHEAR", "CONVERGENCE", "EPL", "NFW", "GAUSSIAN_POTENTIAL", "NIE", "HERNQUIST", "PJAFFE"]


def one():
    return st.sampled_from(NAMES).flatmap(lambda n: lp.CAT[n].kw().map(lambda kw: [n, kw]))


def flat():
    return st.one_of(
        st.fixed_dictionaries({"m": st.just("flat"), "H0": fl(55, 85), "Om": fl(0.15, 0.5)}),
        st.fixed_dictionaries({"m": st.just("fwcdm"), "H0": fl(55, 85), "Om": fl(0.15, 0.5), "w0": fl(-1.4, -0.6)}),
    )


def zlist():
    z = st.one_of(uni(0.1, 1.4), st.sampled_from([0.3, 0.5, 0.5, 0.8, 1.0]))
    return st.lists(st.tuples(z, one()), min_size=1, max_size=5)


def strategy():
    step = st.one_of(st.tuples(st.just("zs"), fl(0.6, 4.0)), st.tuples(st.just("cosmo"), flat()), st.tuples(st.just("same"), st.just(0)))
    return st.fixed_dictionaries({
        "planes": zlist(), "pts": points(0.3, 4.0, 1, 4), "scalar": st.booleans(), "zs": st.one_of(fl(0.6, 4.0), uni(0.6, 1.5)), "zc": st.one_of(st.none(), fl(1.45, 5.0)),
        "cosmo": flat(), "perm": st.permutations(list(range(5))), "zmid": uni(0.05, 1.0), "interp": st.sampled_from([False, False, True]),
        "obs": st.lists(st.booleans(), min_size=5, max_size=5), "useobs": st.sampled_from([False, False, True]), "steps": st.lists(step, max_size=3), "zlens": st.sampled_from([0.3, 0.5]),
    })


def defl(p, x, y):
    n, kw = p
    z = np.zeros_like(x)
    return [np.asarray(a) + z for a in lp.instance(n).derivatives(np.array(x), np.array(y), **lp.call_kw(kw))]


def pot(p, x, y):
    n, kw = p
    return np.asarray(lp.instance(n).function(np.array(x), np.array(y), **lp.call_kw(kw))) + np.zeros_like(x)


def place_observed(planes, obs, cosmo, zs, zconv):
    """Move the centres of the observed-convention planes to their physical angular position."""
    out = [[z, [p[0], dict(p[1])]] for z, p in planes]
    for z, i in sorted([(planes[i][0], i) for i in obs]):
        kw = planes[i][1][1]
        r = trace(out, cosmo, z, zconv, kw["center_x"], kw["center_y"], defl, pot)
        out[i][1][1]["center_x"], out[i][1][1]["center_y"] = float(r[0]), float(r[1])
    return out


def check(case, t):
    from lenstronomy.LensModel.lens_model import LensModel

    planes = case["planes"]
    zs = case["zs"]
    zmax = max(z for z, _ in planes)
    zc = case["zc"]
    if zc is None and zmax >= zs:
        zc = 1.6
    zc_used = zs if zc is None else zc
    if zc_used <= zmax + 0.02:
        t.trivial()
        return
    cosmo = cz.make(case["cosmo"])
    has_c = [i for i, (z, p) in enumerate(planes) if "center_x" in p[1]]
    obs = [i for i in has_c if case["obs"][i]] if case["useobs"] else []
    zlens = case["zlens"]
    kw = dict(multi_plane=True, lens_redshift_list=[z for z, _ in planes], z_source=zs, z_source_convention=zc, z_lens=min(zlens, zs - 0.05))
    if case["interp"]:
        kw.update(cosmo_interp=True, z_interp_stop=6, num_z_interp=400)
    if obs:
        kw["observed_convention_index"] = list(obs)
    names = [p[0] for _, p in planes]
    model = LensModel(names, cosmo=cosmo, **kw)
    kws = [lp.call_kw(p[1]) for _, p in planes]
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    cut = (lambda a: a[0]) if case["scalar"] else (lambda a: a)
    X, Y = (float(x[0]), float(y[0])) if case["scalar"] else (x, y)
    rt = 1e-4 if case["interp"] else 1e-6
    t.label("observed" if obs else "physical")
    t.label("interp" if case["interp"] else "exact")
    t.label("convention" if zc is not None and zc != zs else "own source")

    def verify(when, full=True):
        pl = place_observed(planes, obs, cosmo, zs, zc_used) if obs else planes
        bx, by, geo, grav, pos = trace(pl, cosmo, zs, zc_used, x, y, defl, pot)
        if any(abs(z - zs) < 1e-9 for z, _ in planes):
            return
        behind = any(z > zs for z, _ in planes)
        if behind:
            t.label("deflector behind source")
        if any(np.any(np.hypot(pos[z][0] - p[1].get("center_x", 99), pos[z][1] - p[1].get("center_y", 99)) < 0.03) for z, p in pl if z < zs):
            t.label("near a centre")
            return
        sc = np.hypot(x, y) + np.hypot(x - bx, y - by) + sum(np.hypot(*pos[z]) for z in pos)
        gx, gy = model.ray_shooting(X, Y, kws)
        t.close(gx, cut(bx), "source position x %s" % when, 0, cut(100 * rt * sc) if obs else cut(rt * 10 * sc))
        t.close(gy, cut(by), "source position y %s" % when, 0, cut(100 * rt * sc) if obs else cut(rt * 10 * sc))
        ax, ay = model.alpha(X, Y, kws)
        t.close(ax, cut(x - bx), "deflection x %s" % when, 0, cut(100 * rt * sc))
        t.close(ay, cut(y - by), "deflection y %s" % when, 0, cut(100 * rt * sc))
        dt = model.arrival_time(X, Y, kws)
        sct = np.abs(geo) + sum(np.abs(cz.days_per_arcsec2(cosmo, z, zc_used) * pot(p, *pos[z])) for z, p in pl if z < zs) + 1e-6
        t.close(dt, cut(geo + grav), "arrival time %s" % when, 0, cut((2e-2 if case["interp"] else 1e-4) * sct))
        fp = model.fermat_potential(X, Y, kws)
        zl = model.z_lens
        u = cz.days_per_arcsec2(cosmo, zl, zs)
        t.close(fp, cut((geo + grav) / u), "effective Fermat potential %s" % when, 0, cut((2e-2 if case["interp"] else 2e-4) * sct / u))
        if full:
            e = 2e-5
            H = []
            for dx, dy in ((e, 0), (0, e)):
                p = trace(pl, cosmo, zs, zc_used, x + dx, y + dy, defl, pot)
                m = trace(pl, cosmo, zs, zc_used, x - dx, y - dy, defl, pot)
                H.append([(1 if dx else 0) - (p[0] - m[0]) / 2 / e, (1 if dy else 0) - (p[1] - m[1]) / 2 / e])
            ref = [H[0][0], H[1][0], H[0][1], H[1][1]]
            hs = sum(np.abs(h) for h in ref) + 1
            hs = hs * (1 + sc)
            for a, b, n in zip(model.hessian(X, Y, kws), ref, ("xx", "xy", "yx", "yy")):
                t.close(a, cut(b), "Hessian %s %s" % (n, when), 0, cut((3e-2 if case["interp"] else 1e-3) * hs))

    front = sorted(set(z for z, _ in planes if z < zs))
    if len(front) < 2:
        t.trivial()
    t.label("planes in front: %d" % len(front))
    verify("as built")
    # order of the list
    if not obs:
        perm = [i for i in case["perm"] if i < len(planes)]
        kw2 = dict(kw, lens_redshift_list=[planes[i][0] for i in perm])
        m2 = LensModel([names[i] for i in perm], cosmo=cosmo, **kw2)
        a, b = model.ray_shooting(X, Y, kws), m2.ray_shooting(X, Y, [kws[i] for i in perm])
        for p, q in zip(a, b):
            t.close(q, p, "source position after reordering the deflector list", 1e-6, 1e-6 * (1 + np.max(np.abs(np.asarray(p)))))
    # two pieces
    mp = model.lens_model
    zm = case["zmid"]
    if zm < zs and zm not in [z for z, _ in planes]:
        z0 = np.zeros_like(x)
        s = mp.ray_shooting_partial_comoving(z0, z0, x, y, 0, zm, kws)
        s = mp.ray_shooting_partial_comoving(s[0], s[1], s[2], s[3], zm, zs, kws)
        f = mp.ray_shooting_partial_comoving(z0, z0, x, y, 0, zs, kws)
        Ts = cz.T(cosmo, 0, zs)
        b = mp.ray_shooting(x, y, kws)
        for i in (0, 1):
            sc = (np.max(np.abs(f[i])) + Ts * np.max(np.hypot(x, y))) * (1e-3 if case["interp"] else 1e-5)
            t.close(s[i], f[i], "ray traced in two pieces (through z=%g), comoving %s" % (zm, "xy"[i]), 0, sc)
            t.close(f[i] / Ts, b[i], "comoving end point over distance", 0, sc / Ts)
        for i in (2, 3):
            t.close(s[i], f[i], "direction of the ray traced in two pieces", 0, 1e-4 * (1 + np.max(np.abs(f[i]))))
        if not obs:
            q = mp.ray_shooting_partial(x * 0, y * 0, x, y, 0, zs, kws)
            for i in (0, 1):
                t.close(q[i], b[i], "partial ray shooting to the source in angles", 1e-5, 1e-5 * (1 + np.max(np.hypot(x, y)) + np.max(np.abs(b[i]))))
    for i, (op, arg) in enumerate(case["steps"]):
        if op == "zs":
            if arg - 0.04 <= model.z_lens or (case["zc"] is None and zc is None and zmax >= zc_used):
                continue
            model.change_source_redshift(arg)
            # the convention of the reduced quantities does not move with the source
            zs = arg
        elif op == "same":
            model.change_source_redshift(zs)
        else:
            cosmo = cz.make(arg)
            model.update_cosmology(cosmo)
        t.label("step:" + op)
        verify("after step %d (%s)" % (i + 1, op), full=False)


PROP.add("trace", strategy, check, quick=700, thorough=12000, shards=6)


def sp_strategy():
    return st.fixed_dictionaries({"comps": st.lists(one(), min_size=1, max_size=3), "pts": points(0.3, 4.0, 2, 4), "z": uni(0.1, 1.0), "zs": fl(1.1, 4.0), "cosmo": flat()})


def check_sp(case, t):
    """All deflectors in one plane: the multi-plane model is the single-plane model."""
    from lenstronomy.LensModel.lens_model import LensModel

    names = [n for n, _ in case["comps"]]
    kws = [lp.call_kw(k) for _, k in case["comps"]]
    cosmo = cz.make(case["cosmo"])
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    a = LensModel(names, z_lens=case["z"], z_source=case["zs"], cosmo=cosmo)
    b = LensModel(names, z_lens=case["z"], z_source=case["zs"], cosmo=cosmo, multi_plane=True, lens_redshift_list=[case["z"]] * len(names))
    A, B = a.alpha(x, y, kws), b.alpha(x, y, kws)
    sc = 1 + np.hypot(*A)
    for i in (0, 1):
        t.close(B[i], A[i], "deflection", 0, 1e-6 * sc)
    da, db = a.arrival_time(x, y, kws), b.arrival_time(x, y, kws)
    u = cz.days_per_arcsec2(cosmo, case["z"], case["zs"])
    s = u * (np.max(np.abs(a.fermat_potential(x, y, kws))) + np.max(np.hypot(*A)) ** 2 + 0.1)
    t.close(db, da, "arrival time", 1e-4, 1e-5 * s)
    fa, fb = a.fermat_potential(x, y, kws), b.fermat_potential(x, y, kws)
    t.close(fb, fa, "Fermat potential", 1e-4, 1e-5 * s / u)
    if len(names) < 2:
        t.trivial()


PROP.add("one-plane", sp_strategy, check_sp, quick=300, thorough=4000, shards=1)


def z12_strategy():
    return st.fixed_dictionaries({"planes": st.lists(st.tuples(uni(0.1, 1.4), st.sampled_from(["SIE", "SHEAR", "NFW", "CONVERGENCE"]).flatmap(lambda n: lp.CAT[n].kw().map(lambda kw: [n, kw]))), min_size=1, max_size=3),
                                  "pts": points(0.5, 3.0, 1, 3), "z1": uni(0.05, 0.6), "z2": uni(0.8, 2.0), "cosmo": flat()})


def check_z12(case, t):
    """Hessian seen by an observer at z1: derivative of the end point with respect to the direction of the ray at z1."""
    from lenstronomy.LensModel.lens_model import LensModel

    z1, z2 = case["z1"], case["z2"]
    cosmo = cz.make(case["cosmo"])
    planes = case["planes"]
    m = LensModel([p[0] for _, p in planes], multi_plane=True, lens_redshift_list=[z for z, _ in planes], z_source=2.5, cosmo=cosmo)
    kws = [lp.call_kw(p[1]) for _, p in planes]
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    T1 = cz.T(cosmo, 0, z1)

    near = []

    def end(ax, ay):
        hat = []
        for z in sorted(set(z for z, _ in planes if z1 < z <= z2)):
            T = cz.T(cosmo, 0, z)
            px = T1 * x + cz.T(cosmo, z1, z) * ax - sum(cz.T(cosmo, zi, z) * h[0] for zi, h in hat)
            py = T1 * y + cz.T(cosmo, z1, z) * ay - sum(cz.T(cosmo, zi, z) * h[1] for zi, h in hat)
            fac = cz.D(cosmo, 2.5) / cz.D(cosmo, z, 2.5)
            new = []
            for z_, p in planes:
                if z_ == z:
                    near.append(np.min(np.hypot(px / T - p[1].get("center_x", 99), py / T - p[1].get("center_y", 99))))
                    d = defl(p, px / T, py / T)
                    new.append((z, (fac * d[0], fac * d[1])))
            hat += new
        X = T1 * x + cz.T(cosmo, z1, z2) * ax - sum(cz.T(cosmo, zi, z2) * h[0] for zi, h in hat)
        Y = T1 * y + cz.T(cosmo, z1, z2) * ay - sum(cz.T(cosmo, zi, z2) * h[1] for zi, h in hat)
        return X / cz.T(cosmo, z1, z2), Y / cz.T(cosmo, z1, z2)

    e = 1e-4
    p, q = end(x + e, y), end(x - e, y)
    r, s = end(x, y + e), end(x, y - e)
    if near and min(near) < 0.1:
        t.trivial()
        return
    ref = [1 - (p[0] - q[0]) / 2 / e, -(r[0] - s[0]) / 2 / e, -(p[1] - q[1]) / 2 / e, 1 - (r[1] - s[1]) / 2 / e]
    hs = (sum(np.abs(a) for a in ref) + 1) * (1 + T1 / cz.T(cosmo, z1, z2)) * (1 + np.hypot(x, y))
    for a, b, n in zip(m.hessian_z1z2(z1, z2, x, y, kws), ref, ("xx", "xy", "yx", "yy")):
        t.close(a, b, "Hessian %s between z1 and z2" % n, 0, 3e-3 * hs)
    if not near:
        t.trivial()


PROP.add("between-redshifts", z12_strategy, check_z12, quick=200, thorough=3000, shards=1)
