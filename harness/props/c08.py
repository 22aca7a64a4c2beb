"""C08: line-of-sight corrections equal sheets of tidal fields in other planes."""

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as cz
from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import fl, points, uni
from harness.raytrace import trace

PROP = Property(
    "C08",
    rule="A case is a main lens of 1-2 components, foreground and background sheets (convergence, shear, flexion) at generated redshifts, the position of the "
    "line-of-sight entry in the list, and 1-4 positions. Non-trivial: at least one non-zero line-of-sight coefficient.",
    assumptions=["the flexion model is a first-order expansion: compared up to terms quadratic in the coefficients, which are taken around 3e-4"],
    title="Line-of-sight corrections act like tidal sheets in other planes",
    statement="A lens with line-of-sight convergence, shear and rotation maps positions and time delays exactly like multi-plane lensing by uniform tidal sheets in front of and behind "
    "the main lens; the flexion version does so to first order in its coefficients. The minimal versions equal the full ones with the documented substitutions, and it does not matter where in the model list the entry stands. "
    "Hessians are the derivatives of the deflections, and with all coefficients zero the lens is the plain main lens.",
    over=["inputs", "configurations"],
    quant="all main lenses, coefficient values, list positions, and image positions",
    why="Tests fix one lens and one set of coefficients with the entry at one list position and without rotation.",
    files=["lenstronomy/LensModel/LineOfSight/single_plane_los.py", "lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py", "lenstronomy/LensModel/LineOfSight/LOSModels/los.py",
           "lenstronomy/LensModel/lens_model.py"],
    mechanism=[("tidal version", "lenstronomy/LensModel/LineOfSight/single_plane_los.py"), ("flexion version", "lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py")],
    observe=["LensModel with LOS, LOS_MINIMAL, LOS_FLEXION or LOS_FLEXION_MINIMAL: ray_shooting/alpha/hessian/fermat_potential/potential"],
    note="Oracle: 2x2 matrix algebra for arbitrary coefficients; an independent multi-plane ray trace through sheets for physical coefficients (ray positions, and arrival-time differences between images of one source).",
)

NAMES = ["SIE", "EPL", "NFW", "NIE", "SHEAR", "GAUSSIAN_POTENTIAL"]
KEYS = ["kappa_od", "kappa_os", "kappa_ds", "gamma1_od", "gamma2_od", "gamma1_os", "gamma2_os", "gamma1_ds", "gamma2_ds", "omega_od", "omega_os", "omega_ds"]


def one(names=NAMES):
    return st.sampled_from(names).flatmap(lambda n: lp.CAT[n].kw().map(lambda kw: [n, kw]))


def los_strategy():
    return st.fixed_dictionaries({
        "comps": st.lists(one(), min_size=1, max_size=2), "pts": points(0.4, 3.0, 1, 4), "scalar": st.booleans(), "where": st.integers(0, 2),
        "los": st.fixed_dictionaries({k: fl(-0.2, 0.2, special=(0.0,)) for k in KEYS}), "minimal": st.booleans(), "src": st.booleans(),
    })


def mat(k, s):
    return np.array([[1 - k["kappa_" + s] - k["gamma1_" + s], -k["gamma2_" + s] + k["omega_" + s]], [-k["gamma2_" + s] - k["omega_" + s], 1 - k["kappa_" + s] + k["gamma1_" + s]]])


def main_model(comps):
    from lenstronomy.LensModel.lens_model import LensModel

    return LensModel([n for n, _ in comps]), [lp.call_kw(k) for _, k in comps]


def near(comps, x, y, r=0.1):
    return any(np.any(np.hypot(x - k.get("center_x", 99), y - k.get("center_y", 99)) < r) for _, k in comps)


def check_los(case, t):
    from lenstronomy.LensModel.lens_model import LensModel

    comps = case["comps"]
    L = dict(case["los"])
    if case["minimal"]:
        for s in ("kappa", "gamma1", "gamma2", "omega"):
            L[s + "_ds"] = L[s + "_od"]
        given = {k: v for k, v in L.items() if k.endswith("_od")}
        given.update({k.replace("_os", "_los"): v for k, v in L.items() if k.endswith("_os")})
    else:
        given = dict(L)
    w = min(case["where"], len(comps))
    main, kmain = main_model(comps)
    names = [n for n, _ in comps]
    names.insert(w, "LOS_MINIMAL" if case["minimal"] else "LOS")
    kws = list(kmain)
    kws.insert(w, given)
    model = LensModel(names)
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    Aod, Aos, Ads = mat(L, "od"), mat(L, "os"), mat(L, "ds")
    xd, yd = Aod[0, 0] * x + Aod[0, 1] * y, Aod[1, 0] * x + Aod[1, 1] * y
    if not any(L.values()) or near(comps, xd, yd):
        t.trivial()
        if any(L.values()):
            return
    t.label("minimal" if case["minimal"] else "full")
    t.label("listed at %d" % w)
    X, Y = (float(x[0]), float(y[0])) if case["scalar"] else (x, y)
    cut = (lambda a: a[0]) if case["scalar"] else (lambda a: a)
    a = np.array([np.asarray(v) + np.zeros_like(x) for v in main.alpha(xd, yd, kmain)])
    b = Aos @ np.array([x, y]) - Ads @ a
    sc = 1 + np.hypot(x, y) + np.hypot(*a)
    got = model.ray_shooting(X, Y, kws)
    al = model.alpha(X, Y, kws)
    for i, c in enumerate("xy"):
        t.close(got[i], cut(b[i]), "source position " + c, 0, cut(1e-6 * sc))
        t.close(al[i], cut((x, y)[i] - b[i]), "deflection " + c, 0, cut(1e-6 * sc))
    H = np.array([np.asarray(v) + np.zeros_like(x) for v in main.hessian(xd, yd, kmain)]).reshape(2, 2, -1)
    ref = np.eye(2)[:, :, None] - Aos[:, :, None] + np.einsum("ij,jkn,kl->iln", Ads, H, Aod)
    hs = 1 + np.sum(np.abs(H), axis=(0, 1))
    for v, r, n in zip(model.hessian(X, Y, kws), ref.reshape(4, -1), ("xx", "xy", "yx", "yy")):
        t.close(v, cut(r), "Hessian " + n, 0, cut(1e-5 * hs))
    det = (1 - ref[0, 0]) * (1 - ref[1, 1]) - ref[0, 1] * ref[1, 0]
    t.close(1 / model.magnification(X, Y, kws), cut(det), "inverse magnification", 0, cut(1e-5 * hs**2))
    psi = np.asarray(main.potential(xd, yd, kmain)) + np.zeros_like(x)
    ALOS = Aod.T @ np.linalg.inv(Ads) @ Aos
    if case["src"]:
        s = np.array([[0.1], [-0.2]]) + np.zeros((2, len(x)))
        fp = model.fermat_potential(X, Y, kws, x_source=0.1, y_source=-0.2)
    else:
        s = b
        fp = model.fermat_potential(X, Y, kws)
    f = np.array([x, y]) - np.linalg.inv(Aos) @ s
    ref = np.einsum("in,ij,jn->n", f, ALOS, f) / 2 - psi
    t.close(fp, cut(ref), "Fermat potential", 0, cut(1e-5 * (sc**2 + np.abs(psi))))
    t.close(model.potential(X, Y, kws), main.potential(X, Y, kmain), "potential of the main lens", 1e-6, 1e-8)


PROP.add("tidal", los_strategy, check_los, quick=500, thorough=10000, shards=2)

SH = ["kappa", "gamma1", "gamma2", "F1", "F2", "G1", "G2"]


def sheet():
    return st.lists(st.one_of(uni(-1, 1), uni(-1, 1), st.just(0.0)), min_size=7, max_size=7)


def phys_strategy():
    return st.fixed_dictionaries({
        "comps": st.lists(one(["SIE", "EPL", "NIE"]), min_size=1, max_size=1), "f": sheet(), "b": sheet(), "which": st.sampled_from(["f", "b", "fb"]), "zf": uni(0.1, 0.35), "zd": uni(0.45, 0.7),
        "zb": uni(0.8, 1.2), "zs": uni(1.5, 3.0), "pts": points(0.4, 2.5, 1, 3), "where": st.integers(0, 1), "flex": st.booleans(), "minimal": st.booleans(),
        "om": uni(-1, 1), "phi": uni(0, 6.283), "cosmo": st.fixed_dictionaries({"m": st.just("flat"), "H0": fl(60, 80), "Om": fl(0.2, 0.4)}),
    })


def sheet_alpha(P, x, y):
    k, g1, g2, F1, F2, G1, G2 = P
    # real tensors: second and third derivatives of the sheet potential
    return (k + g1) * x + g2 * y + 0.5 * ((3 * F1 + G1) * x * x + 2 * (F2 + G2) * x * y + (F1 - G1) * y * y), \
        g2 * x + (k - g1) * y + 0.5 * ((F2 + G2) * x * x + 2 * (F1 - G1) * x * y + (3 * F2 - G2) * y * y)


def sheet_pot(P, x, y):
    k, g1, g2, F1, F2, G1, G2 = P
    return 0.5 * ((k + g1) * x * x + 2 * g2 * x * y + (k - g1) * y * y) + ((3 * F1 + G1) * x**3 + 3 * (F2 + G2) * x * x * y + 3 * (F1 - G1) * x * y * y + (3 * F2 - G2) * y**3) / 6


def check_phys(case, t):
    from scipy.optimize import fsolve

    from lenstronomy.LensModel.lens_model import LensModel

    flex = case["flex"]
    eps = 3e-4 if flex else 0.05
    P = {s: [eps * v * (s in case["which"]) * (1 if flex or i < 3 else 0) for i, v in enumerate(case[s])] for s in "fb"}
    cosmo = cz.make(case["cosmo"])
    zf, zd, zb, zs = case["zf"], case["zd"], case["zb"], case["zs"]
    D = lambda a, b: cz.D(cosmo, a, b)  # noqa
    mu = D(zf, zd) * D(0, zs) / D(0, zd) / D(zf, zs)
    eta = D(zd, zb) * D(0, zs) / D(0, zb) / D(zd, zs)
    main, kmain = main_model(case["comps"])
    t.label("flexion" if flex else "tidal")
    t.label("sheets:" + case["which"])
    if not any(P["f"] + P["b"]):
        t.trivial()

    def defl(p, x, y):
        return main.alpha(x, y, kmain) if p == "m" else sheet_alpha(P[p], x, y)

    def pot(p, x, y):
        return main.potential(x, y, kmain) if p == "m" else sheet_pot(P[p], x, y)

    planes = [(zf, "f"), (zd, "m"), (zb, "b")]
    K = {}
    om = 0.0
    if flex:
        om = eps * case["om"]
        for i, n in enumerate(SH):
            f, b = P["f"][i], P["b"][i]
            K[n + "_od"], K[n + "_os"] = mu * f, f + b
            if i < 3:
                K[n + "_ds"] = eta * b
            else:
                K[n + "_1ds"], K[n + "_2ds"] = eta**2 * b, eta * b
        K["omega_os"] = om
        name = "LOS_FLEXION"
    else:
        # beta = A_os theta - A_ds alpha(A_od theta), exact products for linear sheets
        def G(p):
            k, g1, g2 = p[:3]
            return np.array([[k + g1, g2], [g2, k - g1]])

        nu = D(zf, zb) * D(0, zs) / D(0, zb) / D(zf, zs)
        Aod = np.eye(2) - mu * G(P["f"])
        Ads = np.eye(2) - eta * G(P["b"])
        Aos = np.eye(2) - G(P["f"]) - G(P["b"]) @ (np.eye(2) - nu * G(P["f"]))
        for A, s in ((Aod, "od"), (Ads, "ds"), (Aos, "os")):
            K["kappa_" + s] = 1 - (A[0, 0] + A[1, 1]) / 2
            K["gamma1_" + s] = (A[1, 1] - A[0, 0]) / 2
            K["gamma2_" + s] = -(A[0, 1] + A[1, 0]) / 2
            K["omega_" + s] = (A[0, 1] - A[1, 0]) / 2
        name = "LOS"
    names = [n for n, _ in case["comps"]]
    kws = list(kmain)
    names.insert(case["where"], name)
    kws.insert(case["where"], K)
    model = LensModel(names)
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    if near(case["comps"], x, y, 0.15):
        t.trivial()
        return
    sc = 1 + np.hypot(x, y) + np.hypot(*main.alpha(x, y, kmain))
    hs = 1 + sum(np.abs(h) for h in main.hessian(x, y, kmain))
    q = 60 * eps**2 * sc**3 * hs if flex else 1e-6 * sc
    r = trace(planes, cosmo, zs, zs, x, y, defl, pot)
    b = model.ray_shooting(x, y, kws)
    t.close(b[0], r[0] + om * y, "source position x behind the sheets", 0, q)
    t.close(b[1], r[1] - om * x, "source position y behind the sheets", 0, q)
    e = 1e-5
    p, m = model.alpha(x + e, y, kws), model.alpha(x - e, y, kws)
    u, v = model.alpha(x, y + e, kws), model.alpha(x, y - e, kws)
    num = [(p[0] - m[0]) / 2 / e, (u[0] - v[0]) / 2 / e, (p[1] - m[1]) / 2 / e, (u[1] - v[1]) / 2 / e]
    for g, n, c in zip(model.hessian(x, y, kws), num, ("xx", "xy", "yx", "yy")):
        t.close(g, n, "Hessian %s against the derivative of the deflection" % c, 0, (60 * eps**2 if flex else 0) * sc**3 * hs**2 + 1e-5 * hs * sc)
    if flex and case["minimal"]:
        km = {}
        for i, n in enumerate(SH):
            km[n + "_od"], km[n + "_los"] = K[n + "_od"], K[n + "_os"]
            if i > 2:
                km[n + "_1los"] = K[n + "_1ds"]
        km["omega_los"] = om
        kf = dict(K)
        for i, n in enumerate(SH):
            if i < 3:
                kf[n + "_ds"] = K[n + "_od"]
            else:
                kf[n + "_2ds"] = K[n + "_od"]
        full = list(kmain)
        full.insert(case["where"], kf)
        mini = list(kmain)
        mini.insert(case["where"], km)
        mm = LensModel([n.replace("LOS_FLEXION", "LOS_FLEXION_MINIMAL") for n in names])
        for meth in ("ray_shooting", "alpha", "hessian"):
            for i, (g, w) in enumerate(zip(getattr(mm, meth)(x, y, mini), getattr(model, meth)(x, y, full))):
                t.close(g, w, "minimal model, %s entry %d" % (meth, i), 1e-6, 1e-7)
        t.close(mm.fermat_potential(x, y, mini), model.fermat_potential(x, y, full), "minimal model, Fermat potential", 1e-6, 1e-7)
    # arrival-time difference between two images of one source
    if flex:
        kws[case["where"]] = dict(K, omega_os=0.0)
    th = float(case["comps"][0][1]["theta_E"])
    if th < 0.3:
        return
    cx, cy = case["comps"][0][1]["center_x"], case["comps"][0][1]["center_y"]
    src = np.array([cx, cy]) + 0.08 * th * np.array([np.cos(case["phi"]), np.sin(case["phi"])])
    ims = []
    for sg in (1, -1):
        s0 = [cx + sg * 1.05 * th * np.cos(case["phi"] + 0.3), cy + sg * 1.05 * th * np.sin(case["phi"] + 0.3)]
        s, _, ok, _ = fsolve(lambda w: np.array(model.ray_shooting(w[0], w[1], kws)) - src, s0, full_output=True, xtol=1e-12)
        if ok != 1 or np.hypot(*(np.array(model.ray_shooting(s[0], s[1], kws)) - src)) > 1e-9 or np.hypot(s[0] - cx, s[1] - cy) < 0.2 * th or np.hypot(*s) > 4:
            return
        ims.append(s)
    ix, iy = np.array(ims).T
    if np.hypot(ix[0] - ix[1], iy[0] - iy[1]) < 0.1 * th:
        return
    mag = np.max(np.abs(main.magnification(ix, iy, kmain)))
    if mag > 30:
        return
    t.label("image pair")
    r = trace(planes, cosmo, zs, zs, ix, iy, defl, pot)
    if np.max(np.hypot(r[0] - src[0], r[1] - src[1])) > (1e-3 if flex else 1e-7):
        t.fail("the images found do not map back to the source")
    ref = (r[2] + r[3]) / cz.days_per_arcsec2(cosmo, zd, zs)
    fp = model.fermat_potential(ix, iy, kws)
    t.close(fp[0] - fp[1], ref[0] - ref[1], "Fermat potential difference between two images", 0, (200 * eps**2 * (1 + th) ** 3 if flex else 1e-5) * (1 + th**2) + 1e-6)


PROP.add("sheets", phys_strategy, check_phys, quick=300, thorough=6000, shards=3)
