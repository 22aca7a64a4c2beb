"""C12: fluxes, de-projections and basis transforms of light profiles."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import quad

from harness import lightprofiles as lt
from harness.core import Property
from harness.gen import center, ellip, fl, logf, points, uni

PROP = Property(
    "C12",
    rule="A case is one light profile (or list) with generated parameters plus radii, positions, a grid or an image as the facet needs. Non-trivial: nonzero amplitude.",
    assumptions=["numerical integrals are compared at 1e-3 (power-law cored Sersic: 2 %)", "shapelet decomposition is checked on grids that sample and contain the basis"],
    title="Fluxes, de-projections and basis sets of light profiles are consistent",
    statement="The total flux a light profile reports is the integral of its surface brightness, normalised fluxes are those of unit amplitude, and the half-light radius of a Sersic profile encloses half of "
    "it. The three-dimensional light distribution projects onto the surface brightness, and a light profile and the mass profile of the same name have proportional shapes. Decomposing an image into shapelets or starlets and "
    "rebuilding it returns the same coefficients and image.",
    over=["inputs"],
    quant="all profiles offering a flux, a three-dimensional form, a mass counterpart or a decomposition, and all their parameters",
    why="Tests compare total fluxes on pixel grids at one parameter set and check the projection for a few radii.",
    files=["lenstronomy/LightModel/light_model_base.py", "lenstronomy/LightModel/Profiles", "lenstronomy/LensModel/Profiles/sersic_utils.py"],
    mechanism=[("flux and 3d dispatch", "lenstronomy/LightModel/light_model_base.py"), ("shapelet sets", "lenstronomy/LightModel/Profiles/shapelets.py"), ("starlets", "lenstronomy/LightModel/Profiles/starlets_util.py")],
    observe=["LightModel.total_flux", "LightModel.light_3d", "LightModel.surface_brightness", "ShapeletSet.decomposition", "ShapeletSetPolar.decomposition", "SLIT_Starlets.decomposition_2d/function_2d", "LensModel.kappa"],
    note="Oracle: numerical integration over elliptical annuli and along the line of sight; round trips of the transforms.",
)

FLUX = [n for n in lt.NAMES if "flux" in lt.CAT[n].tags] + ["INTERPOL", "SERSIC_ELLIPSE_FLEXION", "PL_SERSIC"]
_T, _W = np.polynomial.legendre.leggauss(60)


def annuli(f, rmin, rmax, e, c, nseg=14, nphi=8):
    """Integral of f over elliptical annuli (area-preserving elliptical coordinates)."""
    e1, e2 = e
    n = math.sqrt(1 - e1**2 - e2**2)
    # inverse of the symmetric unimodular map
    edges = np.linspace(math.log(rmin), math.log(rmax), nseg + 1)
    tot = 0.0
    ph = (np.arange(nphi) + 0.3) * 2 * np.pi / nphi
    for a, b in zip(edges[:-1], edges[1:]):
        u = 0.5 * (b - a) * _T + 0.5 * (a + b)
        R = np.exp(u)
        U, V = np.outer(R, np.cos(ph)), np.outer(R, np.sin(ph))
        x = ((1 + e1) * U + e2 * V) / n + c[0]
        y = (e2 * U + (1 - e1) * V) / n + c[1]
        v = np.asarray(f(x.ravel(), y.ravel())).reshape(x.shape).mean(axis=1)
        tot += np.sum(0.5 * (b - a) * _W * v * 2 * np.pi * R**2)
    return tot


def flux_strategy():
    return st.fixed_dictionaries({"model": st.sampled_from(FLUX), "norm": st.booleans(), "major": st.booleans(), "extra": st.one_of(st.none(), lt.any_profile(["GAUSSIAN", "SERSIC"]))}).flatmap(
        lambda c: lt.CAT[c["model"]].kw().map(lambda kw: dict(c, kw=kw)))


@PROP.facet("total-flux", flux_strategy, 1500, 15000, 8)
def total_flux(case, t):
    from lenstronomy.LightModel.light_model import LightModel

    n, kw = case["model"], dict(case["kw"])
    if n == "SERSIC_ELLIPSE_FLEXION":
        kw.update({p: 0.0 for p in ("a", "b1", "b2", "c1", "c2", "d1", "d2")})
    if n == "PL_SERSIC":
        kw["n_sersic"] = 1 + (kw["n_sersic"] - 1) / 2  # the profile is cut at 1000 R_sersic, which removes light for larger indices
    pk = lt.profile_kwargs(n)
    major = case["major"] and n in ("SERSIC_ELLIPSE", "SERSIC_ELLIPSE_FLEXION")
    if major:
        pk = {"sersic_major_axis": True}
    names, pks, kws = [n], [pk], [kw]
    if case["extra"]:
        names.append(case["extra"][0])
        pks.append(None)
        kws.append(case["extra"][1])
    m = LightModel(names, profile_kwargs_list=pks)
    call = [lt.call(k) for k in kws]
    if case["norm"]:
        if isinstance(kw["amp"], list):
            s = sum(kw["amp"])
            if abs(s) < 0.3:
                t.trivial()
                return
            kw = dict(kw, amp=[a / s for a in kw["amp"]])
        else:
            kw = dict(kw, amp=1.0)
    got = m.total_flux(call, norm=case["norm"])
    t.equal(len(got), len(names), "length of the flux list")
    t.close(m.total_flux(call, norm=case["norm"], k=0)[0], got[0], "flux of a selected component", rtol=1e-12, atol=0)
    if len(names) == 2:
        t.close(m.total_flux(call, norm=case["norm"], k=1)[0], got[1], "flux of the second component", rtol=1e-12, atol=0)
    one = lt.call(kw)
    sb = lambda x, y: LightModel([n], profile_kwargs_list=[pk]).surface_brightness(x, y, [one])
    amp = np.sum(np.abs(kw["amp"]))
    t.nontrivial(amp > 0)
    if n == "LINE_PROFILE":
        a = math.radians(kw["angle"])
        k = 40
        u = (np.arange(k) + 0.5) / k * 2 * kw["length"] - 0.5 * kw["length"]
        v = (np.arange(k) + 0.5) / k * 2 * kw["width"] - kw["width"]
        U, V = [q.ravel() for q in np.meshgrid(u, v)]
        x, y = math.cos(a) * U + math.sin(a) * V + kw["start_x"], -math.sin(a) * U + math.cos(a) * V + kw["start_y"]
        want = np.sum(sb(x, y)) * (2 * kw["length"] / k) * (2 * kw["width"] / k)
    elif n == "INTERPOL":
        ny, nx = np.shape(kw["image"])
        U, V = [q.ravel() for q in np.meshgrid(np.arange(nx) - (nx - 1) / 2.0, np.arange(ny) - (ny - 1) / 2.0)]
        c, s = math.cos(kw["phi_G"]), math.sin(kw["phi_G"])
        want = np.sum(sb(kw["scale"] * (c * U - s * V) + kw["center_x"], kw["scale"] * (s * U + c * V) + kw["center_y"])) * kw["scale"] ** 2
        t.close(got[0], want, "total flux of %s" % n, rtol=1e-6, atol=1e-8)
        return
    else:
        e = (kw.get("e1", 0.0), kw.get("e2", 0.0))
        sc = kw.get("R_sersic", kw.get("Rs", kw.get("sigma", kw.get("sigma_min", 1.0))))
        sc = float(np.max(sc)) + kw.get("sigma_width", 0.0)
        hi = {"S": 900.0}.get(n[0], 30.0) if not n.startswith("SHAP") else 30.0
        if n.startswith("HERN"):
            hi = 3e5
        if n.startswith("PL_"):
            hi = 900.0
        if major:
            hi = 400.0
        lo = 1e-5 if not n.startswith("PL_") else 1e-4
        if n.startswith("PL_"):
            # two smooth pieces
            want = annuli(sb, 1e-4, kw["r_c"], e, (kw["center_x"], kw["center_y"]), nseg=2, nphi=3) + annuli(sb, kw["r_c"] * (1 + 1e-12), 900 * sc, e, (kw["center_x"], kw["center_y"]), nseg=10, nphi=3)
        else:
            want = annuli(sb, lo * sc, hi * sc, e, (kw["center_x"], kw["center_y"]), nseg=18 if hi > 100 else 10)
    t.close(got[0], want, "total flux of %s%s" % (n, " (major axis)" if major else ""), rtol=2e-2 if n.startswith("PL_") else 2e-3, atol=1e-3 * amp * 1e-3)


@PROP.facet("half-light", lambda: st.fixed_dictionaries({"model": st.sampled_from(["SERSIC", "SERSIC_ELLIPSE", "SERSIC_ELLIPSE_Q_PHI"]), "n": fl(0.7, 4), "R": logf(0.1, 3), "e": ellip(0.4), "c": st.tuples(center(), center()), "major": st.booleans()}), 300, 3000, 2)
def half_light(case, t):
    from lenstronomy.LightModel.light_model import LightModel

    n = case["model"]
    kw = {"amp": 1.0, "R_sersic": case["R"], "n_sersic": case["n"], "center_x": case["c"][0], "center_y": case["c"][1]}
    e = case["e"] if n != "SERSIC" else [0.0, 0.0]
    q = (1 - math.hypot(*e)) / (1 + math.hypot(*e))
    if n == "SERSIC_ELLIPSE":
        kw.update(e1=e[0], e2=e[1])
    elif n != "SERSIC":
        kw.update(q=q, phi=0.5 * math.atan2(e[1], e[0]))
    major = case["major"] and n != "SERSIC"
    m = LightModel([n], profile_kwargs_list=[{"sersic_major_axis": True} if major else None])
    f = lambda x, y: m.surface_brightness(x, y, [kw])
    R = case["R"] * (math.sqrt(q) if major else 1.0)
    inner = annuli(f, 1e-5 * R, R, e, case["c"], nseg=8)
    outer = annuli(f, R, 99.0 * R, e, case["c"], nseg=8)
    t.close(inner / (inner + outer), 0.5, "light fraction inside the half-light radius of %s (n=%.2f)" % (n, case["n"]), rtol=0, atol=1.2e-2)
    # isophotes: axis ratio and orientation
    if n != "SERSIC":
        phi = 0.5 * math.atan2(e[1], e[0])
        a = case["R"] * 0.9
        va = f(a * math.cos(phi) + case["c"][0], a * math.sin(phi) + case["c"][1])
        vb = f(-a * q * math.sin(phi) + case["c"][0], a * q * math.cos(phi) + case["c"][1])
        t.close(va, vb, "brightness on the major axis a and minor axis q a", rtol=1e-6)


PROJ = [n for n in lt.NAMES if "3d" in lt.CAT[n].tags]


@PROP.facet("projection", lambda: st.fixed_dictionaries({"profiles": st.lists(lt.any_profile(PROJ), min_size=1, max_size=2), "R": logf(0.03, 3), "sel": st.sampled_from([None, None, 0, [0]])}), 800, 8000, 8)
def projection(case, t):
    prof = []
    for n, kw in case["profiles"]:
        kw = {k: (0.0 if k.startswith("e1") or k.startswith("e2") or k.startswith("center") else v) for k, v in kw.items()}
        prof.append((n, kw))
    names = [p[0] for p in prof]
    call = [lt.call(p[1]) for p in prof]
    k = case["sel"]
    m = lt.model(names)
    R = case["R"]
    scale = sum(float(np.abs(lt.reference(n, kw, np.array([R]), np.array([0.0])))[0]) for n, kw in prof)

    def j(z):
        return float(m.light_3d(np.array([math.sqrt(R * R + z * z)]), call, k=k)[0])

    got = 0.0
    for a, b in ((0, R), (R, 10 * R), (10 * R, 100 * R)):
        got += 2 * quad(j, a, b, epsabs=1e-10 * (scale + 1e-30), epsrel=1e-7, limit=200)[0]
    got += 2 * quad(lambda u: j(1 / u) / u**2, 0, 1 / (100 * R), epsabs=1e-10 * (scale + 1e-30), epsrel=1e-6, limit=200)[0]
    want = float(m.surface_brightness(np.array([R]), np.array([0.0]), call, k=k)[0])
    t.nontrivial(scale > 0)
    t.close(got, want, "line-of-sight integral of the 3d light of %s (selection %s)" % (names, k), rtol=1e-3, atol=1e-4 * scale + 1e-12)


PAIR = {"HERNQUIST": ("HERNQUIST", "sigma0"), "PJAFFE": ("PJAFFE", "sigma0"), "GAUSSIAN": ("GAUSSIAN", "amp"), "GAUSSIAN_ELLIPSE": ("GAUSSIAN_ELLIPSE_KAPPA", "amp"), "SERSIC": ("SERSIC", "k_eff"),
        "MULTI_GAUSSIAN": ("MULTI_GAUSSIAN", "amp"), "CHAMELEON": ("CHAMELEON", "alpha_1"), "DOUBLE_CHAMELEON": ("DOUBLE_CHAMELEON", "alpha_1"), "TRIPLE_CHAMELEON": ("TRIPLE_CHAMELEON", "alpha_1")}


@PROP.facet("mass-follows-light", lambda: st.fixed_dictionaries({"model": st.sampled_from(sorted(PAIR)), "pts": points(0.1, 2.5, 3, 6)}).flatmap(lambda c: lt.CAT[c["model"]].kw().map(lambda kw: dict(c, kw=kw))), 800, 8000, 4)
def follows(case, t):
    from lenstronomy.LensModel.lens_model import LensModel

    n, kw = case["model"], dict(case["kw"])
    lens, par = PAIR[n]
    kw["amp"] = [abs(a) + 0.1 for a in kw["amp"]] if isinstance(kw["amp"], list) else 1.0
    if n.startswith("GAUSSIAN_ELL") and math.hypot(kw["e1"], kw["e2"]) < 0.02:
        kw["e1"] = 0.05
    x = np.array([p[0] for p in case["pts"]]) + kw["center_x"]
    y = np.array([p[1] for p in case["pts"]]) + kw["center_y"]
    lk = {k: v for k, v in lt.call(kw).items() if k != "amp"}
    lk[par] = lt.call(kw)["amp"]
    sb = lt.model([n]).surface_brightness(x, y, [lt.call(kw)])
    kappa = LensModel([lens]).kappa(x, y, [lk])
    peak = lt.model([n]).surface_brightness(np.array([kw["center_x"] + 0.1]), np.array([kw["center_y"]]), [lt.call(kw)])[0]
    atol = 2e-4 * max(peak, np.max(sb))
    i = int(np.argmax(sb))
    if sb[i] < 1e-2 * peak:
        t.trivial()
        return
    ratio = kappa[i] / sb[i]
    t.close(kappa / ratio, sb, "shape of the convergence of %s against its brightness" % n, rtol=5e-3, atol=atol)
    if n in ("HERNQUIST", "PJAFFE", "GAUSSIAN", "MULTI_GAUSSIAN", "SERSIC", "GAUSSIAN_ELLIPSE"):
        t.close(kappa, sb, "convergence of %s against its brightness at equal normalisation" % n, rtol=5e-3, atol=atol)


def shp():
    return st.fixed_dictionaries({"model": st.sampled_from(["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]), "beta": uni(0.3, 0.8), "c": st.tuples(center(0.2), center(0.2)), "nmax": st.integers(0, 4),
                                  "amps": st.lists(fl(-2, 2), min_size=25, max_size=25)})


@PROP.facet("shapelet-decomposition", shp, 240, 2000, 8)
def shapelet(case, t):
    n = case["model"]
    m = lt.model([n])
    f = m.func_list[0]
    nmax = case["nmax"] if n != "SHAPELETS_POLAR_EXP" else min(case["nmax"], 2)
    num = (nmax + 1) ** 2 if n.endswith("EXP") else (nmax + 1) * (nmax + 2) // 2
    amp = np.array(case["amps"][:num])
    if n.endswith("EXP"):
        half, N = case["beta"] * (2 * nmax + 1) * 9.0, 402
    else:
        half, N = case["beta"] * 8.0, 101
    g = np.linspace(-half, half, N)
    dx = g[1] - g[0]
    x, y = [q.ravel() for q in np.meshgrid(g, g)]
    x, y = x + case["c"][0], y + case["c"][1]
    kw = dict(n_max=nmax, beta=case["beta"], center_x=case["c"][0], center_y=case["c"][1])
    img = m.surface_brightness(x, y, [dict(kw, amp=amp)])
    got = f.decomposition(img, x, y, delta_pix=dx, **kw)
    t.shape(got, (num,), "decomposition")
    t.close(got, amp, "%s coefficients after rebuilding and decomposing" % n, rtol=0, atol=8e-2 if n.endswith("EXP") else 1e-5)


def star():
    return st.fixed_dictionaries({"n": st.integers(8, 17), "scales": st.integers(2, 4), "gen2": st.booleans(), "seed": st.integers(0, 10**6), "scale": uni(0.05, 0.5), "c": st.tuples(center(), center()), "flat": st.booleans(), "fast": st.booleans()})


@PROP.facet("starlet-decomposition", star, 300, 3000, 2)
def starlet(case, t):
    from lenstronomy.LightModel.Profiles.starlets import SLIT_Starlets

    n, ns = case["n"], case["scales"]
    if ns - 1 > int(np.log2(n)):
        t.trivial()
        return
    img = np.random.RandomState(case["seed"]).normal(size=(n, n)) + 1.0
    s = SLIT_Starlets(fast_inverse=case["fast"], second_gen=case["gen2"], force_no_pysap=True)
    keep = img.copy()
    co = s.decomposition_2d(img, ns)
    t.shape(co, (ns, n, n), "starlet coefficients")
    t.same(img, keep, "image after decomposition")
    if not case["gen2"] and not case["fast"]:
        t.trivial()  # first generation has a plain-sum inverse only
        return
    back = s.function_2d(co, ns, n * n)
    t.close(back, img, "image rebuilt from starlets (second generation: %s)" % case["gen2"], rtol=1e-8, atol=1e-8)
    flat = s.decomposition(img.flatten() if case["flat"] else img, ns)
    t.shape(flat, (ns * n * n,), "flat starlet coefficients")
    g = (np.arange(n) - (n - 1) / 2.0) * case["scale"]
    x, y = [q.ravel() for q in np.meshgrid(g, g)]
    name = "SLIT_STARLETS_GEN2" if case["gen2"] else "SLIT_STARLETS"
    from lenstronomy.LightModel.light_model import LightModel

    lm = LightModel([name], profile_kwargs_list=[{"force_no_pysap": True}])
    sb = lm.surface_brightness(x + case["c"][0], y + case["c"][1], [{"amp": flat, "n_scales": ns, "n_pixels": n * n, "scale": case["scale"], "center_x": case["c"][0], "center_y": case["c"][1]}])
    t.close(sb.reshape(n, n), img, "starlet light model at the pixel centres", rtol=1e-6, atol=1e-6)
    t.equal(int(lm.num_param_linear([{"n_scales": ns, "n_pixels": n * n}])), ns * n * n, "number of starlet coefficients")
