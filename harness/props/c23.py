"""C23: stellar kinematics (Jeans equation, apertures, maps)."""

import copy
import functools

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, special
from scipy.signal import convolve2d

from harness import cosmos as C
from harness import gen as g
from harness.core import Property

PROP = Property(
    "C23",
    title="Stellar kinematics solve the Jeans equation in the declared aperture",
    statement=(
        "For every mass profile, light profile and anisotropy, the radial and line-of-sight velocity dispersions are the solution of the spherical Jeans equation and its luminosity-weighted projection, whichever of the numerical, analytic or JAM "
        "solvers gives them and whatever was computed before with the same object. "
        "Apertures select exactly the declared region (shifted and rotated as declared), and the map of every pixel or bin is the seeing-convolved, luminosity-weighted average over it."
    ),
    over=("inputs", "histories"),
    quant="anisotropy models and parameters, radii, mass and light profiles, distances, apertures, pixel grids (rotated, reversed, off-centre, rectangular), histories of evaluations",
    why="tests compare solvers with each other at a few percent for one galaxy on square grids and never reuse an object with other parameters",
    files=["lenstronomy/GalKin/anisotropy.py", "lenstronomy/GalKin/numeric_kinematics.py", "lenstronomy/GalKin/analytic_kinematics.py", "lenstronomy/GalKin/light_profile.py", "lenstronomy/GalKin/aperture_types.py", "lenstronomy/GalKin/galkin.py",
           "lenstronomy/GalKin/galkin_shells.py", "lenstronomy/GalKin/galkin_multiobservation.py", "lenstronomy/GalKin/observation.py", "lenstronomy/GalKin/psf.py", "lenstronomy/JAMPy/jam_wrapper.py"],
    mechanism=["projection kernels K(r, R)", "cached interpolations", "aperture grids and bins"],
    observe=["Anisotropy", "NumericKinematics", "AnalyticKinematics", "LightProfile", "Aperture", "Galkin", "GalkinShells", "JAMWrapper"],
    rule="non-trivial: anisotropic orbits, or a rotated/off-centre aperture, or at least two evaluations of one object",
    assumptions=["|beta| < 1 and r > R", "interpolation grids fine enough for the stated tolerance "],
)

RA = g.logf(0.1, 10.0)


def ani_strategy(names=("const", "radial", "isotropic", "OM", "GOM", "Colin")):
    d = {
        "const": st.tuples(st.just("const"), st.fixed_dictionaries(dict(beta=st.one_of(g.uni(-0.45, 0.45), g.uni(0.55, 0.95))))),
        "radial": st.tuples(st.just("radial"), st.just({})),
        "isotropic": st.tuples(st.just("isotropic"), st.just({})),
        "OM": st.tuples(st.just("OM"), st.fixed_dictionaries(dict(r_ani=RA))),
        "GOM": st.tuples(st.just("GOM"), st.fixed_dictionaries(dict(r_ani=RA, beta_inf=g.uni(0.1, 1.0)))),
        "Colin": st.tuples(st.just("Colin"), st.fixed_dictionaries(dict(r_ani=RA))),
    }
    return st.one_of(*[d[n] for n in names]).map(list)


def lnf(name, kw, r):
    """log of the integrating factor, d ln f / d ln r = 2 beta."""
    if name == "const":
        return 2 * kw["beta"] * np.log(r)
    if name == "radial":
        return 2 * np.log(r)
    if name == "isotropic":
        return 0 * r
    if name == "OM":
        return np.log(r**2 + kw["r_ani"] ** 2)
    if name == "GOM":
        return kw["beta_inf"] * np.log(r**2 + kw["r_ani"] ** 2)
    return np.log(r + kw["r_ani"])


def beta_of(name, kw, r):
    if name == "const":
        return kw["beta"] + 0 * r
    if name == "radial":
        return 1.0 + 0 * r
    if name == "isotropic":
        return 0 * r
    if name == "OM":
        return r**2 / (r**2 + kw["r_ani"] ** 2)
    if name == "GOM":
        return kw["beta_inf"] * r**2 / (r**2 + kw["r_ani"] ** 2)
    return 0.5 * r / (r + kw["r_ani"])


def kernel(name, kw, s, R, n=400):
    """K(s, R) = f(s)/s int_R^s (1 - beta R^2/r^2) r / (f(r) sqrt(r^2 - R^2)) dr; substitute r = sqrt(R^2 + x^2)."""
    x, w = np.polynomial.legendre.leggauss(n)
    xm = np.sqrt(s**2 - R**2)
    # x = xm * u^2 refines the region near R
    u = (x + 1) / 2
    xx = xm * u**3
    dx = xm * 3 * u**2 * w / 2
    r = np.sqrt(R**2 + xx**2)
    return float(np.sum((1 - beta_of(name, kw, r) * R**2 / r**2) * np.exp(lnf(name, kw, s) - lnf(name, kw, r)) * dx) / s)


def ani_case():
    return st.fixed_dictionaries(dict(hist=st.lists(ani_strategy(), min_size=1, max_size=3), R=g.logf(0.01, 5.0), u=st.lists(g.logf(1.02, 30.0), min_size=1, max_size=4), log=st.fixed_dictionaries(dict(r_ani=RA, beta_0=g.uni(-0.5, 0.5), beta_inf=g.uni(-0.5, 0.9), alpha=g.uni(0.5, 3.0))), th=g.uni(0.05, 1.5)))


@PROP.facet("anisotropy", ani_case, quick=600, shards=2)
def anisotropy(case, t):
    from lenstronomy.GalKin.anisotropy import Anisotropy

    R = case["R"]
    r = R * np.array(sorted(case["u"]))
    objs = {}
    for name, kw in case["hist"]:
        a = objs.setdefault(name, Anisotropy(name))
        a.delete_anisotropy_cache()
        t.equal(a.type, name, "type")
        t.close(np.array([float(a.beta_r(x, **kw)) for x in r]), beta_of(name, kw, r), "%s beta" % name, 1e-8)
        ref = [kernel(name, kw, s, R) for s in r]
        t.close(np.asarray(a.K(r, R, **kw), dtype=float), ref, "%s projection kernel" % name, 2e-3, 1e-6)
        if name not in ("const", "Colin"):
            f = [float(a.anisotropy_solution(x, **kw)) for x in r]
            t.close(np.array(f) / f[0], np.exp(lnf(name, kw, r) - lnf(name, kw, r[0])), "%s integrating factor" % name, 1e-7)
        # JAM conventions describe the same anisotropy
        p = a.jampy_beta(kw, symmetry="spherical")
        if a.use_logistic:
            ra, b0, bi, al = p
            jb = b0 + (bi - b0) / (1 + (ra / r) ** al)
        else:
            jb = p + 0 * r
        t.close(jb, np.minimum(beta_of(name, kw, r), 0.9991), "%s anisotropy handed to JAM" % name, 2e-3, 1e-3)
        jam(t, a, kw, r, jb, case["th"], name)
        t.label(name)
    a = Anisotropy("logistic")
    kw = case["log"]
    ref = kw["beta_0"] + (kw["beta_inf"] - kw["beta_0"]) / (1 + (kw["r_ani"] / r) ** kw["alpha"])
    t.close(a.beta_r(r, **kw), ref, "logistic beta", 1e-8)
    t.close(a.jampy_beta(kw), [kw["r_ani"], kw["beta_0"], kw["beta_inf"], kw["alpha"]], "logistic parameters", 1e-8)
    jam(t, a, kw, r, ref, case["th"], "logistic")


def jam(t, a, kw, r, jb, th, name):
    fs = a.jampy_beta(kw, symmetry="axi_sph")
    if callable(fs):
        b, db = fs(r, th + 0 * r)
        t.close(b, jb, "%s axisymmetric anisotropy" % name, 1e-6, 1e-8)
        t.close(db + 0 * r, 0 * r, "%s angular derivative" % name, 1e-9, 1e-9)
    fc = a.jampy_beta(kw, symmetry="axi_cyl")
    h = 1e-5
    b, db = fc(r, th + 0 * r)
    num = (fc(r, th + h + 0 * r)[0] - fc(r, th - h + 0 * r)[0]) / (2 * h)
    t.close(db, num, "%s angular derivative of the cylindrical anisotropy" % name, 1e-3, 1e-4 * (1 + float(np.max(np.abs(num)))))
    t.close(fc(r, np.pi / 2 + 0 * r)[0], jb, "%s cylindrical anisotropy in the equatorial plane" % name, 1e-5, 1e-6)
    t.close((1 - fc(r, 0 * r)[0]) * (1 - jb), 1.0 + 0 * r, "%s cylindrical anisotropy on the axis" % name, 1e-5)


# ---- Jeans equation -----------------------------------------------------------------------------
def mass_strategy():
    return st.one_of(
        st.tuples(st.just("SPP"), st.fixed_dictionaries(dict(theta_E=g.uni(0.5, 2.0), gamma=g.uni(1.7, 2.3)))),
        st.tuples(st.just("NFW"), st.fixed_dictionaries(dict(Rs=g.uni(1.0, 10.0), alpha_Rs=g.uni(0.5, 3.0)))),
        st.tuples(st.just("HERNQUIST"), st.fixed_dictionaries(dict(Rs=g.uni(0.3, 2.0), sigma0=g.uni(0.3, 2.0)))),
    ).map(list)


def light_strategy():
    return st.one_of(
        st.tuples(st.just("HERNQUIST"), st.fixed_dictionaries(dict(amp=g.logf(0.1, 10.0), Rs=g.uni(0.2, 1.5)))),
        st.tuples(st.just("PJAFFE"), st.fixed_dictionaries(dict(amp=g.logf(0.1, 10.0), Ra=g.uni(0.1, 0.5), Rs=g.uni(0.6, 2.0)))),
    ).map(list)


def m3d(name, kw, r):
    """Enclosed mass in units of the critical surface density times arcsec^2."""
    if name == "SPP":
        ga = kw["gamma"]
        rho0 = (3 - ga) / 2 * kw["theta_E"] ** (ga - 1) * special.gamma(ga / 2) / special.gamma((ga - 1) / 2) / np.sqrt(np.pi)
        return 4 * np.pi * rho0 * r ** (3 - ga) / (3 - ga)
    if name == "NFW":
        rho0 = kw["alpha_Rs"] / (4 * kw["Rs"] ** 2 * (1 + np.log(0.5)))
        x = r / kw["Rs"]
        return 4 * np.pi * rho0 * kw["Rs"] ** 3 * (np.log1p(x) - x / (1 + x))
    rho0 = kw["sigma0"] / kw["Rs"]
    return 2 * np.pi * rho0 * kw["Rs"] ** 3 * r**2 / (r + kw["Rs"]) ** 2


def l3d(name, kw, r):
    if name == "HERNQUIST":
        x = r / kw["Rs"]
        return 1 / (x * (1 + x) ** 3)
    return 1 / ((1 + (r / kw["Ra"]) ** 2) * (1 + (r / kw["Rs"]) ** 2))


V2 = C.C_LIGHT**2 * C.ARCSEC / (4 * np.pi)  # G M / (c^2 D) with M in critical densities: c^2 / (4 pi) * Ds/Dds * arcsec


@functools.lru_cache(maxsize=None)
def gl(n):
    return np.polynomial.legendre.leggauss(n)


def sigma_r2(mass, light, ani, r, fac, rmax):
    x, w = gl(200)
    ls = np.log(r) + (x + 1) / 2 * (np.log(rmax) - np.log(r))
    s = np.exp(ls)
    y = np.exp(lnf(ani[0], ani[1], s) - lnf(ani[0], ani[1], r)) * l3d(*light, s) / l3d(*light, r) * m3d(*mass, s) / s
    return V2 * fac * np.sum(y * w) / 2 * (np.log(rmax) - np.log(r))


def sigma_los2(mass, light, ani, R, fac, rmax):
    """Projection of the radial solution."""
    x, w = gl(120)
    xm = np.sqrt(rmax**2 - R**2)
    lo, hi = np.log(1e-3 * R), np.log(xm)
    y = np.exp(lo + (x + 1) / 2 * (hi - lo))
    wy = w * (hi - lo) / 2 * y
    y = np.concatenate([(x + 1) / 2 * 1e-3 * R, y])
    wy = np.concatenate([w / 2 * 1e-3 * R, wy])
    r = np.sqrt(R**2 + y**2)
    keep = r < rmax * (1 - 1e-12)
    r, wy = r[keep], wy[keep]
    s2 = np.array([sigma_r2(mass, light, ani, q, fac, rmax) for q in r])
    nu = l3d(*light, r)
    return np.sum(wy * nu * s2 * (1 - beta_of(ani[0], ani[1], r) * R**2 / r**2)) / np.sum(wy * nu), 2 * np.sum(wy * nu)


def jeans_case():
    return st.fixed_dictionaries(dict(hist=st.lists(st.fixed_dictionaries(dict(mass=st.lists(mass_strategy(), min_size=1, max_size=1), light=light_strategy(), ani=ani_strategy())), min_size=1, max_size=2), dd=g.uni(500, 1500), ds=g.uni(1200, 2000), dds=g.uni(400, 1200), R=g.logf(0.1, 5.0), log=st.booleans()))


@PROP.facet("jeans", jeans_case, quick=60, shards=4)
def jeans(case, t):
    from lenstronomy.GalKin.numeric_kinematics import NumericKinematics

    c = case
    R = c["R"]
    fac = c["ds"] / c["dds"]
    rmax = 500.0
    obj = {}
    for h in c["hist"]:
        (mn, mk), (ln, lk), (an, ak) = h["mass"][0], h["light"], h["ani"]
        key = (mn, ln, an)
        if key not in obj:
            obj[key] = NumericKinematics(dict(mass_profile_list=[mn], light_profile_list=[ln], anisotropy_model=an), dict(d_d=c["dd"], d_s=c["ds"], d_ds=c["dds"]), interpol_grid_num=900, log_integration=True, max_integrate=rmax, min_integrate=1e-4)
        k = obj[key]
        k.delete_cache()
        args = ([dict(mk)], [dict(lk)], dict(ak))
        keep = copy.deepcopy(args)
        m = m3d(mn, mk, R)
        mref = m * C.ARCSEC**2 * c["dd"] * fac * C.MPC * C.C_LIGHT**2 / (4 * np.pi * C.G_NEWTON)
        t.close(k.mass_3d(R, args[0]), mref, "enclosed mass", 2e-3)
        t.close(k.grav_potential(R, args[0]), -m / R * V2 * fac, "gravitational potential", 1e-4)
        if an not in ("const", "Colin"):
            ref = sigma_r2((mn, mk), (ln, lk), (an, ak), R, fac, rmax)
            t.close(float(k.sigma_r2(R, *args)), ref, "radial dispersion", 5e-2)
            b = beta_of(an, ak, 2 * R)
            ref2 = sigma_r2((mn, mk), (ln, lk), (an, ak), 2 * R, fac, rmax) * (1 - b / 4)
            t.close(float(k.sigma_s2_r(2 * R, R, *args)), ref2, "line-of-sight dispersion at a radius", 5e-2)
        ref, ir = sigma_los2((mn, mk), (ln, lk), (an, ak), R, fac, rmax)
        s2, one = k.sigma_s2(1.5 * R, R, *args)
        t.close(float(s2 / one), ref, "projected dispersion (%s, %s, %s)" % (mn, ln, an), 3e-2)
        a, b = k.I_R_sigma2_and_IR(R, *args)
        t.close(float(a / b), ref, "luminosity-weighted projection", 3e-2)
        t.unchanged(args, keep, "the caller's arguments")
        t.label(an)


def analytic_case():
    return st.fixed_dictionaries(dict(hist=st.lists(st.fixed_dictionaries(dict(theta_E=g.uni(0.5, 2.0), gamma=g.uni(1.7, 2.3), r_eff=g.uni(0.4, 2.0), r_ani=RA, form=st.sampled_from(["r_eff", "a", "Rs"]))), min_size=1, max_size=3), dd=g.uni(500, 1500), ds=g.uni(1200, 2000), dds=g.uni(400, 1200), r=g.logf(0.05, 5.0), share=st.booleans(), seed=st.integers(0, 99)))


@PROP.facet("analytic", analytic_case, quick=80, shards=2)
def analytic(case, t):
    from lenstronomy.GalKin.analytic_kinematics import AnalyticKinematics
    from lenstronomy.GalKin.galkin import Galkin

    c = case
    kc = dict(d_d=c["dd"], d_s=c["ds"], d_ds=c["dds"])
    fac = c["ds"] / c["dds"]
    k = AnalyticKinematics(kc, interpol_grid_num=400, max_integrate=1000, min_integrate=1e-4)
    ka, kp = dict(aperture_type="slit", length=2.0, width=1.0), dict(psf_type="GAUSSIAN", fwhm=0.7)
    gk = Galkin(dict(anisotropy_model="OM"), ka, kp, kc, kwargs_numerics=dict(interpol_grid_num=80), analytic_kinematics=True)
    km, kl, kani = {}, {}, {}
    for h in c["hist"]:
        if not c["share"]:
            km, kl, kani = {}, {}, {}
        km.update(theta_E=h["theta_E"], gamma=h["gamma"])
        a = 0.551 * h["r_eff"]
        kl.clear()
        kl.update({"r_eff": dict(r_eff=h["r_eff"]), "a": dict(a=a), "Rs": dict(Rs=a, amp=1.0)}[h["form"]])
        kani.update(r_ani=h["r_ani"])
        keep = copy.deepcopy((km, kl, kani))
        mass, light, ani = ("SPP", dict(theta_E=h["theta_E"], gamma=h["gamma"])), ("HERNQUIST", dict(Rs=a)), ("OM", dict(r_ani=h["r_ani"]))
        r = c["r"]
        ref = sigma_r2(mass, light, ani, r, fac, 1e6)
        t.close(float(k.sigma_r2(r, km, kl, kani)), ref, "analytic radial dispersion", 2e-3)
        s2, _ = k.sigma_s2(r, 0.6 * r, km, kl, kani)
        t.close(float(s2), ref * (1 - beta_of("OM", kani, r) * 0.36), "analytic line-of-sight dispersion", 1e-2)
        t.close(k.grav_potential(r, km), -m3d(*mass, r) / r * V2 * fac, "analytic potential", 1e-4)
        k.delete_cache()
        # random sampling: the same draws whatever was sampled before
        np.random.seed(c["seed"])
        v = gk.dispersion(km, kl, kani, sampling_number=20)
        np.random.seed(c["seed"])
        fresh = Galkin(dict(anisotropy_model="OM"), ka, kp, kc, kwargs_numerics=dict(interpol_grid_num=80), analytic_kinematics=True)
        t.close(v, fresh.dispersion(copy.deepcopy(keep[0]), copy.deepcopy(keep[1]), copy.deepcopy(keep[2]), sampling_number=20), "dispersion of a re-used object", 1e-8)
        t.unchanged((km, kl, kani), keep, "the caller's arguments")
    t.nontrivial(True)


# ---- apertures ----------------------------------------------------------------------------------
def ap_strategy():
    cen = dict(center_ra=g.uni(-1.0, 1.0), center_dec=g.uni(-1.0, 1.0), delta_pix=st.sampled_from([0.1, 0.2, 0.05]))
    ang = dict(angle=g.uni(-3.0, 3.0))
    return st.one_of(
        st.fixed_dictionaries(dict(cen, **ang, aperture_type=st.just("slit"), length=g.uni(0.6, 3.0), width=g.uni(0.4, 2.0))),
        st.fixed_dictionaries(dict(cen, aperture_type=st.just("shell"), r_in=g.uni(0.0, 0.6), r_out=g.uni(0.8, 2.0))),
        st.fixed_dictionaries(dict(cen, **ang, aperture_type=st.just("frame"), width_outer=g.uni(1.5, 3.0), width_inner=g.uni(0.4, 1.2))),
        st.fixed_dictionaries(dict(cen, aperture_type=st.just("IFU_shells"), r_bins=st.lists(g.uni(0.2, 0.7), min_size=2, max_size=4).map(lambda l: [float(x) for x in np.cumsum(l) - l[0] * 0.999]))),
        st.fixed_dictionaries(dict(ang, aperture_type=st.sampled_from(["IFU_grid", "IFU_binned"]), nx=st.integers(2, 6), ny=st.integers(2, 6), d=g.uni(0.2, 0.6), x0=g.uni(-1, 1), y0=g.uni(-1, 1), flip=st.booleans(), flipy=st.booleans(), rot=st.booleans(), bins=st.lists(st.integers(-1, 2), min_size=36, max_size=36))),
    )


def rot(x, y, a):
    return np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y


def ifu(d):
    """Pixel grid in its own frame, sky coordinates, angle, bins."""
    sx, sy = (-1 if d["flip"] else 1), (-1 if d["flipy"] else 1)
    ang = d["angle"] if d["rot"] else 0.0
    x, y = np.meshgrid(d["x0"] + sx * d["d"] * np.arange(d["nx"]), d["y0"] + sy * d["d"] * np.arange(d["ny"]))
    X, Y = rot(x, y, ang)
    b = np.array(d["bins"][: d["nx"] * d["ny"]]).reshape(d["ny"], d["nx"])
    if b.max() < 0:
        b[0, 0] = 0
    # consecutive labels
    u = sorted(set(b[b >= 0].ravel()))
    b = np.where(b < 0, -1, np.searchsorted(u, b))
    return x, y, X, Y, ang, b


def region(ap, px, py):
    """(segment or None, distance to the nearest boundary) of a sky position."""
    k = ap["aperture_type"]
    if k in ("slit", "frame"):
        x, y = rot(px - ap["center_ra"], py - ap["center_dec"], -ap["angle"])
        if k == "slit":
            return 0 if abs(x) < ap["length"] / 2 and abs(y) < ap["width"] / 2 else None, min(abs(abs(x) - ap["length"] / 2), abs(abs(y) - ap["width"] / 2))
        i, o = ap["width_inner"] / 2, ap["width_outer"] / 2
        m = max(abs(x), abs(y))
        return 0 if i <= m < o else None, min(abs(m - i), abs(m - o))
    if k in ("shell", "IFU_shells"):
        r = np.hypot(px - ap["center_ra"], py - ap["center_dec"])
        b = [ap["r_in"], ap["r_out"]] if k == "shell" else ap["r_bins"]
        seg = [i for i in range(len(b) - 1) if b[i] <= r < b[i + 1]]
        return (seg[0] if seg else None), min(abs(r - q) for q in b)
    x, y, X, Y, ang, b = ifu(ap)
    ux, uy = rot(px, py, -ang)
    fx = (ux - x[0, 0]) / (x[0, 1] - x[0, 0])
    fy = (uy - y[0, 0]) / (y[1, 0] - y[0, 0])
    i, j = int(np.floor(fy + 0.5)), int(np.floor(fx + 0.5))
    dist = min(abs(fx + 0.5 - round(fx + 0.5)), abs(fy + 0.5 - round(fy + 0.5))) * ap["d"]
    if not (0 <= i < x.shape[0] and 0 <= j < x.shape[1]):
        return None, dist
    if k == "IFU_grid":
        return (i, j), dist
    return (int(b[i, j]) if b[i, j] >= 0 else None), dist


def ap_kwargs(ap):
    if "nx" not in ap:
        return dict(ap)
    x, y, X, Y, ang, b = ifu(ap)
    kw = dict(aperture_type=ap["aperture_type"], x_grid=X, y_grid=Y, angle=ang)
    if ap["aperture_type"] == "IFU_binned":
        kw["bins"] = b
    return kw


def ap_case():
    return st.fixed_dictionaries(dict(ap=ap_strategy(), pts=st.lists(st.tuples(g.uni(-2.5, 2.5), g.uni(-2.5, 2.5)).map(list), min_size=4, max_size=16), ss=st.integers(1, 4), pad=st.sampled_from([0.0, 0.0, 0.3]), co=st.tuples(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)).map(list)))


@PROP.facet("apertures", ap_case, quick=400, shards=2)
def apertures(case, t):
    from lenstronomy.GalKin.aperture import Aperture

    ap = case["ap"]
    kw = ap_kwargs(ap)
    a = Aperture(padding_arcsec=case["pad"], **kw)
    inside = 0
    for px, py in case["pts"]:
        if "nx" in ap:  # concentrate on the grid
            x, y, X, Y, ang, b = ifu(ap)
            f, h = (px + 2.5) / 5 * 1.2 - 0.1, (py + 2.5) / 5 * 1.2 - 0.1
            px, py = rot(x[0, 0] + f * (x[0, -1] - x[0, 0]), y[0, 0] + h * (y[-1, 0] - y[0, 0]), ang)
        else:
            sc = {"slit": ap.get("length", 0) / 2, "shell": ap.get("r_out", 0), "frame": ap.get("width_outer", 0) / 2, "IFU_shells": max(ap.get("r_bins", [0]))}[ap["aperture_type"]] / 2.0
            px, py = ap["center_ra"] + px * sc, ap["center_dec"] + py * sc
        seg, dist = region(ap, px, py)
        if dist < 1e-6:
            continue
        sel, i = a.aperture_select(px, py)
        t.equal(bool(sel), seg is not None, "selection of (%s, %s)" % (px, py))
        if sel:
            inside += 1
            t.equal(i if seg is not None and isinstance(seg, tuple) else int(i), seg, "segment of (%s, %s)" % (px, py))
    # sampled coordinates of every segment lie in the segment, and averages are those of the segment
    ss = case["ss"]
    xs, ys = a.aperture_sample(ss)
    co = case["co"]
    pix = ap.get("delta_pix", ap.get("d"))
    pad = int(case["pad"] / (pix / ss) + 1e-9)
    vals = co[0] + co[1] * xs + co[2] * ys
    out = np.asarray(a.aperture_downsample(vals, ss))
    n = a.num_segments
    k = ap["aperture_type"]
    if "nx" in ap:
        x, y, X, Y, ang, b = ifu(ap)
        lin = co[0] + co[1] * X + co[2] * Y
        t.close(a.delta_pix, ap["d"], "pixel scale", 1e-6)
        if k == "IFU_grid":
            t.equal(tuple(n), X.shape, "number of segments")
            t.close(out, lin, "average over pixels", 1e-6, 1e-7)
        else:
            t.equal(n, int(b.max()) + 1, "number of bins")
            t.close(out, [lin[b == i].mean() for i in range(n)], "average over bins", 1e-6, 1e-7)
        d = np.hypot(xs[0, 1] - xs[0, 0], ys[0, 1] - ys[0, 0])
        t.close(d, ap["d"] / ss, "spacing of the samples", 1e-6)
    else:
        t.equal(n, len(ap["r_bins"]) - 1 if k == "IFU_shells" else 1, "number of segments")
        # declared region: mean position of the samples of each segment
        ref_n = 400
        half = {"slit": 0.5 * np.hypot(ap.get("length", 0), ap.get("width", 0)), "shell": ap.get("r_out", 0), "frame": ap.get("width_outer", 0) * 0.75, "IFU_shells": max(ap.get("r_bins", [0]))}[k]
        gx, gy = np.meshgrid(np.linspace(-half, half, ref_n), np.linspace(-half, half, ref_n))
        gx, gy = gx + ap["center_ra"], gy + ap["center_dec"]
        if k in ("slit", "frame"):
            u, v = rot(gx - ap["center_ra"], gy - ap["center_dec"], -ap["angle"])
            if k == "slit":
                m = [(abs(u) < ap["length"] / 2) & (abs(v) < ap["width"] / 2)]
            else:
                q = np.maximum(abs(u), abs(v))
                m = [(q >= ap["width_inner"] / 2) & (q < ap["width_outer"] / 2)]
        else:
            r = np.hypot(gx - ap["center_ra"], gy - ap["center_dec"])
            e = [ap["r_in"], ap["r_out"]] if k == "shell" else ap["r_bins"]
            m = [(r >= e[i]) & (r < e[i + 1]) for i in range(len(e) - 1)]
        if len(out) == len(m):
            # second moments about the centre are sensitive to shape, rotation and hole
            fx, fy = xs - ap["center_ra"], ys - ap["center_dec"]
            for what, fn in (("x", lambda x, y: x), ("y", lambda x, y: y), ("xx", lambda x, y: x * x), ("xy", lambda x, y: x * y), ("yy", lambda x, y: y * y)):
                got = np.asarray(a.aperture_downsample(fn(fx, fy), ss))
                ref = [fn(gx[i] - ap["center_ra"], gy[i] - ap["center_dec"]).mean() for i in m]
                t.close(got, ref, "moment %s of the %s samples" % (what, k), 0.0, 3.0 * pix * (half if len(what) == 2 else 1.0))
    t.nontrivial(inside > 0)
    t.label(k)


# ---- maps ---------------------------------------------------------------------------------------
def map_case():
    return st.fixed_dictionaries(dict(
        ap=st.fixed_dictionaries(dict(angle=g.uni(-3.0, 3.0), aperture_type=st.sampled_from(["IFU_grid", "IFU_binned"]), nx=st.integers(2, 7), ny=st.integers(2, 7), d=st.sampled_from([0.3, 0.4, 0.25, 0.1 + 0.2]), x0=g.uni(-2, 1), y0=g.uni(-2, 1), flip=st.booleans(), flipy=st.booleans(), rot=st.booleans(), bins=st.lists(st.integers(-1, 2), min_size=49, max_size=49))),
        voronoi=st.booleans(), ss=st.integers(1, 3), psf=st.sampled_from(["GAUSSIAN", "MOFFAT", "MULTI_GAUSSIAN"]), fwhm=g.uni(0.3, 0.9), moff=g.uni(2.0, 4.0),
        hist=st.lists(st.fixed_dictionaries(dict(theta_E=g.uni(0.7, 1.6), gamma=g.uni(1.8, 2.2), cx=g.uni(-0.3, 0.3), cy=g.uni(-0.3, 0.3), Rs=g.uni(0.3, 1.0), amp=g.logf(0.1, 10.0), r_ani=g.uni(0.4, 3.0))), min_size=1, max_size=2)))


def psf_of(c):
    if c["psf"] == "GAUSSIAN":
        return dict(psf_type="GAUSSIAN", fwhm=c["fwhm"])
    if c["psf"] == "MOFFAT":
        return dict(psf_type="MOFFAT", fwhm=c["fwhm"], moffat_beta=c["moff"])
    s = c["fwhm"] / 2.3548200450309493
    return dict(psf_type="MULTI_GAUSSIAN", amplitudes=np.array([2.0, 1.0]), sigmas=np.array([s, 1.7 * s]), fwhm=c["fwhm"])


def psf_kernel(c, x, y):
    s = c["fwhm"] / 2.3548200450309493
    r2 = x**2 + y**2
    if c["psf"] == "GAUSSIAN":
        k = np.exp(-r2 / 2 / s**2)
    elif c["psf"] == "MOFFAT":
        al = c["fwhm"] / (2 * np.sqrt(2 ** (1 / c["moff"]) - 1))
        k = (1 + r2 / al**2) ** (-c["moff"])
    else:
        k = 2 / s**2 * np.exp(-r2 / 2 / s**2) + 1 / (1.7 * s) ** 2 * np.exp(-r2 / 2 / (1.7 * s) ** 2)
    return k / k.sum()


@PROP.facet("maps", map_case, quick=48, shards=4)
def maps(case, t):
    from lenstronomy.GalKin.galkin import Galkin

    c = case
    ap = c["ap"]
    kw = ap_kwargs(ap)
    x, y, X, Y, ang, bins = ifu(ap)
    km = dict(mass_profile_list=["SPP"], light_profile_list=["HERNQUIST"], anisotropy_model="OM")
    num = dict(interpol_grid_num=500, max_integrate=300, min_integrate=1e-3)
    gk = Galkin(km, kw, psf_of(c), dict(d_d=1000.0, d_s=1600.0, d_ds=900.0), kwargs_numerics=num)
    t.close(gk.psf_fwhm, c["fwhm"], "fwhm", 1e-6)
    ss = c["ss"]
    for h in c["hist"]:
        mass = [dict(theta_E=h["theta_E"], gamma=h["gamma"], center_x=h["cx"], center_y=h["cy"])]
        light = [dict(amp=h["amp"], Rs=h["Rs"])]
        ani = dict(r_ani=h["r_ani"])
        keep = copy.deepcopy((mass, light, ani))
        vb = bins if c["voronoi"] and ap["aperture_type"] == "IFU_grid" else None
        out = np.asarray(gk.dispersion_map_grid_convolved(mass, light, ani, supersampling_factor=ss, voronoi_bins=vb))
        t.unchanged((mass, light, ani), keep, "the caller's arguments")
        # reference
        sub = (np.arange(ss) - (ss - 1) / 2) / ss * ap["d"]
        fx = (x[0][:, None] + sub[None] * np.sign(x[0, 1] - x[0, 0])).ravel()
        fy = (y[:, 0][:, None] + sub[None] * np.sign(y[1, 0] - y[0, 0])).ravel()
        gx, gy = rot(*np.meshgrid(fx, fy), ang)
        rr = np.hypot(gx - h["cx"], gy - h["cy"])
        r0 = np.logspace(np.log10(max(rr.min(), 2e-3) * 0.99), np.log10(rr.max() * 1.01), 40)
        M, L, A = ("SPP", dict(theta_E=h["theta_E"], gamma=h["gamma"])), ("HERNQUIST", dict(Rs=h["Rs"])), ("OM", ani)
        s2, ir = np.array([sigma_los2(M, L, A, q, 1600.0 / 900.0, 300.0) for q in r0]).T
        lr = np.log(np.maximum(rr, r0[0]))
        S = np.interp(lr, np.log(r0), np.log(s2))
        I = np.exp(np.interp(lr, np.log(r0), np.log(ir)))
        n = int(round(6 * c["fwhm"] / (ap["d"] / ss) + 0.5))
        n += 1 - n % 2
        q = (np.arange(n) - (n - 1) / 2) * ap["d"] / ss
        ker = psf_kernel(c, *np.meshgrid(q, q))
        num_ = convolve2d(I * np.exp(S), ker, mode="same")
        den = convolve2d(I, ker, mode="same")
        big = lambda z: z.reshape(ap["ny"], ss, ap["nx"], ss).sum(axis=(1, 3))
        num_, den = big(num_), big(den)
        if vb is not None or ap["aperture_type"] == "IFU_binned":
            nb = int(bins.max()) + 1
            num_, den = np.array([num_[bins == i].sum() for i in range(nb)]), np.array([den[bins == i].sum() for i in range(nb)])
        t.close(out, np.sqrt(num_ / den) / 1000, "map of velocity dispersions", 2e-2)
    t.nontrivial(True)
    t.label(c["psf"])


def hist_case():
    step = st.fixed_dictionaries(dict(op=st.sampled_from(["dispersion", "map", "conv", "light2d", "light2dfinite", "draw2d", "draw3d", "drawlin"]), theta_E=g.uni(0.7, 1.6), gamma=g.uni(1.8, 2.2), Rs=g.uni(0.3, 1.5), amp=g.logf(0.1, 10.0), r_ani=g.uni(0.4, 3.0), seed=st.integers(0, 99), R=g.logf(0.05, 3.0), e=g.uni(-0.2, 0.2)))
    return st.fixed_dictionaries(dict(steps=st.lists(step, min_size=2, max_size=4), multi=st.booleans(), proj=st.booleans()))


@PROP.facet("histories", hist_case, quick=80, shards=4)
def histories(case, t):
    from lenstronomy.GalKin.galkin import Galkin
    from lenstronomy.GalKin.galkin_multiobservation import GalkinMultiObservation
    from lenstronomy.GalKin.galkin_shells import GalkinShells
    from lenstronomy.GalKin.light_profile import LightProfile

    km = dict(mass_profile_list=["SPP"], light_profile_list=["HERNQUIST_ELLIPSE"], anisotropy_model="OM")
    kc = dict(d_d=1000.0, d_s=1600.0, d_ds=900.0)
    kp = dict(psf_type="GAUSSIAN", fwhm=0.6)
    num = dict(interpol_grid_num=60, max_integrate=50, min_integrate=1e-3, lum_weight_int_method=case["proj"])
    sh = dict(aperture_type="IFU_shells", r_bins=[0.0, 0.5, 1.2], center_ra=0, center_dec=0)
    X, Y = np.meshgrid(np.linspace(-0.6, 0.6, 4), np.linspace(-0.6, 0.6, 4))

    def make():
        conv = Galkin(km, dict(aperture_type="IFU_grid", x_grid=X, y_grid=Y), kp, kc, kwargs_numerics=dict(num, lum_weight_int_method=True))
        if case["multi"]:
            mp = GalkinMultiObservation(km, [dict(aperture_type="slit", length=2.0, width=1.0), dict(aperture_type="shell", r_in=0.0, r_out=1.0)], [kp, kp], kc, kwargs_numerics=num)
        else:
            mp = Galkin(km, sh, kp, kc, kwargs_numerics=num)
        return dict(d=Galkin(km, dict(aperture_type="slit", length=2.0, width=1.0), kp, kc, kwargs_numerics=num), m=mp, c=conv, s=GalkinShells(km, sh, kp, kc, kwargs_numerics=num), l=LightProfile(["HERNQUIST_ELLIPSE"], interpol_grid_num=200, max_interpolate=50, min_interpolate=1e-3))

    def run(o, s):
        mass, light, ani = [dict(theta_E=s["theta_E"], gamma=s["gamma"])], [dict(amp=s["amp"], Rs=s["Rs"], e1=s["e"], e2=0.1)], dict(r_ani=s["r_ani"])
        keep = copy.deepcopy((mass, light, ani))
        np.random.seed(s["seed"])
        k = s["op"]
        if k == "dispersion":
            v = o["d"].dispersion(mass, light, ani, sampling_number=5)
        elif k == "map":
            # photons per shell may be none at all for few draws: the draws are equal all the same
            with np.errstate(all="ignore"):
                v = np.nan_to_num(np.append(o["m"].dispersion_map(mass, light, ani, num_kin_sampling=5, num_psf_sampling=3), o["s"].dispersion_map(mass, light, ani)))
        elif k == "conv":
            v = o["c"].dispersion_map_grid_convolved(mass, light, ani, supersampling_factor=1)
        elif k == "light2d":
            v = o["l"].light_2d(s["R"], light)
        elif k == "light2dfinite":
            v = o["l"].light_2d_finite(s["R"], light)
        else:
            fn = {"draw2d": o["l"].draw_light_2d, "draw3d": o["l"].draw_light_3d, "drawlin": o["l"].draw_light_2d_linear}[k]
            v = fn(light, n=4, new_compute=True)
        t.unchanged((mass, light, ani), keep, "the caller's arguments")
        return np.array(v, dtype=float)

    o = make()
    for s in case["steps"]:
        got = run(o, s)
        ref = run(make(), s)
        t.close(got, ref, "%s after earlier evaluations" % s["op"], 1e-8, 1e-12)
        if s["op"] == "light2dfinite":
            t.close(got, run(o, dict(s, op="light2d")), "finite projection of the light", 3e-2)
        t.label(s["op"])
    t.nontrivial(True)


def jam_case():
    return st.fixed_dictionaries(dict(sl=st.lists(g.uni(0.3, 1.5), min_size=1, max_size=2), sm=st.lists(g.uni(0.5, 3.0), min_size=1, max_size=2), al=st.lists(g.uni(0.3, 2.0), min_size=2, max_size=2), am=st.lists(g.uni(1.0, 5.0), min_size=2, max_size=2), ani=ani_strategy(("const", "isotropic", "OM", "Colin", "GOM")), R=st.lists(g.uni(0.2, 1.5), min_size=1, max_size=3),
                                      dd=g.uni(500, 1500), ds=g.uni(1200, 2000), dds=g.uni(400, 1200), cx=g.uni(-0.5, 0.5), cy=g.uni(-0.5, 0.5), e1=g.uni(-0.25, 0.25), e2=g.uni(-0.25, 0.25), rot=g.uni(-1.5, 1.5)))


@PROP.facet("jam", jam_case, quick=40, shards=4)
def jam_facet(case, t):
    from lenstronomy.JAMPy.jam_wrapper import JAMWrapper

    c = case
    if c["ani"][0] == "const" and c["ani"][1]["beta"] > 0.5:
        c = dict(c, ani=["const", dict(beta=c["ani"][1]["beta"] - 0.5)])
    kc = dict(d_d=c["dd"], d_s=c["ds"], d_ds=c["dds"])
    fac = c["ds"] / c["dds"]
    sl, sm = np.array(c["sl"]), np.array(c["sm"])
    al, am = np.array(c["al"][: len(sl)]), np.array(c["am"][: len(sm)])
    cx, cy = c["cx"], c["cy"]
    th = np.linspace(0.3, 5.0, len(c["R"]))
    px, py = cx + np.array(c["R"]) * np.cos(th), cy + np.array(c["R"]) * np.sin(th)
    ap = dict(aperture_type="general_aperture", x_cords=px, y_cords=py, bins=np.arange(len(px)), delta_pix=0.1)
    kp = dict(psf_type="GAUSSIAN", fwhm=0.3)
    ap.pop("padding_arcsec", None)
    w = JAMWrapper(dict(mass_profile_list=["MULTI_GAUSSIAN"], light_profile_list=["MULTI_GAUSSIAN"], anisotropy_model=c["ani"][0], symmetry="spherical"), ap, kp, kc)
    light = [dict(amp=al, sigma=sl, center_x=cx, center_y=cy)]
    mass = [dict(amp=am, sigma=sm, center_x=cx, center_y=cy)]
    keep = copy.deepcopy((mass, light))
    v = np.asarray(w.dispersion(mass, light, dict(c["ani"][1]), convolved=False))
    t.unchanged((mass, light), keep, "the caller's arguments")
    # projected Jeans solution with de-projected Gaussians
    rmax = 12 * sl.max()

    def nu(r):
        return np.sum(al / (2 * np.pi * sl**2) ** 1.5 * np.exp(-r[:, None] ** 2 / 2 / sl**2), axis=1)

    def m(r):
        u = r[:, None] / (np.sqrt(2) * sm)
        return np.sum(am * (special.erf(u) - 2 / np.sqrt(np.pi) * u * np.exp(-u**2)), axis=1)

    an, ak = c["ani"]
    x, wt = gl(120)
    ref = []
    for R in c["R"]:
        yv = (x + 1) / 2
        y = rmax * yv**2
        wy = rmax * 2 * yv * wt / 2
        r = np.sqrt(R**2 + y**2)
        s2 = []
        for q in r:
            s = q + (rmax * 1.5 - q) * ((x + 1) / 2) ** 2 if q < rmax * 1.5 else np.array([q])
            ws = (rmax * 1.5 - q) * ((x + 1) / 2) * wt if q < rmax * 1.5 else np.array([0.0])
            s2.append(np.sum(ws * np.exp(lnf(an, ak, s) - lnf(an, ak, q)) * nu(s) * m(s) / s**2))
        ref.append(np.sqrt(V2 * fac * np.sum(wy * np.array(s2) * (1 - beta_of(an, ak, r) * R**2 / r**2)) / np.sum(wy * nu(r))) / 1e3)
    t.close(v, ref, "JAM dispersion (%s)" % an, 1.5e-2)
    # axisymmetric: invariant under a joint rotation of galaxy and positions
    if an in ("const", "isotropic"):
        from lenstronomy.Util.param_util import ellipticity2phi_q, phi_q2_ellipticity

        for sym in ("axi_sph", "axi_cyl"):
            out = []
            for ro in (0.0, c["rot"]):
                phi, qq = ellipticity2phi_q(c["e1"], c["e2"])
                e1, e2 = phi_q2_ellipticity(phi + ro, qq)
                qx, qy = rot(px - cx, py - cy, ro)
                a2 = dict(ap, x_cords=qx + 0.3, y_cords=qy - 0.2)
                w = JAMWrapper(dict(mass_profile_list=["MULTI_GAUSSIAN_ELLIPSE_KAPPA"], light_profile_list=["MULTI_GAUSSIAN_ELLIPSE"], anisotropy_model=an, symmetry=sym), a2, kp, kc)
                out.append(np.asarray(w.dispersion([dict(amp=am, sigma=sm, e1=e1, e2=e2, center_x=0.3, center_y=-0.2)], [dict(amp=al, sigma=sl, e1=e1, e2=e2, center_x=0.3, center_y=-0.2)], dict(ak), convolved=False)))
            t.close(out[1], out[0], "rotated galaxy (%s)" % sym, 1e-4)
        t.label("axisymmetric")
    t.label(an)
    t.nontrivial(True)
