"""Catalogue of light profiles: parameter strategies and independent reference brightness."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy import special
from scipy.integrate import quad

from harness.gen import center, ellip, fl, logf, uni


def ell_r(x, y, e1, e2, cx, cy):
    """Elliptical radius with the geometric mean of the semi-axes preserved."""
    c = min(math.hypot(e1, e2), 0.9999)
    q = (1 - c) / (1 + c)
    phi = 0.5 * math.atan2(e2, e1)
    u = math.cos(phi) * (x - cx) + math.sin(phi) * (y - cy)
    v = -math.sin(phi) * (x - cx) + math.cos(phi) * (y - cy)
    return np.sqrt(q * u**2 + v**2 / q)


def ell_xy(x, y, e1, e2, cx, cy):
    """Area-preserving elliptical coordinates that keep the orientation of the axes."""
    n = math.sqrt(1 - e1**2 - e2**2)
    u, v = x - cx, y - cy
    return ((1 - e1) * u - e2 * v) / n, (-e2 * u + (1 + e1) * v) / n


def ell_r_sq(x, y, e1, e2, cx, cy):
    """Elliptical radius with mean square of the axes preserved (pseudo-Jaffe)."""
    c = min(math.hypot(e1, e2), 0.9999)
    q = (1 - c) / (1 + c)
    phi = 0.5 * math.atan2(e2, e1)
    u = math.cos(phi) * (x - cx) + math.sin(phi) * (y - cy)
    v = -math.sin(phi) * (x - cx) + math.cos(phi) * (y - cy)
    # convention: theta^2 = (q^2 u^2 + v^2) 2 / (1 + q^2)
    return np.sqrt((q**2 * u**2 + v**2) * 2 / (1 + q**2))


def sersic(R, amp, Re, n):
    b = max(1.9992 * n - 0.3271, 1e-5)
    return amp * np.exp(-b * ((R / Re) ** (1.0 / n) - 1))


def gauss(R, amp, s):
    return amp / (2 * np.pi * s**2) * np.exp(-(R**2) / (2 * s**2))


def hernq(R, amp, Rs):
    """2 amp * F-type closed form: projection of rho0 / (x (1+x)^3), rho0 = amp / Rs."""
    x = np.asarray(R, dtype=float) / Rs
    out = np.empty_like(x)
    for i, v in enumerate(x.flat):
        v = max(v, 1e-9)
        w = v * v - 1
        if abs(w) < 2e-3:  # Taylor series of the same expression about v = 1
            out.flat[i] = amp * (4 / 15.0 - 8 * w / 35 + 4 * w**2 / 21 - 16 * w**3 / 99 + 20 * w**4 / 143)
            continue
        if v < 1:
            f = np.arctanh(np.sqrt(1 - v * v)) / np.sqrt(1 - v * v)
        else:
            f = np.arctan(np.sqrt(v * v - 1)) / np.sqrt(v * v - 1)
        out.flat[i] = 2 * amp / Rs * Rs / (v * v - 1) ** 2 / 2 * ((2 + v * v) * f - 3)
    return out


def hermite_phi(n, x):
    c = np.zeros(n + 1)
    c[n] = 1
    return np.polynomial.hermite.hermval(x, c) * np.exp(-(x**2) / 2) / math.sqrt(2.0**n * math.sqrt(math.pi) * math.factorial(n))


def shapelet_orders(n_max):
    return [(n - j, j) for n in range(n_max + 1) for j in range(n + 1)]


def shapelets(x, y, amp, n_max, beta):
    return sum(a * hermite_phi(p, x / beta) * hermite_phi(q, y / beta) for a, (p, q) in zip(amp, shapelet_orders(n_max)))


def nie(x, y, e1, e2, s, cx, cy):
    return 0.5 / np.sqrt(s**2 + ell_r(x, y, e1, e2, cx, cy) ** 2)


def cham(x, y, amp, wc, wt, e1, e2, cx, cy):
    c = min(math.hypot(e1, e2), 0.9999)
    q = (1 - c) / (1 + c)
    norm = (math.sqrt(wc**2 + 1) - wc) - (math.sqrt(wt**2 + 1) - wt)
    return amp / norm * (nie(x, y, e1, e2, 2 * wc / (1 + q), cx, cy) - nie(x, y, e1, e2, 2 * wt / (1 + q), cx, cy))


def _c(r=0.3):
    return {"center_x": center(r), "center_y": center(r)}


def _e(p):
    """Expand key 'e' -> e1, e2."""
    p = dict(p)
    for k in [k for k in p if k == "e" or k.startswith("e_")]:
        e = p.pop(k)
        s = k[2:]
        p["e1" + s if not s else "e1" + s] = e[0]
        p["e2" + s] = e[1]
    return p


class P(object):
    def __init__(self, name, kw, ref, nlin=1, tags=(), flux=None, minr=1e-3):
        self.name, self._kw, self.ref, self.nlin, self.tags, self.flux, self.minr = name, kw, ref, nlin, set(tags), flux, minr

    def kw(self):
        return st.fixed_dictionaries(self._kw).map(_e)


AMP = fl(-3, 10, special=(1.0, 0.0))
POS = logf(0.1, 20)
CAT = {}


def add(*a, **k):
    p = P(*a, **k)
    CAT[p.name] = p


E = ellip(0.5)
add("GAUSSIAN", dict(amp=AMP, sigma=logf(0.1, 2), **_c()), lambda x, y, k: gauss(np.hypot(x - k["center_x"], y - k["center_y"]), k["amp"], k["sigma"]), tags=["3d", "flux", "pos"])
add("GAUSSIAN_ELLIPSE", dict(amp=AMP, sigma=logf(0.1, 2), e=E, **_c()), lambda x, y, k: gauss(ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]), k["amp"], k["sigma"]), tags=["3d", "flux", "ell", "pos"])
add("ELLIPSOID", dict(amp=AMP, radius=logf(0.2, 2), e=E, **_c()),
    lambda x, y, k: k["amp"] / np.pi / k["radius"] ** 2 * (ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]) <= k["radius"]), tags=["ell", "edge"])
_MG = st.integers(1, 4).flatmap(lambda n: st.tuples(st.lists(fl(-1, 5), min_size=n, max_size=n), st.lists(logf(0.1, 2), min_size=n, max_size=n)))


def _mg(p):
    p = dict(p)
    p["amp"], p["sigma"] = p.pop("mg")
    return p


class PM(P):
    def kw(self):
        return st.fixed_dictionaries(self._kw).map(_e).map(_mg)


CAT["MULTI_GAUSSIAN"] = PM("MULTI_GAUSSIAN", dict(mg=_MG, **_c()),
                           lambda x, y, k: sum(gauss(np.hypot(x - k["center_x"], y - k["center_y"]), a, s) for a, s in zip(k["amp"], k["sigma"])), nlin=None, tags=["3d", "flux", "multi", "pos"])
CAT["MULTI_GAUSSIAN_ELLIPSE"] = PM("MULTI_GAUSSIAN_ELLIPSE", dict(mg=_MG, e=E, **_c()),
                                   lambda x, y, k: sum(gauss(ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]), a, s) for a, s in zip(k["amp"], k["sigma"])), nlin=None,
                                   tags=["3d", "flux", "ell", "multi", "pos"])


def mge(x, y, k, n):
    s0, s1 = k["sigma_min"], k["sigma_min"] + k["sigma_width"]
    sig = [s0 * (s1 / s0) ** (i / (n - 1.0)) for i in range(n)]
    r = ell_r(x, y, k.get("e1", 0.0), k.get("e2", 0.0), k["center_x"], k["center_y"])
    return sum(gauss(r, a, s) for a, s in zip(k["amp"], sig))


NMGE = 5
add("MGE_SET", dict(amp=st.lists(fl(-1, 5), min_size=NMGE, max_size=NMGE), sigma_min=logf(0.05, 0.3), sigma_width=logf(0.3, 3), **_c()), lambda x, y, k: mge(x, y, k, NMGE), nlin=NMGE, tags=["flux", "multi", "pos"])
add("MGE_SET_ELLIPSE", dict(amp=st.lists(fl(-1, 5), min_size=NMGE, max_size=NMGE), sigma_min=logf(0.05, 0.3), sigma_width=logf(0.3, 3), e=E, **_c()), lambda x, y, k: mge(x, y, k, NMGE), nlin=NMGE,
    tags=["flux", "multi", "ell", "pos"])
RS, NS = logf(0.1, 2.5), fl(0.5, 6, special=(1.0, 4.0))
add("SERSIC", dict(amp=AMP, R_sersic=RS, n_sersic=NS, **_c()), lambda x, y, k: sersic(np.hypot(x - k["center_x"], y - k["center_y"]), k["amp"], k["R_sersic"], k["n_sersic"]), tags=["flux", "pos"])
add("SERSIC_ELLIPSE", dict(amp=AMP, R_sersic=RS, n_sersic=NS, e=E, **_c()),
    lambda x, y, k: sersic(ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]), k["amp"], k["R_sersic"], k["n_sersic"]), tags=["flux", "ell", "pos"])


def qphi(k):
    e = (1 - k["q"]) / (1 + k["q"])
    return e * math.cos(2 * k["phi"]), e * math.sin(2 * k["phi"])


add("SERSIC_ELLIPSE_Q_PHI", dict(amp=AMP, R_sersic=RS, n_sersic=NS, q=uni(0.4, 1), phi=fl(-1.5, 1.5), **_c()),
    lambda x, y, k: sersic(ell_r(x, y, *qphi(k), k["center_x"], k["center_y"]), k["amp"], k["R_sersic"], k["n_sersic"]), tags=["pos?"])


def flex(x, y, k):
    b, c, d = complex(k["b1"], k["b2"]), complex(k["c1"], k["c2"]), complex(k["d1"], k["d2"])

    def f(z):
        zc = np.conj(z)
        return z + k["a"] * z + b * zc + np.conj(c) * z**2 + 2 * c * z * zc + d * zc**2

    Z, C = f(x + 1j * y), f(complex(k["center_x"], k["center_y"]))
    return sersic(ell_r(Z.real, Z.imag, k["e1"], k["e2"], C.real, C.imag), k["amp"], k["R_sersic"], k["n_sersic"])


_F = fl(-0.05, 0.05)
add("SERSIC_ELLIPSE_FLEXION", dict(amp=AMP, R_sersic=logf(0.3, 2.5), n_sersic=NS, e=ellip(0.3), a=_F, b1=_F, b2=_F, c1=_F, c2=_F, d1=_F, d2=_F, **_c()), flex, tags=["pos", "notrans"])


def core(x, y, k):
    R = np.maximum(ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]), 1e-4)
    al, n = 3.0, k["n_sersic"]
    b = max(1.9992 * n - 0.3271, 1e-5)
    return k["amp"] * (1 + (k["Rb"] / R) ** al) ** (k["gamma"] / al) * np.exp(-b * (((R**al + k["Rb"] ** al) / k["R_sersic"] ** al) ** (1 / (al * n)) - 1))


add("CORE_SERSIC", dict(amp=AMP, R_sersic=RS, Rb=logf(0.01, 0.1), n_sersic=NS, gamma=fl(0, 1), e=E, **_c()), core, tags=["ell", "pos"])
_NM = st.integers(0, 4)


def _amps(n):
    return st.lists(fl(-2, 2), min_size=n, max_size=n)


class PS(P):
    def kw(self):
        num = (lambda n: (n + 1) ** 2) if self.name.endswith("EXP") else (lambda n: (n + 1) * (n + 2) // 2)
        return st.tuples(_NM.flatmap(lambda n: st.tuples(st.just(n), _amps(num(n)))), st.fixed_dictionaries(self._kw).map(_e)).map(lambda p: dict(p[1], n_max=p[0][0], amp=p[0][1]))


CAT["SHAPELETS"] = PS("SHAPELETS", dict(beta=logf(0.15, 1), **_c()), lambda x, y, k: shapelets(x - k["center_x"], y - k["center_y"], k["amp"], k["n_max"], k["beta"]), nlin=None, tags=["multi", "1d"])
CAT["SHAPELETS_ELLIPSE"] = PS("SHAPELETS_ELLIPSE", dict(beta=logf(0.15, 1), e=ellip(0.3), **_c()),
                              lambda x, y, k: shapelets(*ell_xy(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]), k["amp"], k["n_max"], k["beta"]), nlin=None, tags=["multi", "1d"])


def polar(x, y, k):
    """Real polar shapelets: orders n, |m| <= n in steps of 2; cos then minus sin."""
    dx, dy = x - k["center_x"], y - k["center_y"]
    r, ph = np.hypot(dx, dy), np.arctan2(dy, dx)
    out = np.zeros_like(r)
    i = 0
    for n in range(k["n_max"] + 1):
        for m in range(n % 2, n + 1, 2):
            p = (n - m) // 2
            chi = (-1) ** p / k["beta"] * math.sqrt(math.factorial(p) / (math.pi * math.factorial((n + m) // 2))) * (r / k["beta"]) ** m
            chi = chi * special.eval_genlaguerre(p, m, (r / k["beta"]) ** 2) * np.exp(-((r / k["beta"]) ** 2) / 2)
            out = out + k["amp"][i] * chi * np.cos(m * ph)
            i += 1
            if m:
                out = out - k["amp"][i] * chi * np.sin(m * ph)
                i += 1
    return out


def polar_exp(x, y, k):
    dx, dy = x - k["center_x"], y - k["center_y"]
    r, ph = np.hypot(dx, dy), np.arctan2(dy, dx)
    out = np.zeros_like(r)
    i = 0
    for n in range(k["n_max"] + 1):
        for m in range(n + 1):
            X = 2 * r / (k["beta"] * (2 * n + 1))
            chi = (-1) ** (n - m) * math.sqrt(2 / (math.pi * (2 * n + 1) ** 3) * math.factorial(n - m) / math.factorial(n + m)) / k["beta"]
            chi = chi * X**m * special.eval_genlaguerre(n - m, 2 * m, X) * np.exp(-X / 2)
            if m:
                out = out - k["amp"][i + 1 if False else i] * chi * np.sin(m * ph)
                i += 1
            out = out + k["amp"][i] * chi * np.cos(m * ph)
            i += 1
    return out


CAT["SHAPELETS_POLAR"] = PS("SHAPELETS_POLAR", dict(beta=logf(0.15, 1), **_c()), polar, nlin=None, tags=["multi", "1d"])
CAT["SHAPELETS_POLAR_EXP"] = PS("SHAPELETS_POLAR_EXP", dict(beta=logf(0.15, 1), **_c()), polar_exp, nlin=None, tags=["multi", "1d"])
add("HERNQUIST", dict(amp=AMP, Rs=logf(0.1, 3), **_c()), lambda x, y, k: hernq(np.hypot(x - k["center_x"], y - k["center_y"]), k["amp"], k["Rs"]), tags=["3d", "flux", "pos"], minr=0.02)
add("HERNQUIST_ELLIPSE", dict(amp=AMP, Rs=logf(0.1, 3), e=E, **_c()), lambda x, y, k: hernq(ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]), k["amp"], k["Rs"]), tags=["3d", "flux", "ell", "pos"], minr=0.02)


def pj(R, k):
    a, s = sorted([k["Ra"], k["Rs"]])
    return k["amp"] * a * s / (s - a) * (1 / np.sqrt(a**2 + R**2) - 1 / np.sqrt(s**2 + R**2))


_PJ = dict(amp=AMP, Ra=logf(0.02, 0.5), Rs=logf(0.55, 4))
add("PJAFFE", dict(_PJ, **_c()), lambda x, y, k: pj(np.hypot(x - k["center_x"], y - k["center_y"]), k), tags=["3d", "pos"])
add("PJAFFE_ELLIPSE", dict(_PJ, e=E, **_c()), lambda x, y, k: pj(ell_r_sq(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]), k), tags=["3d", "pos", "ellsq"])


def pls(x, y, k):
    R = ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"])
    n, rc, al = k["n_sersic"], k["r_c"], k["alpha_c"]
    nu = 1 / n
    u = 1 - 0.6097 * nu + 0.054635 * nu**2
    s = k["R_sersic"] / (2 * n)
    s = k["R_sersic"] / ((2 * n) ** (1 / n)) ** n
    j0 = k["amp"] * (rc / s) ** u * math.exp((rc / s) ** nu)
    I0 = 2 * s * j0 * special.gamma((3 - u) * n) / special.gamma(2 * n)
    out = np.empty_like(R)
    for i, v in enumerate(R.flat):
        if v >= rc:
            out.flat[i] = I0 * math.exp(-((v / s) ** nu))
        else:
            z1 = math.sqrt(rc**2 - v**2)
            inner = quad(lambda z: k["amp"] * (math.sqrt(v * v + z * z) / rc) ** (-al), 0, z1, epsrel=1e-9, limit=200)[0]
            outer = quad(lambda z: j0 * (math.sqrt(v * v + z * z) / s) ** (-u) * math.exp(-((math.sqrt(v * v + z * z) / s) ** nu)), z1, np.inf, epsrel=1e-9, limit=200)[0]
            out.flat[i] = 2 * (inner + outer)
    return out


add("PL_SERSIC", dict(amp=AMP, R_sersic=logf(0.3, 2), n_sersic=fl(1, 5), alpha_c=fl(0.2, 1.5), r_c=logf(0.1, 0.5), e=ellip(0.3), **_c()), pls, tags=["pos", "ell", "rough"], minr=0.02)
add("UNIFORM", dict(amp=AMP), lambda x, y, k: k["amp"] + 0 * x)
add("POWER_LAW", dict(amp=AMP, gamma=fl(1.2, 2.8), e=E, **_c()),
    lambda x, y, k: k["amp"] * (ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"]) ** 2 + 1e-8) ** ((1 - k["gamma"]) / 2), tags=["3d", "ell", "pos"], minr=0.02)
add("NIE", dict(amp=AMP, e=E, s_scale=logf(0.02, 1), **_c()), lambda x, y, k: k["amp"] * nie(x, y, k["e1"], k["e2"], k["s_scale"], k["center_x"], k["center_y"]), tags=["3d", "ell", "pos"])
WC, WT = logf(0.03, 0.4), logf(0.5, 3)
add("CHAMELEON", dict(amp=AMP, w_c=WC, w_t=WT, e=E, **_c()), lambda x, y, k: cham(x, y, k["amp"], k["w_c"], k["w_t"], k["e1"], k["e2"], k["center_x"], k["center_y"]), tags=["3d", "pos"])


class PC(P):
    def kw(self):
        n = int(self.nlin)

        def b(p):
            p = dict(p)
            for i in range(1, 4):
                if "E%d" % i in p:
                    e = p.pop("E%d" % i)
                    p["e1%d" % i], p["e2%d" % i] = e
            return p

        return st.fixed_dictionaries(self._kw).map(b)


def dcham(x, y, k):
    a1, a2 = k["amp"] / (1 + 1 / k["ratio"]), k["amp"] / (1 + k["ratio"])
    return sum(cham(x, y, a, k["w_c%d" % i], k["w_t%d" % i], k["e1%d" % i], k["e2%d" % i], k["center_x"], k["center_y"]) for i, a in ((1, a1), (2, a2)))


def tcham(x, y, k):
    a1 = k["amp"] / (1 + 1 / k["ratio12"] + 1 / k["ratio13"])
    return sum(cham(x, y, a, k["w_c%d" % i], k["w_t%d" % i], k["e1%d" % i], k["e2%d" % i], k["center_x"], k["center_y"]) for i, a in ((1, a1), (2, a1 / k["ratio12"]), (3, a1 / k["ratio13"])))


CAT["DOUBLE_CHAMELEON"] = PC("DOUBLE_CHAMELEON", dict(amp=AMP, ratio=logf(0.2, 5), w_c1=WC, w_t1=WT, w_c2=WC, w_t2=WT, E1=E, E2=E, **_c()), dcham, tags=["3d", "pos"])
CAT["TRIPLE_CHAMELEON"] = PC("TRIPLE_CHAMELEON", dict(amp=AMP, ratio12=logf(0.2, 5), ratio13=logf(0.2, 5), w_c1=WC, w_t1=WT, w_c2=WC, w_t2=WT, w_c3=WC, w_t3=WT, E1=E, E2=E, E3=E, **_c()), tcham, tags=["3d"])


def interp(x, y, k):
    im = np.asarray(k["image"], dtype=float)
    ny, nx = im.shape
    u, v = (x - k["center_x"]) / k["scale"], (y - k["center_y"]) / k["scale"]
    c, s = math.cos(k["phi_G"]), math.sin(k["phi_G"])
    a, b = c * u + s * v, -s * u + c * v  # axes of the image are rotated by phi_G
    pad = np.zeros((ny + 2, nx + 2))
    pad[1:-1, 1:-1] = im
    px, py = a + (nx + 1) / 2.0, b + (ny + 1) / 2.0
    out = np.zeros_like(np.asarray(x, dtype=float))
    for i in range(out.size):
        p, q = px.flat[i], py.flat[i]
        if p < 0 or q < 0 or p > nx + 1 or q > ny + 1:
            continue
        i0, j0 = min(int(p), nx), min(int(q), ny)
        f, g = p - i0, q - j0
        out.flat[i] = (1 - f) * (1 - g) * pad[j0, i0] + f * (1 - g) * pad[j0, i0 + 1] + (1 - f) * g * pad[j0 + 1, i0] + f * g * pad[j0 + 1, i0 + 1]
    return k["amp"] * out


_IMG = st.tuples(st.integers(3, 6), st.integers(3, 6)).flatmap(lambda s: st.lists(st.lists(fl(-1, 3), min_size=s[1], max_size=s[1]), min_size=s[0], max_size=s[0]))
add("INTERPOL", dict(image=_IMG, amp=AMP, phi_G=fl(-3, 3), scale=logf(0.1, 0.6), **_c()), interp, tags=["interp"])
add("LINEAR", dict(amp=POS, k=fl(-8, -0.2), **_c()), lambda x, y, k: np.maximum(0, k["amp"] + k["k"] * np.hypot(x - k["center_x"], y - k["center_y"])), tags=["nonlinear"])
add("LINEAR_ELLIPSE", dict(amp=POS, k=fl(-8, -0.2), e=E, **_c()), lambda x, y, k: np.maximum(0, k["amp"] + k["k"] * ell_r(x, y, k["e1"], k["e2"], k["center_x"], k["center_y"])), tags=["nonlinear", "ell"])


def line(x, y, k):
    a = math.radians(k["angle"])
    dx, dy = x - k["start_x"], y - k["start_y"]
    u, v = math.cos(a) * dx - math.sin(a) * dy, math.sin(a) * dx + math.cos(a) * dy
    return k["amp"] * ((u >= 0) & (u <= k["length"]) & (np.abs(v) <= k["width"] / 2))


add("LINE_PROFILE", dict(amp=AMP, angle=fl(-180, 180), length=logf(0.3, 3), width=logf(0.1, 1), start_x=center(0.3), start_y=center(0.3)), line, tags=["edge", "notrans", "flux"])
NAMES = sorted(CAT)


def any_profile(names=None):
    return st.sampled_from(names or NAMES).flatmap(lambda n: CAT[n].kw().map(lambda kw: [n, kw]))


def profile_kwargs(name):
    return {"n_comp": NMGE} if name.startswith("MGE_SET") else None


def model(names, **kw):
    from lenstronomy.LightModel.light_model import LightModel

    return LightModel(list(names), profile_kwargs_list=[profile_kwargs(n) for n in names], **kw)


def call(kw):
    return {k: (np.array(v, dtype=float) if isinstance(v, list) else v) for k, v in kw.items()}


def reference(name, kw, x, y):
    return np.asarray(CAT[name].ref(np.asarray(x, dtype=float), np.asarray(y, dtype=float), kw), dtype=float) + np.zeros(np.shape(x))


def nlin(name, kw):
    return len(kw["amp"]) if isinstance(kw.get("amp"), list) else 1
