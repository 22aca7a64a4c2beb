"""C03: lens profiles are covariant under translation, rotation, reflection and amplitude scaling."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import fl, uni
from harness.props.c01 import pts_strategy

PROP = Property(
    "C03",
    rule="A case is one lens profile, one keyword set, 1-3 points and one transformation (shift vector, rotation angle, reflection or "
    "amplitude factor). Non-trivial: deflection non-zero and the transformation is not the identity.",
    assumptions=[
        "rotations are applied to profiles whose parameters transform as vectors, angles or spin-2 pairs; grid-aligned bases "
        "(shapelets, flexion, unequal-axis Gaussian potential, arc perturbations) are only translated and scaled",
    ],
    title="Lens profiles are covariant under shifts, rotations and scaling",
    statement="Moving a lens profile's centre moves its potential, deflection and Hessian fields with it; rotating (or mirroring) its "
    "orientation parameters rotates (mirrors) potential, deflection vector and Hessian tensor about its centre. The sign and "
    "orientation convention of the ellipticity, shear and position-angle parameters is the same in every profile: an orientation phi "
    "measured counter-clockwise from the x-axis. Multiplying the amplitude of a profile that is linear in it multiplies all three fields.",
    over=["inputs"],
    quant="all lens profiles, parameters, positions, shifts, rotation angles and amplitude factors",
    why="Tests evaluate fixed centres (mostly the origin) and one or two ellipticities; a centre or angle dropped on one branch shows only "
    "for off-centre, rotated inputs.",
    files=["lenstronomy/LensModel/Profiles", "lenstronomy/Util/param_util.py", "lenstronomy/Util/util.py"],
    mechanism=[("coordinate shift/rotation at the entry of every profile function", "lenstronomy/LensModel/Profiles/*.py"),
               ("ellipticity conventions", "lenstronomy/Util/param_util.py")],
)

NO_SHIFT = {"NIE_SIMPLE", "SHIFT", "DIPOLE"}
SPIN2 = {"SHEAR": ("gamma1", "gamma2"), "SHEAR_REDUCED": ("gamma1", "gamma2"), "CURVED_ARC_SPT": ("gamma1", "gamma2")}
VEC = {"SHIFT": ("alpha_x", "alpha_y"), "DIPOLE": ("com_x", "com_y")}
EXTRA_ANGLE = {"CURVED_ARC_SPT": ("direction",)}
NO_ROT = {"FLEXION", "FLEXIONFG", "GAUSSIAN_POTENTIAL", "SHAPELETS_CART", "ARC_PERT", "NIE_SIMPLE", "HESSIAN"}
# multipole phases relative to the axis of the ellipse: undefined axis for round profiles
NEED_E = {"EPL_BOXYDISKY", "EPL_BOXYDISKY_ELL", "EPL_MULTIPOLE_M3M4", "EPL_MULTIPOLE_M3M4_ELL", "EPL_MULTIPOLE_M1M3M4",
          "EPL_MULTIPOLE_M1M3M4_ELL", "GAUSSIAN_ELLIPSE_KAPPA"}
REL_ANGLES = ("delta_phi_m1", "delta_phi_m3", "delta_phi_m4", "varphi_m")
# finite-difference Hessians etc.: field tolerance relative to the field scale
HTOL = {n: 2e-3 for n in ("NIE", "SIE", "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "NIE_SIMPLE", "ElliSLICE", "CURVED_ARC_TAN_DIFF",
                          "CURVED_ARC_CONST", "CURVED_ARC_CONST_MST", "CURVED_ARC_SPT", "SERSIC", "SERSIC_ELLIPSE_POTENTIAL")}
HTOL.update({n: 5e-2 for n in ("CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "SERSIC_ELLIPSE_KAPPA", "NFW_ELLIPSE_POTENTIAL", "TNFW_ELLIPSE_POTENTIAL", "CNFW_ELLIPSE_POTENTIAL", "NFW_MC_ELLIPSE_POTENTIAL")})
NOPOT = {n for n in lp.CAT if not lp.CAT[n].pot}


def _rot(v, a):
    c, s = math.cos(a), math.sin(a)
    return v[0] * c - v[1] * s, v[0] * s + v[1] * c


def transform(name, kw, kind, a):
    """keyword set of the transformed profile."""
    p = lp.CAT[name]
    kw = dict(kw)
    kw0_e = (kw.get("e1"), kw.get("e2"))
    if kind == "shift":
        for k, d in zip(p.ctr, a):
            kw[k] = kw[k] + d
        return kw
    if kind == "scale":
        for k in p.lin:
            v = kw[k]
            kw[k] = [a * u for u in v] if isinstance(v, list) else a * v
        return kw
    sgn = 1
    if kind == "rotate":
        pt = lambda u, v: _rot((u, v), a)  # noqa
        s2 = lambda u, v: _rot((u, v), 2 * a)  # noqa
        ang = lambda u: u + a  # noqa
    else:  # mirror y -> -y
        sgn = -1
        pt = s2 = lambda u, v: (u, -v)  # noqa
        ang = lambda u: -u  # noqa
    if p.ctr:
        kw[p.ctr[0]], kw[p.ctr[1]] = pt(kw[p.ctr[0]], kw[p.ctr[1]])
    for e1, e2 in p.e_pairs:
        kw[e1], kw[e2] = s2(kw[e1], kw[e2])
    if name in SPIN2:
        k1, k2 = SPIN2[name]
        kw[k1], kw[k2] = s2(kw[k1], kw[k2])
    if name in VEC:
        k1, k2 = VEC[name]
        kw[k1], kw[k2] = pt(kw[k1], kw[k2])
    for k in p.angles + EXTRA_ANGLE.get(name, ()):
        kw[k] = ang(kw[k])
    if kind == "rotate" and name in NEED_E and "a3_a" in kw:
        # the axis of an ellipse is defined modulo pi; odd multipoles see the sign of the axis
        old = math.atan2(*kw0_e[::-1]) / 2 + a
        new = math.atan2(kw["e2"], kw["e1"]) / 2
        if round((old - new) / math.pi) % 2:
            for k in ("a1_a", "a3_a"):
                if k in kw:
                    kw[k] = -kw[k]
    if sgn < 0:
        if "dtan_dtan" in kw:
            kw["dtan_dtan"] = -kw["dtan_dtan"]
        for k in REL_ANGLES:
            if k in kw:
                kw[k] = -kw[k]
    return kw


def strat(names):
    def make(name):
        p = lp.CAT[name]
        kinds = []
        if p.ctr and name not in NO_SHIFT:
            kinds += [st.tuples(st.just("shift"), st.tuples(uni(-2, 2), uni(-2, 2)))] * 2
        if name not in NO_ROT:
            kinds += [st.tuples(st.just("rotate"), fl(-math.pi, math.pi, special=(math.pi / 2, -math.pi / 2, math.pi / 4, math.pi)))] * 2
            kinds += [st.tuples(st.just("mirror"), st.just(0))]
        if p.lin:
            kinds += [st.tuples(st.just("scale"), fl(0.1, 5, special=(2.0,)))]
        return p.kw().flatmap(
            lambda kw: st.tuples(pts_strategy(p, kw), st.one_of(*kinds)).map(
                lambda v: {"model": name, "kw": kw, "pts": v[0], "tr": list(v[1])}
            )
        )

    return st.sampled_from(names).flatmap(make)


def check(case, t):
    name, kw = case["model"], case["kw"]
    kind, a = case["tr"]
    p = lp.CAT[name]
    t.label(name)
    t.label(kind)
    if kind in ("rotate", "mirror") and name in NEED_E and all(math.hypot(kw[e1], kw[e2]) < 0.02 for e1, e2 in p.e_pairs):
        t.label("orientation-undefined")
        t.trivial()
        return
    kw2 = transform(name, kw, kind, a)
    if kind in ("rotate", "mirror") and "a3_a" in kw2 and any(abs(abs(math.atan2(k["e2"], k["e1"])) - math.pi) < 1e-6 for k in (kw, kw2)):
        t.label("axis-sign-ambiguous")
        t.trivial()
        return
    prof = lp.instance(name)
    prof2 = lp.instance(name)
    cx, cy = lp.origin(name, kw)
    x = np.array([cx + q[0] for q in case["pts"]])
    y = np.array([cy + q[1] for q in case["pts"]])
    if p.kinks:  # the Hessian jumps there: a rounding error of the position decides the branch
        rr = np.hypot(x - cx, y - cy)
        ok = np.all([np.abs(rr - f * kw[key]) > 1e-6 * (1 + rr) for key, f in p.kinks], axis=0)
        if not np.any(ok):
            t.trivial()
            return
        x, y = x[ok], y[ok]
    if kind == "shift":
        x2, y2 = x + a[0], y + a[1]
    elif kind == "rotate":
        x2, y2 = _rot((x, y), a)
    elif kind == "mirror":
        x2, y2 = x.copy(), -y
    else:
        x2, y2 = x.copy(), y.copy()
    k1, k2 = lp.call_kw(kw), lp.call_kw(kw2)
    ax, ay = prof.derivatives(x.copy(), y.copy(), **k1)
    bx, by = prof2.derivatives(x2.copy(), y2.copy(), **k2)
    c = 1.0
    if kind == "rotate":
        wx, wy = _rot((ax, ay), a)
    elif kind == "mirror":
        wx, wy = ax, -np.asarray(ay)
    elif kind == "scale":
        c = a
        wx, wy = c * np.asarray(ax), c * np.asarray(ay)
    else:
        wx, wy = ax, ay
    z = np.zeros_like(x)
    wx, wy, bx, by = wx + z, wy + z, bx + z, by + z
    t.finite(wx, "deflection")
    if not np.any(np.hypot(wx, wy) > 0):
        t.trivial()
    tol = p.tol if name == "BPL" else max(p.tol * 0.1, 1e-6)
    sc = np.hypot(wx, wy) + (1e-9 if name != "BPL" else 0.2)
    t.close(bx, wx, "%s: deflection_x of the transformed lens" % kind, rtol=0, atol=tol * sc + p.atol)
    t.close(by, wy, "%s: deflection_y of the transformed lens" % kind, rtol=0, atol=tol * sc + p.atol)
    if p.pot:
        f = np.asarray(prof.function(x.copy(), y.copy(), **k1)) * c + z
        g = np.asarray(prof2.function(x2.copy(), y2.copy(), **k2)) + z
        t.close(g, f, "%s: potential of the transformed lens" % kind, rtol=tol, atol=tol * (1e-3 + np.hypot(x - cx, y - cy) * np.max(sc)))
    if p.hess:
        H = [np.asarray(h) * c + z for h in prof.hessian(x.copy(), y.copy(), **k1)]
        G = [np.asarray(h) + z for h in prof2.hessian(x2.copy(), y2.copy(), **k2)]
        M = np.array([[H[0], H[1]], [H[2], H[3]]])
        N = np.array([[G[0], G[1]], [G[2], G[3]]])
        if kind == "rotate":
            Rm = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        elif kind == "mirror":
            Rm = np.diag([1.0, -1.0])
        else:
            Rm = np.eye(2)
        W = np.einsum("ij,jkn,lk->iln", Rm, M, Rm)
        # a Hessian can vanish by cancellation (convergence vs shear): scale by the deflection gradient too
        hs = np.max(np.abs(M), axis=(0, 1)) + 0.1 * sc / (np.hypot(x - cx, y - cy) + 0.05)
        ht = HTOL.get(name, max(p.htol, 1e-6))
        if kind == "shift" or kind == "rotate":
            if name == "ElliSLICE":
                return
        t.close(N, W, "%s: Hessian of the transformed lens" % kind, rtol=0, atol=ht * hs[None, None, :] + 100 * p.atol)


PROP.add("frames", lambda: strat(lp.FAST), check, quick=6400, thorough=80000, shards=8)
PROP.add("frames-slow", lambda: strat([n for n in lp.SLOW if n not in ("GNFW_ELLIPSE_GAUSS_DEC",)]), check, quick=240, thorough=3000, shards=4)
