"""C01: deflection is the gradient of the potential, Hessian the Jacobian of the deflection."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import uni

PROP = Property(
    "C01",
    rule="A case is one lens profile, one keyword set inside its documented domain and 1-3 evaluation points "
    "(log-uniform radius around the profile centre, on axes/diagonals and at characteristic radii). Non-trivial: the "
    "deflection at the points is not identically zero and the quadrature error estimate is below the tolerance.",
    assumptions=[
        "points lie at 0.02-12 arcsec from the profile centre (arc profiles: within 0.6 arcsec of the arc)",
        "profiles documented as numerical approximations get a correspondingly wider relative tolerance",
        "PEMD/SPEMD need the external fastell4py package and are not exercised",
    ],
    title="Deflection is the gradient of the potential, Hessian its derivative",
    statement="For every lens mass profile, at every position and for every valid parameter set, the deflection angle is the gradient of the "
    "lensing potential and the Hessian is the Jacobian of the deflection angle (within the accuracy documented for numerical profiles).",
    over=["inputs"],
    quant="all lens profiles, all parameter values of their domains, all positions",
    why="The tests evaluate each profile at a few positions for one or two parameter sets and compare with stored numbers; the relation has to hold over "
    "a continuum of parameters, including special radii and branch switches.",
    files=["lenstronomy/LensModel/Profiles", "lenstronomy/LensModel/profile_list_base.py"],
    mechanism=[("closed-form potential, deflection and Hessian of each profile", "lenstronomy/LensModel/Profiles/*.py")],
    observe=["function / derivatives / hessian of every profile class"],
    note="Oracle: line integrals of the deflection along radial and angular segments must equal potential differences, and line integrals of the "
    "Hessian rows must equal deflection differences (Gauss-Legendre with an error estimate), so no finite-difference step has to be tuned.",
)

_G1 = np.polynomial.legendre.leggauss(20)
_G2 = np.polynomial.legendre.leggauss(14)


def _path(p, kw, x, y):
    return x, y


def segment_integral(vec, path, dpath, n):
    """int_0^1 vec(path(t)) . dpath(t) dt with Gauss-Legendre rule n; vec returns list of (vx, vy)."""
    u, w = n
    t = 0.5 * (u + 1)
    w = 0.5 * w
    px, py = path(t)
    dx, dy = dpath(t)
    out = []
    for vx, vy in vec(px, py):
        out.append((np.sum((vx * dx + vy * dy) * w), np.sum(np.hypot(vx, vy) * np.hypot(dx, dy) * w)))
    return out


def segments(cx, cy, px, py, arc, kinks=()):
    """Radial and angular segment starting at (px, py); straight segments for arc profiles."""
    if arc:
        for ux, uy in ((0.07, 0.0), (0.0, 0.07)):
            yield (
                lambda t, ux=ux, uy=uy: (px + ux * t, py + uy * t),
                lambda t, ux=ux, uy=uy: (ux + 0 * t, uy + 0 * t),
            )
        return
    dx, dy = px - cx, py - cy
    r, ph = math.hypot(dx, dy), math.atan2(dy, dx)
    L, D = 0.25, 0.35
    for k in kinks:  # stay on one side of a radius where the Hessian is discontinuous
        if abs(r / k - 1) < 1e-6:
            r = k * (1 + 1e-6)
        elif r < k < r * math.exp(L):
            L = math.log(k / r)
    yield (
        lambda t: (cx + r * np.exp(L * t) * math.cos(ph), cy + r * np.exp(L * t) * math.sin(ph)),
        lambda t: (L * r * np.exp(L * t) * math.cos(ph), L * r * np.exp(L * t) * math.sin(ph)),
    )
    yield (
        lambda t: (cx + r * np.cos(ph + D * t), cy + r * np.sin(ph + D * t)),
        lambda t: (-D * r * np.sin(ph + D * t), D * r * np.cos(ph + D * t)),
    )


def check_profile(t, funcs, cx, cy, pts, tol, htol, pot, arc=False, hess=True, sym_tol=None, stats=None, atol=1e-9,
                  sym_atol=1e-9, kinks=(), region=None):
    """funcs = (function, derivatives, hessian) of x, y arrays."""
    fun, der, hes_ = funcs

    def hes(x, y):
        return [h + np.zeros_like(x) for h in hes_(x, y)]

    ok_any = False
    for px, py in pts:
        for path, dpath in segments(cx, cy, px, py, arc, kinks):
            ends = path(np.array([0.0, 1.0]))
            ax, ay = der(ends[0], ends[1])
            t.finite(ax, "deflection x")
            t.finite(ay, "deflection y")
            if np.any(np.hypot(ax, ay) > 0):
                ok_any = True
            if pot:
                f = fun(ends[0], ends[1])
                t.finite(f, "potential")
                (i1, s1), = segment_integral(lambda x, y: [der(x, y)], path, dpath, _G1)
                (i2, _), = segment_integral(lambda x, y: [der(x, y)], path, dpath, _G2)
                dphi = f[1] - f[0]
                scale = s1 + 1e-30
                plen = float(np.sum(np.hypot(*dpath(0.5 * (_G1[0] + 1))) * 0.5 * _G1[1]))
                lim = tol * scale + 20 * abs(i1 - i2) + 2e-13 * np.max(np.abs(f)) + atol * plen
                if stats is not None:
                    stats.append(("grad", abs(dphi - i1) / scale, abs(i1 - i2) / scale))
                if abs(i1 - i2) > 0.02 * scale:
                    t.label("quadrature-unresolved")
                elif abs(dphi - i1) > lim:
                    t.fail(
                        "potential difference %r along a path from (%r, %r) is not the line integral %r of the deflection "
                        "(rel. error %.2e)" % (float(dphi), px, py, float(i1), abs(dphi - i1) / scale)
                    )
            crosses = False
            if region is not None:
                inside = region(*path(np.linspace(-0.02, 1.02, 200)))
                crosses = bool(np.any(inside) and not np.all(inside))
            if hess and not crosses:
                def hv(x, y):
                    fxx, fxy, fyx, fyy = hes(x, y)
                    return [(fxx, fxy), (fyx, fyy)]

                r1 = segment_integral(hv, path, dpath, _G1)
                r2 = segment_integral(hv, path, dpath, _G2)
                scale = max(r1[0][1], r1[1][1]) + 1e-30
                for (i1, _), (i2, _), a, nm in zip(r1, r2, (ax, ay), ("x", "y")):
                    da = a[1] - a[0]
                    lim = htol * scale + 20 * abs(i1 - i2) + 1e-12 * np.max(np.hypot(ax, ay)) + atol
                    if stats is not None:
                        stats.append(("hess", abs(da - i1) / scale, abs(i1 - i2) / scale))
                    if abs(i1 - i2) > 0.02 * scale:
                        t.label("quadrature-unresolved")
                    elif not abs(da - i1) <= lim:
                        t.fail(
                            "deflection_%s difference %r along a path from (%r, %r) is not the line integral %r of the "
                            "Hessian (rel. error %.2e)" % (nm, float(da), px, py, float(i1), abs(da - i1) / scale)
                        )
        if hess:
            fxx, fxy, fyx, fyy = hes(np.array([px]), np.array([py]))
            s = np.max(np.abs([fxx, fxy, fyx, fyy]))
            if stats is not None:
                stats.append(("sym", float(np.abs(fxy - fyx)[0] / (s + 1e-30)), 0))
            if sym_tol is not None and not abs(fxy[0] - fyx[0]) <= sym_tol * s + sym_atol:
                t.fail("Hessian not symmetric at (%r, %r): f_xy=%r f_yx=%r" % (px, py, fxy[0], fyx[0]))
    if not ok_any:
        t.trivial()


def pts_strategy(p, kw):
    lens = [kw[k] for k in p.lens]

    def build(items):
        out = []
        for lr, ph, kind, k, j in items:
            r = math.exp(math.log(p.rmin) + (math.log(p.rmax) - math.log(p.rmin)) * lr)
            for q in lens:
                if abs(r / q - 1) < 1e-6:
                    r = q * (1 + 1e-5)
            if kind == "axis":
                a = int(ph * 4) % 4
                v = [(r, 0.0), (0.0, r), (-r, 0.0), (0.0, -r)][a]
            else:
                if kind == "special" and lens:
                    r = lens[k % len(lens)] * (1.0, 0.999, 1.001, 1.0, 1.0, 1 + 1e-5, 1 - 1e-5, 0.8, 2.0, 0.5)[j]
                v = (r * math.cos(2 * math.pi * ph), r * math.sin(2 * math.pi * ph))
            if p.noaxis:  # known finding: exact major axis of the broken power law
                rr, a = math.hypot(*v), math.atan2(v[1], v[0])
                if abs(math.sin(2 * a)) < 1e-2:
                    v = (rr * math.cos(a + 0.03), rr * math.sin(a + 0.03))
            if p.rrel:
                rr = math.hypot(*v)
                need = p.rrel[1] * kw[p.rrel[0]]
                if rr < need:
                    v = (v[0] * need / rr, v[1] * need / rr)
            if p.cut:
                rr, a = math.hypot(*v), math.atan2(v[1], v[0])
                a = min(max(a, -math.pi + 0.02), math.pi - 0.45)
                v = (rr * math.cos(a), rr * math.sin(a))
            out.append(list(v))
        return out

    return st.lists(
        st.tuples(uni(0, 1), uni(0, 1), st.sampled_from(["gen", "gen", "gen", "special", "axis"]), st.integers(0, 1), st.integers(0, 9)),
        min_size=1,
        max_size=3,
    ).map(build)


def case_for(names):
    def make(name):
        p = lp.CAT[name]
        return p.kw().flatmap(lambda kw: pts_strategy(p, kw).map(lambda pts: {"model": name, "kw": kw, "pts": pts}))

    return st.sampled_from(names).flatmap(make)


def profile_check(case, t, stats=None):
    name = case["model"]
    p = lp.CAT[name]
    t.label(name)
    kw = lp.call_kw(case["kw"])
    prof = lp.instance(name)
    cx, cy = lp.origin(name, case["kw"])
    pts = [(cx + x, cy + y) for x, y in case["pts"]]
    funcs = (
        lambda x, y: prof.function(x, y, **kw),
        lambda x, y: prof.derivatives(x, y, **kw),
        lambda x, y: prof.hessian(x, y, **kw),
    )
    check_profile(t, funcs, cx, cy, pts, p.tol, p.htol, p.pot, arc=p.arc, hess=p.hess, stats=stats,
                  sym_tol=(p.sym_tol if p.sym else None), atol=p.atol, sym_atol=p.sym_atol,
                  kinks=[case["kw"][k] * f for k, f in p.kinks],
                  region=(lambda x, y: p.region(case["kw"], x, y)) if p.region else None)


PROP.add("profiles", lambda: case_for(lp.FAST), profile_check, quick=4800, thorough=60000, shards=8)
PROP.add("profiles-slow", lambda: case_for(lp.SLOW), profile_check, quick=160, thorough=2000, shards=4)
