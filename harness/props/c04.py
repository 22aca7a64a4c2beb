"""C04: evaluating a lens profile is a pure, element-wise function of positions and parameters."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import fl
from harness.props.c01 import pts_strategy

PROP = Property(
    "C04",
    rule="A case is one lens profile, one keyword set and 2-7 positions (including the exact centre and repeated positions), evaluated as "
    "floats, as length-1 arrays, as one array, permuted, as integers and twice. Non-trivial: at least two distinct positions "
    "with different deflections.",
    assumptions=["agreement of the different call forms is required to 1e-9 relative (finite-difference Hessians: to their own accuracy)",
                 "profiles documented as array-only are exempt from the float call form"],
    title="Profile evaluation is element-wise and has no side effects",
    statement="The potential, deflection and Hessian of a lens profile at one position do not depend on how the position is passed: as a "
    "float, in an array of any length and order, or repeated. Evaluation never modifies the position arrays or the "
    "keyword arguments it is given, and evaluating again returns the same values.",
    over=["inputs", "histories"],
    quant="all profiles, keyword sets, batches of positions and orders of evaluation",
    why="Tests compare a scalar and an array call at isolated points; masks and in-place clamps fail only for particular mixtures of "
    "positions in one batch.",
    files=["lenstronomy/LensModel/Profiles", "lenstronomy/LensModel/lens_model.py"],
    mechanism=[("masked array branches vs scalar branches", "lenstronomy/LensModel/Profiles/*.py")],
)

ARRAY_ONLY = set()
HT = {n: 2e-3 for n in ("NIE", "SIE", "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "NIE_SIMPLE", "ElliSLICE", "CURVED_ARC_TAN_DIFF",
                        "NFW_ELLIPSE_POTENTIAL", "TNFW_ELLIPSE_POTENTIAL", "CNFW_ELLIPSE_POTENTIAL", "NFW_MC_ELLIPSE_POTENTIAL")}


def strat(names):
    def make(name):
        p = lp.CAT[name]
        return p.kw().flatmap(
            lambda kw: st.tuples(
                st.lists(pts_strategy(p, kw), min_size=2, max_size=3), st.booleans(), st.permutations(range(7)),
                st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3)), min_size=2, max_size=3), st.booleans(),
            ).map(lambda v: {"model": name, "kw": kw, "pts": [q for l in v[0] for q in l][:6], "centre": v[1], "perm": list(v[2]),
                             "ints": [list(q) for q in v[3]], "repeat": v[4]})
        )

    return st.sampled_from(names).flatmap(make)


def _eval(prof, x, y, kw, p):
    out = {}
    if p.pot:
        out["potential"] = [prof.function(x, y, **kw)]
    out["deflection"] = list(prof.derivatives(x, y, **kw))
    if p.hess:
        out["hessian"] = list(prof.hessian(x, y, **kw))
    return out


CENTRE_SINGULAR = {"POINT_MASS", "POINT_MASS_LOG_SCALED"}
NO_CENTRE = {"BPL", "GNFW_ELLIPSE_GAUSS_DEC", "NFW_ELLIPSE_GAUSS_DEC", "SERSIC_ELLIPSE_GAUSS_DEC", "CTNFW_GAUSS_DEC", "GAUSSIAN_ELLIPSE_KAPPA",
             "MULTI_GAUSSIAN_ELLIPSE_KAPPA", "GNFW", "GreenBoschNFW"}


def check(case, t):
    name = case["model"]
    p = lp.CAT[name]
    t.label(name)
    kw0 = lp.call_kw(case["kw"])
    kw = copy.deepcopy(kw0)
    prof = lp.instance(name)
    cx, cy = lp.origin(name, case["kw"])
    pts = [(cx + a, cy + b) for a, b in case["pts"]]
    if case["repeat"]:
        pts.append(pts[0])
        t.label("repeated-position")
    n = len(pts)
    x = np.array([q[0] for q in pts])
    y = np.array([q[1] for q in pts])
    x0, y0 = x.copy(), y.copy()
    A = _eval(prof, x, y, kw, p)
    t.same(x, x0, "position array x modified by evaluation")
    t.same(y, y0, "position array y modified by evaluation")
    for k in kw0:
        t.same(kw[k], kw0[k], "keyword argument %s modified by evaluation" % k)
    B = _eval(prof, x, y, kw, p)
    full = {}
    for q in A:
        full[q] = [np.asarray(v, dtype=float) + np.zeros(n) for v in A[q]]
        for u, v in zip(A[q], B[q]):
            t.close(np.asarray(v, dtype=float) + np.zeros(n), np.asarray(u, dtype=float) + np.zeros(n), "second evaluation of the %s" % q, rtol=1e-13, atol=0)
    if np.ptp(full["deflection"][0]) == 0 and np.ptp(full["deflection"][1]) == 0:
        t.trivial()
    scale = {q: np.max(np.abs(full[q])) for q in full}

    def cmp(q, got, want, what):
        rt = 1e-6
        at = 1e-6 * scale[q] + 1e-12
        if q == "hessian" and name in HT:
            at = HT[name] * scale[q]
        t.close(got, want, what, rtol=rt, atol=at)

    # permutation
    perm = [i for i in case["perm"] if i < n]
    C = _eval(prof, x0[perm].copy(), y0[perm].copy(), kw, p)
    for q in C:
        for u, v in zip(C[q], full[q]):
            cmp(q, np.asarray(u, dtype=float) + np.zeros(n), v[perm], "%s of the permuted batch" % q)
    # one at a time
    for i in range(n):
        D = _eval(prof, x0[i:i + 1].copy(), y0[i:i + 1].copy(), kw, p)
        for q in D:
            for u, v in zip(D[q], full[q]):
                cmp(q, float(np.squeeze(np.asarray(u, dtype=float))), float(v[i]), "%s of the length-1 array at (%r, %r)" % (q, x0[i], y0[i]))
        if name not in ARRAY_ONLY:
            S = _eval(prof, float(x0[i]), float(y0[i]), kw, p)
            for q in S:
                for u, v in zip(S[q], full[q]):
                    cmp(q, float(np.squeeze(np.asarray(u, dtype=float))), float(v[i]), "%s of the float position (%r, %r)" % (q, x0[i], y0[i]))
    # integers vs floats
    if not p.arc and not p.cut and not p.noaxis:
        ix = np.array([q[0] for q in case["ints"]])
        iy = np.array([q[1] for q in case["ints"]])
        keep = np.hypot(ix - cx, iy - cy) > 0.3
        ix, iy = ix[keep], iy[keep]
        if len(ix) > 1:
            I = _eval(prof, ix.copy(), iy.copy(), kw, p)
            F = _eval(prof, ix.astype(float), iy.astype(float), kw, p)
            for q in I:
                for u, v in zip(I[q], F[q]):
                    z = np.zeros(len(ix))
                    t.close(np.asarray(u, dtype=float) + z, np.asarray(v, dtype=float) + z, "%s of integer positions" % q, rtol=1e-9, atol=1e-9)
    # a (possibly singular) centre in the batch does not disturb its neighbours
    if case["centre"] and name not in NO_CENTRE:
        t.label("exact-centre")
        xc, yc = np.array([cx, x0[0]]), np.array([cy, y0[0]])
        E = _eval(prof, xc.copy(), yc.copy(), kw, p)
        for q in E:
            for u, v in zip(E[q], full[q]):
                cmp(q, float((np.asarray(u, dtype=float) + np.zeros(2))[1]), float(v[0]), "%s next to the centre in one batch" % q)


PROP.add("batch", lambda: strat(lp.FAST + ["SHAPELETS_POLAR"]), check, quick=4800, thorough=60000, shards=8)
PROP.add("batch-slow", lambda: strat([n for n in lp.SLOW if n not in ("GNFW_ELLIPSE_GAUSS_DEC", "GNFW")]), check, quick=200, thorough=2500, shards=4)
