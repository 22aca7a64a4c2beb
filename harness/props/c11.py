"""C11: light models as linear superpositions."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import lightprofiles as lt
from harness.core import Property
from harness.gen import fl, points

PROP = Property(
    "C11",
    rule="A case is a list of 1-4 light profiles with generated parameters, a selection of components, 1-6 positions and replacement amplitudes. Non-trivial: at least one profile with a nonzero amplitude.",
    assumptions=["positions are one-dimensional arrays or single numbers, as documented"],
    title="A light model is the linear superposition of its components",
    statement="The surface brightness of a light model is the sum of the documented brightness of its selected components and scales linearly with every amplitude. The unit responses offered to the "
    "linear solver, weighted by the amplitudes in the declared order, reproduce that brightness, and the counts, the reading and the writing of the linear parameters agree with them for every mix of profiles. "
    "Evaluation gives the same value for one position as for many and leaves parameters and coordinates untouched.",
    over=["inputs", "configurations"],
    quant="all light profile types and mixes, parameters, selections, amplitudes and positions",
    why="Tests evaluate each profile at a few points and test the linear basis for one fixed list.",
    files=["lenstronomy/LightModel/light_model_base.py", "lenstronomy/LightModel/linear_basis.py", "lenstronomy/LightModel/Profiles"],
    mechanism=[("component sum and selection", "lenstronomy/LightModel/light_model_base.py"), ("linear responses and amplitudes", "lenstronomy/LightModel/linear_basis.py")],
    observe=["LightModel.surface_brightness", "LightModel.functions_split", "LightModel.num_param_linear", "LightModel.update_linear", "LightModel.linear_param_from_kwargs", "LightModel.check_positive_flux_profile"],
    note="Oracle: an independent closed-form (or quadrature) reference for every profile, written from the documented definitions.",
)


def strategy():
    return st.fixed_dictionaries({
        "profiles": st.lists(lt.any_profile(), min_size=1, max_size=4), "sel": st.lists(st.booleans(), min_size=4, max_size=4), "selkind": st.sampled_from(["none", "int", "list", "tuple", "nparray"]),
        "pts": points(0.02, 4.0, 1, 6), "amps": st.lists(fl(-2, 5), min_size=80, max_size=80), "off": st.integers(0, 3), "scalar": st.booleans(),
    })


def single():
    return st.fixed_dictionaries({"model": st.sampled_from(lt.NAMES), "pts": points(0.02, 4.0, 1, 5), "scalar": st.booleans()}).flatmap(
        lambda c: lt.CAT[c["model"]].kw().map(lambda kw: dict(c, kw=kw)))


def positions(name, kw, pts):
    """Positions away from edges and from the (documented) smoothing of the centre."""
    x = np.array([p[0] for p in pts]) + kw.get("center_x", 0.0)
    y = np.array([p[1] for p in pts]) + kw.get("center_y", 0.0)
    p = lt.CAT[name]
    keep = np.hypot(x - kw.get("center_x", 0.0), y - kw.get("center_y", 0.0)) >= p.minr
    if "edge" in p.tags:
        d = 1e-6
        for sx, sy in ((d, 0), (-d, 0), (0, d), (0, -d)):
            keep &= lt.reference(name, kw, x + sx, y + sy) == lt.reference(name, kw, x, y)
    return x[keep], y[keep]


def edge_free(profiles, pts):
    x = np.array([p[0] for p in pts])
    y = np.array([p[1] for p in pts])
    keep = np.ones(len(x), dtype=bool)
    for n, kw in profiles:
        p = lt.CAT[n]
        keep &= np.hypot(x - kw.get("center_x", 0.0), y - kw.get("center_y", 0.0)) >= p.minr
        if "edge" in p.tags:
            for sx, sy in ((1e-6, 0), (-1e-6, 0), (0, 1e-6), (0, -1e-6)):
                keep &= lt.reference(n, kw, x + sx, y + sy) == lt.reference(n, kw, x, y)
    return x[keep], y[keep]


def tol(name):
    return 1e-5 if name in ("PL_SERSIC", "HERNQUIST", "HERNQUIST_ELLIPSE") else 1e-6


@PROP.facet("profile", single, 6000, 60000, 8)
def profile(case, t):
    n, kw = case["model"], case["kw"]
    x, y = positions(n, kw, case["pts"])
    if not len(x):
        t.trivial()
        return
    ref = lt.reference(n, kw, x, y)
    m = lt.model([n])
    call = lt.call(kw)
    x0, y0, k0 = x.copy(), y.copy(), copy.deepcopy(call)
    got = m.surface_brightness(x, y, [call])
    scale = np.max(np.abs(ref)) if ref.size else 0
    t.close(got, ref, "%s surface brightness" % n, rtol=tol(n), atol=1e-9 + 1e-9 * scale)
    t.same(x, x0, "x after evaluation")
    t.same(y, y0, "y after evaluation")
    t.equal({k: np.asarray(v).tolist() for k, v in call.items()}, {k: np.asarray(v).tolist() for k, v in k0.items()}, "parameters after evaluation")
    one = lt.model([n]).surface_brightness(float(x[0]), float(y[0]), [call])
    t.close(float(one), got[0], "%s at a single position" % n, rtol=1e-8, atol=1e-10)
    if case["scalar"]:
        f = m.func_list[0]
        v = f.function(np.array([x[0]]), np.array([y[0]]), **call)
        t.close(np.atleast_1d(v), got[:1], "%s array of one position" % n, rtol=1e-8, atol=1e-10)


@PROP.facet("superposition", strategy, 3000, 30000, 8)
def superposition(case, t):
    prof = case["profiles"]
    names = [p[0] for p in prof]
    kws = [p[1] for p in prof]
    x, y = edge_free(prof, case["pts"])
    if not len(x):
        t.trivial()
        return
    m = lt.model(names)
    call = [lt.call(k) for k in kws]
    before = copy.deepcopy(call)
    sel = [i for i in range(len(names)) if case["sel"][i]]
    kind = case["selkind"]
    if kind == "none" or not sel:
        k, sel = None, list(range(len(names)))
    elif kind == "int":
        k, sel = sel[0], sel[:1]
    else:
        k = {"list": list, "tuple": tuple, "nparray": list}[kind](sel)
    comp = [lt.reference(n, kw, x, y) for n, kw in prof]
    mag = 1e-9 + 1e-7 * sum(np.abs(c) for c in comp)
    want = sum(comp[i] for i in sel)
    t.label("%d comps" % len(names))
    t.close(m.surface_brightness(x, y, call, k=k), want, "brightness of components %s of %s" % (sel, names), rtol=1e-5, atol=mag)
    # linear structure
    counts = [lt.nlin(n, kw) for n, kw in prof]
    t.equal([int(v) for v in m.num_param_linear_list(call)], counts, "numbers of linear parameters")
    t.equal(int(m.num_param_linear(call)), sum(counts), "number of linear parameters")
    t.equal([int(v) for v in m.num_param_linear(call, list_return=True)], counts, "list of linear parameters")
    resp, num = m.functions_split(x, y, call, k=k)
    t.equal(int(num), sum(counts[i] for i in sel), "number of responses")
    t.equal(len(resp), int(num), "length of the response list")
    amps = m.linear_param_from_kwargs(call)
    flat = np.concatenate([np.atleast_1d(np.asarray(kw["amp"], dtype=float)) for kw in kws])
    t.close(np.asarray(amps, dtype=float), flat, "linear parameters read from the model", rtol=0, atol=0)
    use = np.concatenate([np.atleast_1d(np.asarray(kws[i]["amp"], dtype=float)) for i in sel])
    linear = ["nonlinear" not in lt.CAT[names[i]].tags for i in sel]
    if all(linear):
        total = sum(a * np.asarray(r, dtype=float) for a, r in zip(use, resp))
        t.close(total, want, "responses weighted by the amplitudes (components %s of %s)" % (sel, names), rtol=1e-5, atol=mag)
    # writing amplitudes: at an offset into a longer vector
    new = np.array(case["amps"])
    upd, end = m.update_linear(new, case["off"], copy.deepcopy(call))
    t.equal(int(end), case["off"] + sum(counts), "next linear parameter index")
    i = case["off"]
    for j, (n, kw) in enumerate(prof):
        v = np.atleast_1d(np.asarray(upd[j]["amp"], dtype=float))
        t.close(v, new[i:i + counts[j]], "amplitudes written to component %d (%s)" % (j, n), rtol=0, atol=0)
        i += counts[j]
        t.equal(sorted(upd[j]), sorted(kw), "parameter names after writing amplitudes")
    resp2, _ = m.functions_split(x, y, upd)
    if all("nonlinear" not in lt.CAT[n].tags for n in names):
        tot = sum(a * np.asarray(r, dtype=float) for a, r in zip(new[case["off"]:], resp2))
        t.close(m.surface_brightness(x, y, upd), tot, "brightness with the written amplitudes", rtol=1e-6, atol=1e-8 + 1e-7 * np.max(np.abs(tot)))
    pos = all(np.all(np.asarray(kw["amp"]) >= 0) for n, kw in prof if "pos" in lt.CAT[n].tags)
    only = all("pos" in lt.CAT[n].tags or np.all(np.asarray(kw["amp"]) >= 0) for n, kw in prof)
    if only:
        t.equal(bool(m.check_positive_flux_profile(call)), bool(pos), "check of positive amplitudes")
    for a, b in zip(call, before):
        t.equal({k: np.asarray(v).tolist() for k, v in a.items()}, {k: np.asarray(v).tolist() for k, v in b.items()}, "parameters after evaluation")
    m.check_parameters(call)


@PROP.facet("response-of-nonlinear", lambda: st.fixed_dictionaries({"model": st.sampled_from(["LINEAR", "LINEAR_ELLIPSE"]), "pts": points(0.02, 4, 1, 4)}).flatmap(
    lambda c: lt.CAT[c["model"]].kw().map(lambda kw: dict(c, kw=kw))), 0, 0)
def nonlinear(case, t):
    """Profiles that register a linear amplitude must be proportional to it."""
    n, kw = case["model"], case["kw"]
    x, y = positions(n, kw, case["pts"])
    m = lt.model([n])
    call = [lt.call(kw)]
    resp, num = m.functions_split(x, y, call)
    want = m.surface_brightness(x, y, call)
    t.close(kw["amp"] * np.asarray(resp[0]), want, "%s: unit response times amplitude" % n, rtol=1e-6, atol=1e-9)
