"""C10: point-image constraint solvers."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as cz
from harness import lensprofiles as lp
from harness.core import Property
from harness.gen import center, ellip, fl, uni
from harness.raytrace import trace

PROP = Property(
    "C10",
    rule="A case is a true lens (main deflector, optional shear, perturber and second plane), a source with 2 or 4 images, a solver type and start parameters displaced from the "
    "truth by 1-4 %. Non-trivial: the true lens has the needed images.",
    assumptions=["start parameters within a few percent of a solution; convergence from far starts is not claimed (only that the reported accuracy is true)"],
    title="Constraint solvers make observed images share one source",
    statement="When the point-image solver reports success, tracing the two or four given images through the returned lens model lands on one source position, for every solver type, "
    "main profile, perturbing component, plane configuration and order of images. Only the parameters the solver type declares are changed: all other parameters, the strength of the shear or "
    "the axis ratio, and the caller's input stay as they were. Started close to a solution it converges, and its distance report is the true source-plane separation.",
    over=["inputs", "configurations"],
    quant="all supported main profiles and solver types, lens parameters, perturbers, image configurations and start points near a solution",
    why="Tests solve one or two fixed quads per profile and compare a few parameters to two decimals.",
    files=["lenstronomy/LensModel/Solver/solver.py", "lenstronomy/LensModel/Solver/solver2point.py", "lenstronomy/LensModel/Solver/solver4point.py"],
    mechanism=[("two-image solver", "lenstronomy/LensModel/Solver/solver2point.py"), ("four-image solver", "lenstronomy/LensModel/Solver/solver4point.py")],
    observe=["Solver.constraint_lensmodel", "Solver.update_solver", "Solver.check_solver", "Solver.add_fixed_lens"],
    note="Oracle: an independent sum of the deflections of the profiles (independent multi-plane tracer for several planes) applied to the returned parameters.",
)

FOUR = ["SPEP", "SIE", "NIE", "EPL", "PEMD", "SPEMD", "NFW_ELLIPSE_POTENTIAL", "CNFW_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_CSE", "EPL_BOXYDISKY", "EPL_BOXYDISKY_ELL", "EPL_MULTIPOLE_M3M4",
        "EPL_MULTIPOLE_M1M3M4", "EPL_MULTIPOLE_M3M4_ELL", "EPL_MULTIPOLE_M1M3M4_ELL"]
TWO = ["SIE", "EPL", "SPEP", "NIE", "SIS"]
FREE4 = {"BPL": ["b", "e1", "e2", "center_x", "center_y"], "NFW": ["alpha_Rs", "e1", "e2", "center_x", "center_y"], "": ["theta_E", "e1", "e2", "center_x", "center_y"]}
_INST = {}


def prof(name):
    from lenstronomy.LensModel.lens_model import LensModel

    if name not in _INST:
        _INST[name] = LensModel([name]).lens_model.func_list[0] if name in ("PEMD", "SPEMD") else lp.instance(name) if name in lp.CAT else LensModel([name]).lens_model.func_list[0]
    return _INST[name]


def strategy(two):
    return st.fixed_dictionaries({
        "main": st.sampled_from(TWO if two else FOUR), "theta_E": uni(0.8, 1.5), "gamma": uni(1.7, 2.3), "e": ellip(0.3, 0.05), "c": st.tuples(center(0.15), center(0.15)), "s": uni(0.02, 0.1),
        "Rs": uni(3, 8), "aR": uni(3.5, 5.0), "a": st.tuples(uni(0.0, 0.02), uni(0.0, 0.02), uni(0, 3.1), uni(0, 3.1)),
        "type": st.sampled_from(["CENTER", "ELLIPSE", "THETA_E_PHI", "THETA_E_ELLIPSE"] if two else ["PROFILE", "PROFILE_SHEAR", "PROFILE_SHEAR", "PROFILE_SHEAR_GP"]),
        "shear": st.one_of(st.just(None), st.tuples(uni(0.02, 0.08), uni(0, 3.14))), "pert": st.one_of(st.none(), st.tuples(uni(-1.8, 1.8), uni(-1.8, 1.8), uni(0.01, 0.08))),
        "conv": st.one_of(st.none(), st.none(), uni(-0.1, 0.1)), "mp": st.sampled_from([None, None, 0.3, 0.5, 0.8]),
        "src": st.tuples(uni(0.0, 0.12), uni(0, 6.28)) if not two else st.tuples(uni(0.1, 0.4), uni(0, 6.28)),
        "disp": st.lists(uni(-1, 1), min_size=6, max_size=6), "size": st.sampled_from([0.01, 0.02]), "perm": st.permutations([0, 1, 2, 3]), "far": st.sampled_from([False, False, True]),
    })


def main_kw(case):
    n = case["main"]
    e1, e2 = case["e"]
    cx, cy = case["c"]
    a = case["a"]
    k = {"center_x": cx, "center_y": cy}
    if n != "SIS":
        k.update(e1=e1, e2=e2)
    if "NFW" in n:
        k.update(Rs=case["Rs"], alpha_Rs=case["aR"])
        if n.startswith("CNFW"):
            k["r_core"] = 0.05
        k["e1"], k["e2"] = e1 * 0.5, e2 * 0.5
        return k
    if n == "BPL":
        k.update(b=case["theta_E"], a=case["gamma"], a_c=case["gamma"] - 0.3, r_c=0.15)
        return k
    k["theta_E"] = case["theta_E"]
    if n not in ("SIE", "NIE", "SIS"):
        k["gamma"] = case["gamma"]
    if n == "NIE":
        k["s_scale"] = case["s"]
    if n == "SPEMD":
        k["s_scale"] = case["s"]
    if "BOXY" in n:
        k["a4_a"] = a[0]
    if "M3M4" in n:
        k.update(a3_a=a[0], delta_phi_m3=a[2] / 6, a4_a=a[1], delta_phi_m4=a[3] / 8)
    if "M1M3" in n:
        k.update(a1_a=a[1], delta_phi_m1=a[2])
    return k


def build(case, two):
    names, kws = [case["main"]], [main_kw(case)]
    sh = case["shear"] or (0.05, 0.7)
    if case["type"] == "PROFILE_SHEAR_GP":
        names.append("SHEAR_GAMMA_PSI")
        kws.append({"gamma_ext": sh[0], "psi_ext": sh[1]})
    elif case["shear"] or case["type"] in ("THETA_E_PHI", "PROFILE_SHEAR"):
        names.append("SHEAR")
        kws.append({"gamma1": sh[0] * np.cos(2 * sh[1]), "gamma2": sh[0] * np.sin(2 * sh[1])})
    if case["pert"]:
        names.append("SIS")
        kws.append({"theta_E": case["pert"][2], "center_x": case["pert"][0], "center_y": case["pert"][1]})
    if case["conv"]:
        names.append("CONVERGENCE")
        kws.append({"kappa": case["conv"]})
    return names, [{k: float(v) for k, v in kw.items()} for kw in kws]


def shoot(names, kws, x, y, planes=None):
    if planes is None:
        bx, by = np.array(x, dtype=float), np.array(y, dtype=float)
        for n, kw in zip(names, kws):
            ax, ay = prof(n).derivatives(np.array(x), np.array(y), **kw)
            bx, by = bx - ax, by - ay
        return bx, by
    cosmo, zl, zs = planes

    def defl(p, xx, yy):
        return [np.asarray(v) + 0 * xx for v in prof(p[0]).derivatives(np.array(xx), np.array(yy), **p[1])]

    def pot(p, xx, yy):
        return np.zeros_like(xx)

    r = trace([[z, [n, kw]] for z, n, kw in zip(zl, names, kws)], cosmo, zs, zs, np.array(x), np.array(y), defl, pot)
    return r[0], r[1]


def check(case, t, two):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from lenstronomy.LensModel.Solver.solver import Solver

    typ = "PROFILE_SHEAR" if case["type"] == "PROFILE_SHEAR_GP" else case["type"]
    if case["main"] in ("PEMD", "SPEMD") or (case["main"] == "SIS" and "ELLIPSE" in typ):
        t.trivial()  # need an optional dependency / have no ellipticity
        return
    names, kws = build(case, two)
    planes = None
    if case["mp"] and case["pert"]:
        cosmo = cz.make({"m": "flat", "H0": 70.0, "Om": 0.3})
        zl = [case["mp"] if (n == "SIS" and i >= 1) else 0.5 for i, n in enumerate(names)]
        planes = (cosmo, zl, 1.5)
        model = LensModel(names, multi_plane=True, lens_redshift_list=zl, z_source=1.5, cosmo=cosmo)
        truth_model = LensModel(names, multi_plane=True, lens_redshift_list=zl, z_source=1.5, cosmo=cosmo)
    else:
        model, truth_model = LensModel(names), LensModel(names)
    r, ph = case["src"]
    c0 = kws[0]
    if case["main"] == "BPL":
        # the broken power law is slow: take the images of an isothermal lens; convergence is not claimed then
        truth_model = LensModel(["SIE"] + names[1:])
        kws = [{"theta_E": c0["b"], **{k: c0[k] for k in ("e1", "e2", "center_x", "center_y")}}] + kws[1:]
        case = {**case, "far": True}
    bx, by = c0["center_x"] + r * np.cos(ph), c0["center_y"] + r * np.sin(ph)
    xi, yi = LensEquationSolver(truth_model).image_position_from_source(bx, by, kws, min_distance=0.1, search_window=8.0, precision_limit=1e-11, num_iter_max=200)
    need = 2 if two else 4
    if len(xi) < need:
        t.trivial()
        return
    # keep the `need` brightest distinct images, away from each other
    mag = np.abs(truth_model.magnification(xi, yi, kws))
    idx = np.argsort(mag)[::-1][:need]
    idx = idx[[p for p in case["perm"] if p < need]]
    xi, yi = xi[idx], yi[idx]
    sx, sy = shoot(names if case["main"] != "BPL" else ["SIE"] + names[1:], kws, xi, yi, planes)
    sep = min(np.hypot(xi[i] - xi[j], yi[i] - yi[j]) for i in range(need) for j in range(i))
    if np.max(np.hypot(sx - sx[0], sy - sy[0])) > 1e-7 or sep < 0.25 or np.max(mag) > 60:
        t.trivial()
        return
    # displaced start
    if case["main"] == "BPL":
        kws = [c0] + kws[1:]
    start = copy.deepcopy(kws)
    d = [2 * v * case["size"] if not case["far"] else 6 * v * case["size"] for v in case["disp"]]
    nfw = "NFW" in case["main"]
    if two:
        free = {"CENTER": [(0, "center_x"), (0, "center_y")], "ELLIPSE": [(0, "e1"), (0, "e2")], "THETA_E_PHI": [(0, "theta_E"), (1, "gamma1"), (1, "gamma2")],
                "THETA_E_ELLIPSE": [(0, "theta_E"), (0, "e1"), (0, "e2")]}[typ]
    else:
        free = [(0, p) for p in FREE4["NFW" if nfw else ("BPL" if "BPL" in names else "")]]
        if typ == "PROFILE_SHEAR":
            free += [(1, "gamma1"), (1, "gamma2")] if names[1] == "SHEAR" else [(1, "psi_ext")]
    if typ in ("THETA_E_PHI", "PROFILE_SHEAR") and names[1] == "SHEAR":
        g, psi = np.hypot(start[1]["gamma1"], start[1]["gamma2"]), 0.5 * np.arctan2(start[1]["gamma2"], start[1]["gamma1"])
        psi = psi + d[5]
        start[1] = {"gamma1": float(g * np.cos(2 * psi)), "gamma2": float(g * np.sin(2 * psi))}
    if typ == "THETA_E_ELLIPSE":
        e, psi = np.hypot(start[0]["e1"], start[0]["e2"]), 0.5 * np.arctan2(start[0]["e2"], start[0]["e1"]) + d[5]
        start[0].update(e1=float(e * np.cos(2 * psi)), e2=float(e * np.sin(2 * psi)))
    for i, (k, p) in enumerate(free):
        if p in ("gamma1", "gamma2") or (typ == "THETA_E_ELLIPSE" and p in ("e1", "e2")):
            continue
        start[k][p] = start[k][p] + d[i] * (1 if p != "center_x" and p != "center_y" else 0.5)
    given = copy.deepcopy(start)
    gx, gy = xi.copy(), yi.copy()
    solver = Solver(typ, model, need)
    out, acc = solver.constraint_lensmodel(gx, gy, start)
    t.label(typ)
    t.label("multi-plane" if planes else "single-plane")
    t.equal(start, given, "input lens parameters after solving")
    t.same(gx, xi, "input image positions after solving")
    # only the declared parameters may change
    for k in range(len(names)):
        t.equal(sorted(out[k]), sorted(given[k]), "parameter names of component %d" % k)
        for p in given[k]:
            if (k, p) not in free and out[k][p] != given[k][p]:
                t.fail("solver type %s changed parameter %s of component %d (%s) from %r to %r" % (typ, p, k, names[k], given[k][p], out[k][p]))
    if typ in ("THETA_E_PHI", "PROFILE_SHEAR") and names[1] == "SHEAR":
        t.close(np.hypot(out[1]["gamma1"], out[1]["gamma2"]), np.hypot(given[1]["gamma1"], given[1]["gamma2"]), "shear strength", rtol=1e-6)
    if typ == "THETA_E_ELLIPSE":
        t.close(np.hypot(out[0]["e1"], out[0]["e2"]), np.hypot(given[0]["e1"], given[0]["e2"]), "ellipticity modulus (axis ratio)", rtol=1e-6)
    # declared accuracy is the true one
    sx, sy = shoot(names, out, xi, yi, planes)
    ref = float(np.sum((sx - sx[0]) ** 2 + (sy - sy[0]) ** 2))
    t.close(acc, ref, "reported accuracy", rtol=1e-3, atol=1e-12)
    dist = solver.check_solver(xi, yi, out)
    t.close(dist, np.hypot(sx - sx[0], sy - sy[0]), "check_solver distances", rtol=1e-4, atol=1e-9)
    d0 = solver.check_solver(xi, yi, given)
    sx0, sy0 = shoot(names, given, xi, yi, planes)
    t.close(d0, np.hypot(sx0 - sx0[0], sy0 - sy0[0]), "check_solver distances of the start", rtol=1e-4, atol=1e-9)
    upd = solver.update_solver(given, xi, yi)
    for k in range(len(names)):
        t.equal(upd[k], out[k], "update_solver component %d" % k)
    if case["far"] or (two and typ in ("THETA_E_PHI", "THETA_E_ELLIPSE")):
        return
    # a solution is close: must be found (angle solvers may have no solution after the displacement)
    smax = float(np.max(np.hypot(sx - sx[0], sy - sy[0])))
    # (the profile-only solver has five unknowns for six equations and can stall close to the solution)
    lim = 1e-6 if two else max(1e-6, (0.3 if typ == "PROFILE" else 0.05) * float(np.max(d0)))
    if smax > lim:
        # accept only if the problem is nearly degenerate at the truth
        J = []
        for k, p in free:
            q = copy.deepcopy(kws)
            q[k][p] += 1e-5
            a1 = shoot(names, q, xi, yi, planes)
            a0 = shoot(names, kws, xi, yi, planes)
            J.append(np.concatenate([(a1[0] - a1[0][0])[1:] - (a0[0] - a0[0][0])[1:], (a1[1] - a1[1][0])[1:] - (a0[1] - a0[1][0])[1:]]) / 1e-5)
        sv = np.linalg.svd(np.array(J), compute_uv=False)
        if sv[min(len(sv), 2 * (need - 1)) - 1 if typ != "PROFILE" else 4] < 0.1 * sv[0]:
            t.label("degenerate")
            t.trivial()
            return
        t.fail("started within %g of a solution, the solver (%s, %s) leaves the images %g apart in the source plane (condition %s)" % (case["size"], typ, names, smax, np.round(sv / sv[0], 3)))


def fixed_check(case, t):
    """Parameters the solver determines are declared fixed, nothing else."""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.solver import Solver

    two = case["two"]
    c = case["c2"] if two else case["c4"]
    typ = "PROFILE_SHEAR" if c["type"] == "PROFILE_SHEAR_GP" else c["type"]
    if c["main"] in ("PEMD", "SPEMD") or (c["main"] == "SIS" and "ELLIPSE" in typ):
        t.trivial()
        return
    names, kws = build(c, two)
    s = Solver(typ, LensModel(names), 2 if two else 4)
    fixed = [{} for _ in names]
    init = copy.deepcopy(kws)
    out = s.add_fixed_lens(fixed, kws)
    t.equal(kws, init, "initial parameters after declaring the solved ones fixed")
    nfw = "NFW" in c["main"]
    if two:
        want = {"CENTER": [["center_x", "center_y"]], "ELLIPSE": [["e1", "e2"]], "THETA_E_PHI": [["theta_E"], ["gamma2"]], "THETA_E_ELLIPSE": [["e2", "theta_E"]]}[typ]
    else:
        want = [sorted(FREE4["NFW" if nfw else ("BPL" if "BPL" in names else "")])]
    want += [[] for _ in range(len(names) - len(want))]
    t.equal([sorted(f) for f in out], [sorted(w) for w in want], "fixed parameters of solver %s" % typ)


PROP.add("two-images", lambda: strategy(True), lambda c, t: check(c, t, True), 900, 9000, 8)
PROP.add("four-images", lambda: strategy(False), lambda c, t: check(c, t, False), 900, 9000, 8)
PROP.add("fixed-params", lambda: st.fixed_dictionaries({"two": st.booleans(), "c2": strategy(True), "c4": strategy(False)}), fixed_check, 200, 1000)


def bpl_strategy():
    return strategy(False).map(lambda c: {**c, "main": "BPL", "e": [0.6 * c["e"][0], 0.6 * c["e"][1]], "mp": None})


PROP.add("four-images-broken-power-law", bpl_strategy, lambda c, t: check(c, t, False), 16, 200, 8)
PROP.add("fixed-params-broken-power-law", lambda: st.fixed_dictionaries({"two": st.just(False), "c4": bpl_strategy()}), fixed_check, 10, 50)


class _Custom(object):
    """user-defined parameterisation: the profile and the direction of the shear"""

    @staticmethod
    def extract_array(kw):
        k = kw[0]
        return [k["theta_E"], k["e1"], k["e2"], k["center_x"], k["center_y"], 0.5 * np.arctan2(kw[1]["gamma2"], kw[1]["gamma1"])]

    @staticmethod
    def update_kwargs(x, kw):
        g = np.hypot(kw[1]["gamma1"], kw[1]["gamma2"])
        kw[0].update(theta_E=x[0], e1=x[1], e2=x[2], center_x=x[3], center_y=x[4])
        kw[1].update(gamma1=g * np.cos(2 * x[5]), gamma2=g * np.sin(2 * x[5]))
        return kw

    @staticmethod
    def add_fixed_lens(fixed, init):
        fixed[0]["theta_E"] = init[0]["theta_E"]
        return fixed


def shape_s():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["cart2", "polar2", "cart4", "custom"]), "nmax": st.integers(2, 4), "beta": uni(0.6, 1.5), "co": st.lists(uni(-0.03, 0.03), min_size=15, max_size=15),
        "dc": st.lists(uni(-0.03, 0.03), min_size=6, max_size=6), "lens": strategy(False), "shear": st.booleans()})


@PROP.facet("shapelets-and-custom", shape_s, quick=120, thorough=1500, shards=4)
def shapelets(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from lenstronomy.LensModel.Solver.solver import Solver

    c = case["lens"]
    e1, e2 = c["e"]
    sie = {"theta_E": c["theta_E"], "e1": e1, "e2": e2, "center_x": c["c"][0], "center_y": c["c"][1]}
    sh = c["shear"] or (0.05, 0.7)
    shear = {"gamma1": sh[0] * np.cos(2 * sh[1]), "gamma2": sh[0] * np.sin(2 * sh[1])}
    kind = case["kind"]
    t.label(kind)
    nco = (case["nmax"] + 1) * (case["nmax"] + 2) // 2
    shp = {"coeffs": [float(v) for v in case["co"][:nco]], "beta": case["beta"], "center_x": 0.0, "center_y": 0.0}
    if kind == "custom":
        names, kws = ["SIE", "SHEAR"], [sie, shear]
    elif kind == "cart4":
        names, kws = ["SHAPELETS_CART", "SHEAR", "SIE"], [shp, shear, sie]
    else:
        names, kws = ["SHAPELETS_CART" if kind == "cart2" else "SHAPELETS_POLAR", "SIE", "SHEAR"], [shp, sie, shear]
    need = 2 if kind.endswith("2") else 4
    typ = {"custom": "CUSTOM", "cart4": "PROFILE_SHEAR" if case["shear"] else "PROFILE"}.get(kind, "SHAPELETS")
    model = LensModel(names)
    r, ph = c["src"]
    xi, yi = LensEquationSolver(LensModel(names)).image_position_from_source(c["c"][0] + r * np.cos(ph), c["c"][1] + r * np.sin(ph), kws, min_distance=0.1, search_window=8.0,
                                                                             precision_limit=1e-11, num_iter_max=200)
    if len(xi) < need:
        t.trivial()
        return
    mag = np.abs(LensModel(names).magnification(xi, yi, kws))
    idx = np.argsort(mag)[::-1][:need]
    xi, yi = xi[idx], yi[idx]
    sep = min(np.hypot(xi[i] - xi[j], yi[i] - yi[j]) for i in range(need) for j in range(i))
    if sep < 0.25 or np.max(mag) > 60:
        t.trivial()
        return
    start = copy.deepcopy(kws)
    if kind == "custom":
        for k, d in zip(("theta_E", "e1", "e2", "center_x", "center_y"), case["dc"]):
            start[0][k] = start[0][k] + 0.3 * d
    else:
        m = 2 if need == 2 else 5
        start[0]["coeffs"] = [v + (case["dc"][i - 1] if 1 <= i <= m else 0.0) for i, v in enumerate(start[0]["coeffs"])]
    given = copy.deepcopy(start)
    solver = Solver(typ, model, need, parameter_module=_Custom() if kind == "custom" else None)
    out, acc = solver.constraint_lensmodel(xi, yi, start)
    t.equal(start, given, "input lens parameters after solving")
    if kind == "custom":
        for k in given[0]:
            if k not in ("theta_E", "e1", "e2", "center_x", "center_y"):
                t.equal(out[0][k], given[0][k], "parameter %s" % k)
        t.close(np.hypot(out[1]["gamma1"], out[1]["gamma2"]), sh[0], "shear strength", rtol=1e-6)
        t.equal(solver.add_fixed_lens([{}, {}], given), [{"theta_E": given[0]["theta_E"]}, {}], "fixed parameters of the user module")
    else:
        m = 2 if need == 2 else 5
        for i, (a, b) in enumerate(zip(out[0]["coeffs"], given[0]["coeffs"])):
            if not 1 <= i <= m:
                t.equal(a, b, "shapelet coefficient %d" % i)
        t.equal(len(out[0]["coeffs"]), nco, "number of shapelet coefficients")
        t.equal(out[0]["beta"], given[0]["beta"], "beta")
        t.equal(out[names.index("SIE")], given[names.index("SIE")], "other components")
        t.equal(solver.add_fixed_lens([{} for _ in names], given), [{} for _ in names], "fixed parameters")
    bx, by = shoot(names, out, xi, yi)
    t.close(acc, float(np.sum((bx - bx[0]) ** 2 + (by - by[0]) ** 2)), "reported accuracy", rtol=1e-3, atol=1e-12)
    t.close(solver.check_solver(xi, yi, out), np.hypot(bx - bx[0], by - by[0]), "check_solver distances", rtol=1e-4, atol=1e-9)
    if need == 2:
        # linear problem: solved exactly wherever it is not degenerate
        a0 = shoot(names, given, xi, yi)
        J = []
        for i in (1, 2):
            q = copy.deepcopy(given)
            q[0]["coeffs"][i] += 1.0
            a1 = shoot(names, q, xi, yi)
            J.append([(a1[0] - a0[0])[0] - (a1[0] - a0[0])[1], (a1[1] - a0[1])[0] - (a1[1] - a0[1])[1]])
        sv = np.linalg.svd(np.array(J), compute_uv=False)
        if sv[1] > 0.1 * sv[0] and sv[0] > 0.1:
            t.close(np.hypot(bx - bx[0], by - by[0]), np.zeros(2), "source-plane separation after a linear solution", atol=1e-6)
            t.nontrivial(True)
    else:
        b0 = shoot(names, given, xi, yi)
        d0 = float(np.max(np.hypot(b0[0] - b0[0][0], b0[1] - b0[1][0])))
        d1 = float(np.max(np.hypot(bx - bx[0], by - by[0])))
        t.true(d1 <= 1.5 * d0 + 1e-9, "the solver moved the images from %g to %g apart in the source plane" % (d0, d1))
