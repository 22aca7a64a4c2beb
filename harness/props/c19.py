"""C19: parameter vectors and keyword arguments."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness import lensprofiles as LP
from harness import lightprofiles as LI
from harness.core import Property

PROP = Property(
    "C19",
    title="Sampling vectors and model parameters translate into each other exactly",
    statement=(
        "For every model configuration the vector of sampled parameters and the model keyword arguments translate into each other without loss: names, limits and "
        "vector entries are aligned, fixed parameters keep their fixed value and are not sampled, log-sampled ones are stored as logarithms. "
        "Every constraint (joint parameters, mass and general scalings, sources positioned in the image plane or on a point source, image-position solvers, sampled "
        "redshifts) holds in the returned arguments, the bijective form maps back to the same vector, and neither repeated calls nor the caller's inputs are changed by it."
    ),
    over=("inputs", "histories"),
    quant="all lens and light profiles, subsets of fixed and log-sampled parameters, combinations of constraints, vectors inside the limits, call orders",
    why="tests fix one configuration per constraint; loss or misalignment appears for particular profiles, orders and combinations",
    files=["lenstronomy/Sampling/parameters.py", "lenstronomy/Sampling/param_group.py", "lenstronomy/Sampling/special_param.py", "lenstronomy/LensModel/lens_param.py", "lenstronomy/LightModel/light_param.py", "lenstronomy/PointSource/point_source_param.py"],
    mechanism=["Param.args2kwargs / kwargs2args", "LensParam, LightParam, PointSourceParam, SpecialParam get_params / set_params / num_param", "joint and scaling constraints"],
    observe=["Param.args2kwargs", "Param.kwargs2args", "Param.num_param", "Param.param_limits", "Param.num_param_linear"],
    rule="non-trivial: at least one sampled parameter and at least one fixed, joint, scaled or array parameter",
    assumptions=["array-valued parameters are sampled with limits given by the caller"],
)

ARR = {"MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", "MULTI_GAUSSIAN_ELLIPSE_KAPPA"}


# ------------------------------------------------------------------ every lens profile
def lens_case():
    names = sorted(set(LP.CAT) - {"SHAPELETS_POLAR"})
    return st.sampled_from(names).flatmap(lambda n: st.fixed_dictionaries(dict(model=st.just(n), kw=LP.CAT[n].kw(), fix=st.lists(st.integers(0, 12), max_size=4), log=st.lists(st.integers(0, 12), max_size=3))))


@PROP.facet("lens-profiles", lens_case, quick=900, shards=2)
def lens_profiles(case, t):
    from lenstronomy.LensModel.lens_param import LensParam

    name, kw = case["model"], dict(case["kw"])
    prof = LP.CAT[name]
    f = LP.instance(name)
    names = list(f.param_names)
    t.label(name)
    t.true(set(kw) <= set(names), "documented parameters of %s: %s" % (name, sorted(set(kw) - set(names))))
    for n in names:
        t.true(n in f.lower_limit_default and n in f.upper_limit_default, "default limits of %s for %s" % (n, name))
        if not isinstance(kw.get(n), list):
            t.true(np.all(np.asarray(f.lower_limit_default[n]) < np.asarray(f.upper_limit_default[n])), "lower limit below upper limit for %s of %s" % (n, name))
    for n in names:
        kw.setdefault(n, 0.3)
    fix = {names[i % len(names)] for i in case["fix"]}
    if name in ARR:
        fix |= {"sigma"} if case.get("free_amp") else {"sigma", "amp"}
    log = {names[i % len(names)] for i in case["log"]}
    log = {n for n in log if not isinstance(kw[n], list) and kw[n] > 0}
    fixed = {n: kw[n] for n in fix}
    keep = copy.deepcopy(fixed)
    nco = len(kw["coeffs"]) if "coeffs" in kw else 0
    par = LensParam([name], [fixed], kwargs_logsampling=[sorted(log)], num_shapelet_lens=nco, profile_kwargs_list=[dict(prof.init)] if prof.init else None)
    num, lab = par.num_param()
    args = par.set_params([kw])
    free = [n for n in names if n not in fix]
    want, wl = [], []
    for n in free:
        v = kw[n] if isinstance(kw[n], list) else [np.log10(kw[n]) if n in log else kw[n]]
        want += list(v)
        wl += ["%s_lens0" % n] * len(v)
    t.equal(num, len(want), "number of parameters of %s" % name)
    t.equal(list(lab), wl, "names of the parameters")
    t.close(np.array(args, dtype=float), want, "parameter vector", rtol=1e-12, atol=1e-300)
    a = np.array([0.7] * 2 + list(args) + [0.9], dtype=float)
    a0 = a.copy()
    out, i = par.get_params(a, 2)
    t.equal(i, 2 + num, "next index")
    t.same(a, a0, "vector not modified")
    t.equal(set(out[0]), set(names), "parameters returned")
    for n in names:
        t.close(np.asarray(out[0][n], dtype=float), np.asarray(kw[n], dtype=float), "%s of %s round trip" % (n, name), rtol=1e-9, atol=1e-14)
    t.unchanged(fixed, keep, "fixed parameters not modified")
    t.nontrivial(len(free) > 0 and (len(fix) > 0 or len(log) > 0))


# ------------------------------------------------------------------ every light profile
INTS = {"n_max"}


def light_case():
    names = [n for n in LI.NAMES if n not in ("INTERPOL",)]
    return st.sampled_from(names).flatmap(lambda n: st.fixed_dictionaries(dict(model=st.just(n), kw=LI.CAT[n].kw(), fix=st.lists(st.integers(0, 12), max_size=4), lin=st.booleans(), amp=st.booleans())))


@PROP.facet("light-profiles", light_case, quick=900, shards=2)
def light_profiles(case, t):
    from lenstronomy.LightModel.light_param import LightParam

    name, kw = case["model"], dict(case["kw"])
    f = LI.model([name]).func_list[0]
    names = list(f.param_names)
    t.label(name)
    t.true(set(kw) <= set(names), "documented parameters of %s: %s" % (name, sorted(set(kw) - set(names))))
    for n in names:
        if n in INTS or (isinstance(kw.get(n), list) and n not in f.lower_limit_default):
            continue  # limits of coefficient lists are given by the caller
        t.true(n in f.lower_limit_default and n in f.upper_limit_default, "default limits of %s for %s" % (n, name))
        t.true(np.all(np.asarray(f.lower_limit_default[n]) < np.asarray(f.upper_limit_default[n])), "lower limit below upper limit for %s of %s" % (n, name))
    for n in names:
        kw.setdefault(n, 0.3)
    fix = {names[i % len(names)] for i in case["fix"]} - {"amp"}
    for n in ("sigma", "n_max"):
        if n in kw and (isinstance(kw[n], list) or n in INTS):
            fix.add(n)
    if case["amp"]:
        fix.add("amp")
    fixed = {n: kw[n] for n in fix}
    nl = LI.nlin(name, kw)
    par = LightParam([name], [dict(fixed)], linear_solver=case["lin"], param_type="lens_light", profile_kwargs_list=[LI.profile_kwargs(name)])
    free = [n for n in names if n not in fix and not (case["lin"] and n == "amp")]
    num, lab = par.num_param()
    want, wl = [], []
    for n in free:
        v = kw[n] if isinstance(kw[n], list) else [kw[n]]
        want += list(v)
        wl += ["%s_lens_light0" % n] * len(v)
    t.equal(num, len(want), "number of parameters of %s" % name)
    t.equal(list(lab), wl, "names of the parameters")
    args = par.set_params([kw])
    t.close(np.array(args, dtype=float), want, "parameter vector of %s" % name, rtol=1e-12, atol=1e-300)
    t.equal(int(par.num_param_linear()), nl if case["lin"] else 0, "number of linear parameters")
    a = np.array([0.7] + list(args) + [0.9], dtype=float)
    a0 = a.copy()
    out, i = par.get_params(a, 1)
    t.equal(i, 1 + num, "next index")
    t.same(a, a0, "vector not modified")
    for n in names:
        if n in free or n in fixed and n != "amp":
            t.close(np.asarray(out[0][n], dtype=float), np.asarray(kw[n], dtype=float), "%s of %s round trip" % (n, name), rtol=1e-12, atol=1e-300)
    t.nontrivial(len(free) > 0 and len(fix) > 0)


# ------------------------------------------------------------------ composite models with constraints
NAMES = dict(
    SIE=["theta_E", "e1", "e2", "center_x", "center_y"], EPL=["theta_E", "gamma", "e1", "e2", "center_x", "center_y"], SIS=["theta_E", "center_x", "center_y"], SHEAR=["gamma1", "gamma2", "ra_0", "dec_0"],
    NFW=["Rs", "alpha_Rs", "center_x", "center_y"], CONVERGENCE=["kappa", "ra_0", "dec_0"], SERSIC=["amp", "R_sersic", "n_sersic", "center_x", "center_y"], GAUSSIAN=["amp", "sigma", "center_x", "center_y"],
    SERSIC_ELLIPSE=["amp", "R_sersic", "n_sersic", "e1", "e2", "center_x", "center_y"], UNIFORM=["amp"], SHAPELETS=["amp", "n_max", "beta", "center_x", "center_y"])
LENS = ["SIE", "EPL", "SIS", "SHEAR", "NFW", "CONVERGENCE"]
LIGHT = ["SERSIC", "GAUSSIAN", "SERSIC_ELLIPSE", "UNIFORM", "SHAPELETS"]
COMMON = ["center_x", "center_y", "e1", "e2", "theta_E"]


def composite_case():
    joint = st.tuples(st.integers(0, 5), st.integers(0, 5), st.lists(st.sampled_from(["center_x", "center_y", "e1", "e2", "R_sersic", "sigma", "theta_E"]), min_size=1, max_size=3, unique=True), st.booleans()).map(list)
    return st.fixed_dictionaries(dict(
        lens=st.lists(st.sampled_from(LENS), min_size=1, max_size=3), source=st.lists(st.sampled_from(LIGHT), max_size=2), light=st.lists(st.sampled_from(LIGHT), max_size=2), tau=st.lists(st.sampled_from(["UNIFORM", "GAUSSIAN"]), max_size=1),
        tracer=st.lists(st.sampled_from(["UNIFORM", "LINEAR"]), max_size=1), ps=st.lists(st.tuples(st.sampled_from(["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"]), st.integers(1, 4), st.booleans()).map(list), max_size=2),
        linear=st.booleans(), fix=st.lists(st.integers(0, 60), max_size=8), log=st.booleans(), jll=st.one_of(st.none(), joint), jlilig=st.one_of(st.none(), joint), jss=st.one_of(st.none(), joint), jlensl=st.one_of(st.none(), joint),
        jlensrc=st.one_of(st.none(), joint), jsps=st.one_of(st.none(), joint), jlips=st.one_of(st.none(), joint), jext=st.booleans(), mass=st.lists(st.sampled_from([False, 1, 2]), min_size=3, max_size=3), domass=st.booleans(),
        gen=st.booleans(), ips=st.lists(st.booleans(), min_size=2, max_size=2), mp=st.booleans(), zs=st.booleans(), special=st.fixed_dictionaries(dict(
            offset=st.booleans(), size=st.booleans(), ddt=st.booleans(), kin=st.sampled_from([False, False, True]), tau0=st.integers(0, 2))), u=st.lists(g.uni(0.02, 0.98), min_size=70, max_size=70), reps=st.integers(1, 2)))


RANGE = dict(theta_E=(0.3, 1.5), gamma=(1.7, 2.3), e1=(-0.3, 0.3), e2=(-0.3, 0.3), center_x=(-0.4, 0.4), center_y=(-0.4, 0.4), gamma1=(-0.1, 0.1), gamma2=(-0.1, 0.1), ra_0=(-0.1, 0.1), dec_0=(-0.1, 0.1), Rs=(0.5, 5), alpha_Rs=(0.1, 1),
             kappa=(-0.1, 0.1), amp=(0.1, 5), R_sersic=(0.1, 2), n_sersic=(0.6, 5), sigma=(0.1, 1), beta=(0.1, 1), k=(-1.0, 1.0), ra_image=(-2, 2), dec_image=(-2, 2), ra_source=(-0.3, 0.3), dec_source=(-0.3, 0.3), point_amp=(0.1, 5),
             source_amp=(0.1, 5), D_dt=(1000.0, 5000.0), D_d=(500.0, 1500.0), b_ani=(-0.5, 0.5), incli=(0.1, 1.2), source_size=(0.01, 0.5), delta_x_image=(-0.1, 0.1), delta_y_image=(-0.1, 0.1), scale_factor=(0.5, 2.0), tau0_list=(0.1, 2.0),
             z_sampling=(0.25, 0.75), theta_E_scale_factor=(0.5, 2.0), theta_E_scale_pow=(0.5, 1.5))
ALLN = dict(NAMES, LINEAR=["amp", "k", "center_x", "center_y"])
NSHAPE = 2


def width(model, name):
    return (NSHAPE + 1) * (NSHAPE + 2) // 2 if model == "SHAPELETS" and name == "amp" else 1


@PROP.facet("composite", composite_case, quick=900, shards=3)
def composite(case, t):
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Sampling.parameters import Param

    c = case
    groups = dict(lens=c["lens"], source=c["source"], lens_light=c["light"], extinction=c["tau"], tracer_source=c["tracer"])
    zl = [0.3, 0.5, 0.5][:len(c["lens"])]
    km = dict(lens_model_list=c["lens"], source_light_model_list=c["source"], lens_light_model_list=c["light"], optical_depth_model_list=c["tau"], tracer_source_model_list=c["tracer"],
              point_source_model_list=[p[0] for p in c["ps"]], fixed_magnification_list=[p[2] for p in c["ps"]])
    zsamp = c["mp"] and c["zs"]
    if c["mp"]:
        km.update(multi_plane=True, lens_redshift_list=zl, z_source=1.5, z_source_convention=1.5, source_redshift_list=[1.5, 1.1][:len(c["source"])])
    fixed = {k: [{} for _ in v] for k, v in groups.items()}
    for grp in groups:
        for i, m in enumerate(groups[grp]):
            if m == "SHAPELETS":
                fixed[grp][i]["n_max"] = NSHAPE
    slots = [(grp, i, n) for grp, ms in groups.items() for i, m in enumerate(ms) for n in ALLN[m] if n != "n_max" and n != "amp"]
    for f in c["fix"]:
        if slots:
            grp, i, n = slots[f % len(slots)]
            lo, hi = RANGE[n]
            fixed[grp][i][n] = lo + 0.37 * (hi - lo)
    fixed_ps = [{} for _ in c["ps"]]
    opts = dict(linear_solver=c["linear"])
    joint = []  # (from group, i, to group, k, [(to, from)])

    def add(key, setting, ga, gb, opt):
        if setting is None or not groups[ga] or not groups[gb]:
            return
        i, k = setting[0] % len(groups[ga]), setting[1] % len(groups[gb])
        if ga == gb and i == k:
            return
        names = [n for n in setting[2] if n in ALLN[groups[ga][i]] and n in ALLN[groups[gb][k]]]
        # the target of one constraint is neither source nor target of another
        used = {(j[0], j[1], f) for j in joint for _, f in j[4]} | {(j[2], j[3], n) for j in joint for n, _ in j[4]}
        tgt = {(j[2], j[3], n) for j in joint for n, _ in j[4]}
        names = [n for n in names if (gb, k, n) not in used and (ga, i, n) not in tgt and n not in fixed[gb][k]]
        if not names:
            return
        joint.append((ga, i, gb, k, [(n, n) for n in names]))
        opts.setdefault(opt, []).append([i, k, {n: n for n in names} if setting[3] else names])

    add("jll", c["jll"], "lens", "lens", "joint_lens_with_lens")
    add("jlilig", c["jlilig"], "lens_light", "lens_light", "joint_lens_light_with_lens_light")
    add("jss", c["jss"], "source", "source", "joint_source_with_source")
    add("jlensl", c["jlensl"], "lens_light", "lens", "joint_lens_with_light")
    ips = [bool(v) for v in c["ips"]][:len(c["source"])]
    ips = [v and "center_x" in NAMES[m] for v, m in zip(ips, c["source"])]
    for _, _, gb, k, nm in joint:
        if gb == "source":
            ips[k] = False
            for j in joint:
                if j[2] == "source":
                    ips[j[1]] = False
    if c["jlensrc"] is not None and c["source"]:
        i = c["jlensrc"][0] % len(c["source"])
        if not ips[i]:
            add("jlensrc", c["jlensrc"], "source", "lens", "joint_lens_with_source_light")
    if c["jext"] and c["light"] and c["tau"] and c["tau"][0] == "GAUSSIAN" and "center_x" in NAMES[c["light"][0]]:
        add("jext", [0, 0, ["center_x", "center_y"], False], "lens_light", "extinction", "joint_extinction_with_lens_light")
    pjoint = []

    def addps(setting, gb, opt):
        if setting is None or not c["ps"] or not groups[gb]:
            return
        i, k = setting[0] % len(c["ps"]), setting[1] % len(groups[gb])
        if c["ps"][i][0] == "SOURCE_POSITION" and gb == "lens_light":
            return
        if "center_x" not in NAMES[groups[gb][k]] or any(n in fixed[gb][k] for n in ("center_x", "center_y")):
            return
        for j in joint:
            if (j[2], j[3]) == (gb, k) or (j[0], j[1]) == (gb, k):
                return
        if gb == "source" and ips[k]:
            ips[k] = False
        pjoint.append((i, gb, k))
        opts[opt] = [[i, k] if setting[3] else [i, k, ["center_x", "center_y"]]]

    addps(c["jsps"], "source", "joint_source_with_point_source")
    addps(c["jlips"], "lens_light", "joint_lens_light_with_point_source")
    if any(ips):
        opts["image_plane_source_list"] = ips
    mass = [m if c["domass"] else False for m in c["mass"]][:len(c["lens"])]
    mass = [m if ("theta_E" in NAMES[n] or "alpha_Rs" in NAMES[n]) else False for m, n in zip(mass, c["lens"])]
    if 1 not in mass:
        mass = [False] * len(mass)
    nscale = max([int(m) for m in mass] + [0])
    if nscale:
        opts["mass_scaling_list"] = mass
    gen = None
    if c["gen"] and "theta_E" in sum([NAMES[n] for n in c["lens"]], []) and not nscale:
        gen = [1 if "theta_E" in NAMES[n] else False for n in c["lens"]]
        opts["general_scaling"] = {"theta_E": gen}
    if zsamp:
        opts["lens_redshift_sampling_indexes"] = [0] + [-1] * (len(c["lens"]) - 1)
    sp = c["special"]
    opts.update(point_source_offset=sp["offset"], source_size=sp["size"], Ddt_sampling=sp["ddt"], kinematic_sampling=sp["kin"], num_tau0=sp["tau0"])
    if c["ps"]:
        opts["num_point_source_list"] = [p[1] for p in c["ps"]]
    logs = {}
    if c["log"]:
        for i, m in enumerate(c["lens"]):
            n = [n for n in ("theta_E", "Rs") if n in NAMES[m] and n not in fixed["lens"][i] and not any(j[2] == "lens" and j[3] == i and any(a == n for a, _ in j[4]) for j in joint)]
            if n:
                logs[i] = n
        opts["log_sampling_lens"] = [[i, n] for i, n in logs.items()]
    kw_in = dict(kwargs_fixed_lens=fixed["lens"], kwargs_fixed_source=fixed["source"], kwargs_fixed_lens_light=fixed["lens_light"], kwargs_fixed_ps=fixed_ps, kwargs_fixed_extinction=fixed["extinction"], kwargs_fixed_tracer_source=fixed["tracer_source"], **opts)
    before = copy.deepcopy((km, kw_in))
    par = Param(km, **kw_in)
    t.unchanged((km, kw_in), before, "configuration of the caller not modified")
    # ------------------------------------------------ reference layout of the vector
    lay = []  # (group, i, name, width, log, label)
    jt = {(j[2], j[3], n) for j in joint for n, _ in j[4]} | {(gb, k, n) for _, gb, k in pjoint for n in ("center_x", "center_y")}

    def models(grp, label, lin):
        for i, m in enumerate(groups[grp]):
            for n in ALLN[m]:
                if n in fixed[grp][i] or (grp, i, n) in jt or (lin and n == "amp"):
                    continue
                lay.append((grp, i, n, width(m, n), grp == "lens" and n in logs.get(i, []), "%s_%s%d" % (n, label, i)))

    models("lens", "lens", False)
    models("source", "source_light", c["linear"])
    models("lens_light", "lens_light", c["linear"])
    for i, (typ, num, fm) in enumerate(c["ps"]):
        lay += [("ps", i, "ra_source", 0, False, "ra_source"), ("ps", i, "dec_source", 0, False, "dec_source")] if typ == "SOURCE_POSITION" else [("ps", i, "ra_image", num, False, "ra_image"), ("ps", i, "dec_image", num, False, "dec_image")]
        if not c["linear"]:
            lay.append(("ps", i, "source_amp", 0, False, "source_amp") if fm and typ != "UNLENSED" else ("ps", i, "point_amp", num, False, "point_amp"))
    if sp["ddt"] or sp["kin"]:
        lay.append(("special", 0, "D_dt", 0, False, "D_dt"))
    if sp["kin"]:
        lay += [("special", 0, n, 0, False, n) for n in ("D_d", "b_ani", "incli")]
    if nscale:
        lay.append(("special", 0, "scale_factor", nscale, False, "scale_factor"))
    if gen:
        lay += [("special", 0, n, 1, False, n) for n in ("theta_E_scale_factor", "theta_E_scale_pow")]
    if sp["offset"] and c["ps"]:
        lay += [("special", 0, n, c["ps"][0][1], False, n) for n in ("delta_x_image", "delta_y_image")]
    if sp["size"]:
        lay.append(("special", 0, "source_size", 0, False, "source_size"))
    if sp["tau0"]:
        lay.append(("special", 0, "tau0_list", sp["tau0"], False, "tau0_list"))
    if zsamp:
        lay.append(("special", 0, "z_sampling", 1, False, "z_sampling"))
    models("extinction", "light", False)
    models("tracer_source", "light", False)
    arrays = {"ps", "special"}
    vec, lab = [], []
    u = iter(c["u"] * 3)
    ref = {k: [dict(f) for f in fixed[k]] for k in groups}
    ref["ps"] = [{} for _ in c["ps"]]
    ref["special"] = {}
    for grp, i, n, w, lg, name in lay:
        lo, hi = RANGE[n]
        cnt = max(w, 1)
        v = [lo + next(u) * (hi - lo) for _ in range(cnt)]
        vec += [np.log10(x) if lg else x for x in v]
        lab += [name] * cnt
        is_arr = (w >= 1 if grp in arrays else w > 1)
        (ref["special"] if grp == "special" else ref[grp][i])[n] = np.array(v) if is_arr else v[0]
    num, labels = par.num_param()
    t.equal(num, len(vec), "number of sampled parameters")
    t.equal(list(labels), lab, "names of the sampled parameters")
    if not vec:
        t.trivial()
        return
    vec = np.array(vec)
    nl = 0
    if c["linear"]:
        nl = sum(width(m, "amp") for m in c["source"] + c["light"]) + sum(1 if (p[2] and p[0] != "UNLENSED") else p[1] for p in c["ps"])
    t.equal(int(par.num_param_linear()), nl, "number of linear parameters")
    # ------------------------------------------------ expected model arguments
    raw = copy.deepcopy(ref)
    order = [j for j in joint if j[0] == "lens_light" and j[2] == "lens_light"] + [j for j in joint if j[0] == "lens_light" and j[2] != "lens_light"] + [j for j in joint if (j[0], j[2]) == ("source", "lens")] + [j for j in joint if (j[0], j[2]) == ("lens", "lens")]
    for i, gb, k in pjoint:
        if gb == "lens_light":
            ref[gb][k].update(center_x=np.mean(ref["ps"][i]["ra_image"]), center_y=np.mean(ref["ps"][i]["dec_image"]))
    for ga, i, gb, k, nm in order:
        for a, b in nm:
            ref[gb][k][a] = ref[ga][i][b]
    for i, m in enumerate(c["lens"]):
        if nscale and mass[i] is not False:
            n = "theta_E" if "theta_E" in NAMES[m] else "alpha_Rs"
            ref["lens"][i][n] = ref["lens"][i][n] * ref["special"]["scale_factor"][mass[i] - 1]
        if gen and gen[i] is not False:
            ref["lens"][i]["theta_E"] = ref["special"]["theta_E_scale_factor"][0] * ref["lens"][i]["theta_E"] ** ref["special"]["theta_E_scale_pow"][0]

    def shoot(x, y, k):
        if c["mp"]:
            z = list(zl)
            if zsamp:
                z[0] = float(ref["special"]["z_sampling"][0])
            lm = LensModel(c["lens"], multi_plane=True, lens_redshift_list=z, z_source=[1.5, 1.1][k], z_source_convention=1.5)
        else:
            lm = LensModel(c["lens"])
        return lm.ray_shooting(x, y, ref["lens"])

    inplane = copy.deepcopy(ref["source"])
    for k in range(len(c["source"])):
        if ips[k]:
            x, y = shoot(ref["source"][k]["center_x"], ref["source"][k]["center_y"], k)
            ref["source"][k].update(center_x=x, center_y=y)
    for i, gb, k in pjoint:
        if gb == "source":
            if "ra_source" in ref["ps"][i]:
                x, y = ref["ps"][i]["ra_source"], ref["ps"][i]["dec_source"]
            else:
                x, y = shoot(ref["ps"][i]["ra_image"], ref["ps"][i]["dec_image"], k)
            ref["source"][k].update(center_x=np.mean(x), center_y=np.mean(y))
    for ga, i, gb, k, nm in joint:
        if (ga, gb) == ("source", "source"):
            for a, b in nm:
                ref["source"][k][a] = ref["source"][i][b]

    def compare(out, what, skip_source=False):
        for grp in ("lens", "source", "lens_light", "ps", "extinction", "tracer_source"):
            got = out["kwargs_" + grp]
            t.equal(len(got), len(ref[grp]), "number of models in %s" % grp)
            for i, r in enumerate(ref[grp]):
                for n, v in r.items():
                    t.close(np.asarray(got[i][n], dtype=float), np.asarray(v, dtype=float), "%s: %s of %s %d" % (what, n, grp, i), rtol=1e-7, atol=1e-9)
        t.equal(set(out["kwargs_special"]), set(ref["special"]), "special parameters")
        for n, v in ref["special"].items():
            t.close(np.asarray(out["kwargs_special"][n], dtype=float), np.asarray(v, dtype=float), "%s: %s" % (what, n), rtol=1e-9)

    v0 = vec.copy()
    for rep in range(c["reps"]):
        out = par.args2kwargs(vec)
        compare(out, "model arguments (call %d)" % rep)
        t.same(vec, v0, "vector not modified")
        bij = par.args2kwargs(vec, bijective=True)
        back = par.kwargs2args(**bij)
        t.close(back, vec, "bijective arguments map back to the vector", rtol=1e-9, atol=1e-12)
        t.same(vec, v0, "vector not modified")
        # another vector in between does not matter
        par.args2kwargs(vec + 1e-3 * (np.arange(len(vec)) % 3))
    if not c["linear"] and ("SHAPELETS" in c["source"] + c["light"]):
        pass
    elif not any("n_max" in f for grp in ("source", "lens_light") for f in fixed[grp]) or c["linear"]:
        lo, hi = par.param_limits()
        t.equal(len(lo), len(vec), "number of lower limits")
        t.equal(len(hi), len(vec), "number of upper limits")
        t.true(np.all(lo < hi), "lower limits below upper limits")
    t.true(not any(ips) or c["reps"] >= 1, "image-plane sources")
    t.nontrivial(bool(joint or pjoint or nscale or gen or any(ips) or any(f for v in fixed.values() for f in v)))
    for flag, name in ((joint, "joint"), (pjoint, "joint-ps"), (nscale, "mass-scaling"), (gen, "general-scaling"), (any(ips), "image-plane"), (zsamp, "redshift"), (logs, "log")):
        if flag:
            t.label(name)


# ------------------------------------------------------------------ solver constraints
def solver_case():
    return st.fixed_dictionaries(dict(
        typ=st.sampled_from(["PROFILE_SHEAR", "PROFILE", "CENTER", "ELLIPSE", "THETA_E_PHI", "THETA_E_ELLIPSE"]), theta=g.fl(0.9, 1.3), gamma=g.fl(1.8, 2.2), e1=g.fl(-0.15, 0.15), e2=g.fl(-0.15, 0.15), cx=g.fl(-0.03, 0.03), g1=g.fl(-0.05, 0.05),
        g2=g.fl(-0.05, 0.05), sx=g.fl(-0.04, 0.04), sy=g.fl(-0.04, 0.04), d=st.lists(g.uni(-0.01, 0.01), min_size=8, max_size=8), zs=st.booleans(), zval=g.fl(0.3, 0.6), joint=st.booleans()))


@PROP.facet("solver-constraints", solver_case, quick=120, shards=2)
def solver_constraints(case, t):
    """Images sampled in the lens plane trace back to one source under the returned lens parameters."""
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from lenstronomy.Sampling.parameters import Param

    c = case
    four = c["typ"] in ("PROFILE_SHEAR", "PROFILE")
    mp = c["zs"]
    kl = [dict(theta_E=c["theta"], gamma=c["gamma"], e1=c["e1"], e2=c["e2"], center_x=c["cx"], center_y=0.0), dict(gamma1=c["g1"], gamma2=c["g2"], ra_0=0, dec_0=0)]

    def lens(z):
        if mp:
            return LensModel(["EPL", "SHEAR"], multi_plane=True, lens_redshift_list=[0.5, z], z_source=1.5)
        return LensModel(["EPL", "SHEAR"])

    np.random.seed(0)
    x, y = LensEquationSolver(lens(0.5)).image_position_from_source(c["sx"], c["sy"], kl, min_distance=0.05, search_window=5, magnification_limit=0.3)
    if len(x) != 4:
        t.trivial()
        return
    n = 4 if four else 2
    x, y = x[:n] + np.array(c["d"][:n]), y[:n] + np.array(c["d"][4:4 + n])
    km = dict(lens_model_list=["EPL", "SHEAR"], point_source_model_list=["LENSED_POSITION"], source_light_model_list=["GAUSSIAN"])
    opts = dict(solver_type=c["typ"], num_point_source_list=[n], kwargs_lens_init=kl, kwargs_fixed_lens=[{"gamma": c["gamma"]}, {"ra_0": 0, "dec_0": 0}])
    if mp:
        km.update(multi_plane=True, lens_redshift_list=[0.5, 0.5], z_source=1.5, source_redshift_list=[1.5], z_source_convention=1.5)
        opts["lens_redshift_sampling_indexes"] = [-1, 0]
    if c["joint"]:
        opts["joint_source_with_point_source"] = [[0, 0]]
    par = Param(km, **opts)
    args = par.kwargs2args(kwargs_lens=kl, kwargs_source=[dict(amp=1, sigma=0.1, center_x=0.0, center_y=0.0)], kwargs_ps=[dict(ra_image=x, dec_image=y, point_amp=np.ones(n))], kwargs_special=dict(z_sampling=[c["zval"]]))
    a0 = args.copy()
    out = par.args2kwargs(args)
    t.same(args, a0, "vector not modified")
    ref = lens(c["zval"])
    bx, by = ref.ray_shooting(x, y, out["kwargs_lens"])
    d = np.max(np.hypot(bx - bx[0], by - by[0]))
    t.label(c["typ"])
    chk = par.check_solver(out["kwargs_lens"], out["kwargs_ps"])
    dd = np.max([np.hypot(bx[i] - bx[j], by[i] - by[j]) for i in range(n) for j in range(n)])
    t.true(chk <= dd + 1e-7 and (chk >= 0.3 * dd - 1e-7), "check_solver reports the source-plane mismatch: %s vs %s" % (chk, dd))
    if chk < 1e-5 or not mp:
        t.true(d < 1e-4 or chk > 1e-5, "images share one source: %s" % d)
    t.nontrivial(chk < 1e-5)
    t.close(out["kwargs_ps"][0]["ra_image"], x, "image positions kept", rtol=1e-12)
    if c["joint"] and chk < 1e-5:
        t.close(out["kwargs_source"][0]["center_x"], np.mean(bx), "source on the point source", rtol=0, atol=1e-7)
        t.close(out["kwargs_source"][0]["center_y"], np.mean(by), "source on the point source", rtol=0, atol=1e-7)


# ------------------------------------------------------------------ scaled amplitudes, sampled source redshifts, distance ratios, shapelet solvers
SCALED = {"SIE": "theta_E", "SIS": "theta_E", "NFW": "alpha_Rs", "TNFW": "alpha_Rs", "CHAMELEON": "alpha_1", "HERNQUIST": "sigma0", "PJAFFE": "sigma0", "SERSIC": "k_eff", "SHEAR": None}


def scale_case():
    one = st.sampled_from(sorted(SCALED)).flatmap(lambda n: st.fixed_dictionaries(dict(m=st.just(n), kw=LP.CAT[n].kw(), i=st.sampled_from([False, 1, 2]))))
    return st.fixed_dictionaries(dict(lens=st.lists(one, min_size=1, max_size=4), f=st.tuples(g.logf(0.3, 3.0), g.logf(0.3, 3.0)).map(list)))


@PROP.facet("mass-scaling", scale_case, quick=250, shards=1)
def mass_scaling(case, t):
    from lenstronomy.Sampling.parameters import Param

    names = [c["m"] for c in case["lens"]]
    kws = [LP.call_kw(c["kw"]) for c in case["lens"]]
    idx = [c["i"] if SCALED[c["m"]] else False for c in case["lens"]]
    used = sorted({i for i in idx if i is not False})
    if used == [2]:
        idx = [1 if i == 2 else i for i in idx]
        used = [1]
    if not used:
        t.trivial()
        return
    par = Param({"lens_model_list": names}, mass_scaling_list=list(idx))
    special = {"scale_factor": [case["f"][i - 1] for i in used]}
    keep = copy.deepcopy(kws)
    args = par.kwargs2args(kwargs_lens=kws, kwargs_special=special)
    t.equal(kws, keep, "parameters after writing them into a vector")
    out = par.args2kwargs(args)
    want = copy.deepcopy(keep)
    for i, (n, k) in enumerate(zip(names, want)):
        if idx[i] is not False:
            k[SCALED[n]] = k[SCALED[n]] * special["scale_factor"][used.index(idx[i])]
    for i, n in enumerate(names):
        t.label(n)
        for p, v in want[i].items():
            t.close(out["kwargs_lens"][i][p], v, "%s of component %d (%s) with scale index %s" % (p, i, n, idx[i]), rtol=1e-6, atol=1e-12)
    bij = par.args2kwargs(args, bijective=True)
    t.close(par.kwargs2args(**{k: v for k, v in bij.items() if k in ("kwargs_lens", "kwargs_special")}), args, "bijective form maps back to the vector", rtol=1e-9, atol=1e-12)
    t.nontrivial(True)


def zsamp_case():
    return st.fixed_dictionaries(dict(li=st.lists(st.integers(-1, 2), min_size=2, max_size=2), si=st.lists(st.integers(-1, 2), min_size=2, max_size=2), z=st.lists(g.uni(0.3, 3.0), min_size=3, max_size=3)))


@PROP.facet("sampled-redshifts", zsamp_case, quick=120, shards=1)
def sampled_redshifts(case, t):
    from lenstronomy.Sampling.parameters import Param

    n = max(case["li"] + case["si"]) + 1
    if n < 1 or set(i for i in case["li"] + case["si"] if i >= 0) != set(range(n)):
        t.trivial()
        return
    lens = [{"theta_E": 1.0, "center_x": 0.0, "center_y": 0.0}, {"theta_E": 0.2, "center_x": 0.3, "center_y": 0.1}]
    src = [{"amp": 1.0, "sigma": 0.1, "center_x": 0.0, "center_y": 0.0}, {"amp": 2.0, "sigma": 0.2, "center_x": 0.1, "center_y": 0.0}]
    model = {"lens_model_list": ["SIS", "SIS"], "source_light_model_list": ["GAUSSIAN", "GAUSSIAN"], "lens_redshift_list": [0.5, 0.7], "source_redshift_list": [2.0, 2.5], "z_source": 3.5, "multi_plane": True,
             "z_source_convention": 3.5}
    keep = copy.deepcopy(model)
    par = Param(model, lens_redshift_sampling_indexes=list(case["li"]), source_redshift_sampling_indexes=list(case["si"]))
    z = case["z"][:n]
    args = par.kwargs2args(kwargs_lens=lens, kwargs_source=src, kwargs_special={"z_sampling": z})
    out = par.args2kwargs(args)
    t.close(out["kwargs_special"]["z_sampling"], z, "sampled redshifts", rtol=1e-9)
    km, changed = par.update_kwargs_model(out["kwargs_special"])
    t.true(changed, "model changed by sampled redshifts")
    t.close(km["lens_redshift_list"], [z[i] if i >= 0 else keep["lens_redshift_list"][k] for k, i in enumerate(case["li"])], "lens redshifts", rtol=1e-9)
    t.close(km["source_redshift_list"], [z[i] if i >= 0 else keep["source_redshift_list"][k] for k, i in enumerate(case["si"])], "source redshifts", rtol=1e-9)
    t.equal(model, keep, "model definition of the caller")
    t.nontrivial(True)


def ratio_case():
    return st.fixed_dictionaries(dict(n=st.integers(2, 4), v=st.lists(g.uni(0.5, 1.5), min_size=12, max_size=12), fix=st.lists(st.integers(0, 5), max_size=2), cosmo=st.sampled_from([None, "FlatLambdaCDM", "FlatwCDM", "LambdaCDM", "w0waCDM"]), conflict=st.booleans()))


@PROP.facet("special-cosmology", ratio_case, quick=150, shards=1)
def special_cosmology(case, t):
    import warnings

    from lenstronomy.Sampling.special_param import SpecialParam

    kw = {"cosmology_sampling": True, "cosmology_model": case["cosmo"]} if case["cosmo"] else {"distance_ratio_sampling": True, "num_lens_planes": case["n"]}
    if case["conflict"]:
        kw.update(Ddt_sampling=True, num_z_sampling=2, kinematic_sampling=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sp = SpecialParam(**kw)
    num, names = sp.num_param()
    if case["cosmo"]:
        want = {"FlatLambdaCDM": ["H0", "Om0"], "FlatwCDM": ["H0", "Om0", "w0"], "LambdaCDM": ["H0", "Om0", "Ode0"], "w0waCDM": None}[case["cosmo"]]
        if want is None:
            want = names
            t.true(len(names) >= 4 and {"H0", "Om0"} <= set(names), "parameters of w0waCDM: %s" % names)
    else:
        want = ["factor_beta_%d_%d" % (i + 1, j + 1) for j in range(case["n"]) for i in range(j)]
        extra = [n for n in names if not n.startswith("factor_beta")]
        t.true(set(extra) <= {"a_z", "D_dt", "D_d"} or all(e.startswith("factor_a") for e in extra), "additional distance parameters %s" % extra)
        names_b = [n for n in names if n.startswith("factor_beta")]
        t.equal(sorted(names_b), sorted(want), "distance-ratio parameters of %d planes" % case["n"])
    if case["cosmo"]:
        t.equal(sorted(names), sorted(want), "cosmological parameters of %s" % case["cosmo"])
    t.equal(num, len(names), "number of special parameters")
    vals = {n: case["v"][i % 12] for i, n in enumerate(names)}
    fix = {names[i % num]: vals[names[i % num]] for i in case["fix"]}
    kw["kwargs_fixed"] = dict(fix)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sp = SpecialParam(**kw)
    num, free = sp.num_param()
    t.equal(list(free), [n for n in names if n not in fix], "free special parameters")
    args = sp.set_params(vals)
    t.close(args, [vals[n] for n in free], "vector of special parameters", rtol=1e-12)
    out, i = sp.get_params(np.array([9.0] + list(args)), 1)
    t.equal(i, 1 + num, "next index")
    for n in names:
        t.close(out[n], vals[n], "%s round trip" % n, rtol=1e-12)
    t.nontrivial(True)


def shp_case():
    return st.fixed_dictionaries(dict(num=st.sampled_from([2, 4]), nmax=st.integers(2, 4), co=st.lists(g.uni(-1, 1), min_size=15, max_size=15), two=st.booleans(), polar=st.booleans()))


@PROP.facet("shapelet-solver-vector", shp_case, quick=60, shards=1)
def shapelet_solver(case, t):
    from lenstronomy.LensModel.lens_param import LensParam

    n = (case["nmax"] + 1) * (case["nmax"] + 2) // 2
    k = 6 if case["num"] == 4 else 3
    co = case["co"][:n]
    name = "SHAPELETS_POLAR" if case["polar"] else "SHAPELETS_CART"
    models = [name] + ([name] if case["two"] else [])
    kws = [{"coeffs": list(co), "beta": 1.3, "center_x": 0.1, "center_y": -0.2} for _ in models]
    par = LensParam(models, [{} for _ in models], num_images=case["num"], solver_type="SHAPELETS", num_shapelet_lens=n)
    num, names = par.num_param()
    t.equal(num, (n - k + 3) + (n + 3 if case["two"] else 0), "number of parameters with a shapelet solver")
    t.equal(len(names), num, "number of names")
    args = par.set_params(kws)
    t.equal(len(args), num, "length of the vector")
    out, i = par.get_params(np.array(args), 0)
    t.equal(i, num, "next index")
    t.close(out[0]["coeffs"], [0.0] * k + list(co[k:]), "coefficients of the solved component", rtol=1e-12)
    if case["two"]:
        t.close(out[1]["coeffs"], co, "coefficients of the other component", rtol=1e-12)
    for o in out:
        t.close([o["beta"], o["center_x"], o["center_y"]], [1.3, 0.1, -0.2], "other parameters", rtol=1e-12)
    t.nontrivial(True)
