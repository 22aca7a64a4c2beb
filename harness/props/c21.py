"""C21: fitting sequences, optimisers and samplers."""

import copy

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C21",
    title="Fitting sequences keep a consistent parameter state through every history",
    statement=(
        "Through any sequence of fixing, freeing, setting, re-limiting, restarting and sampling steps, the fitting sequence holds exactly the state, fixed values, limits and data those steps define, "
        "and leaves the caller's dictionaries unchanged. "
        "Optimisers never return a worse point than they start from, samples stay inside the limits and carry their own likelihood, the state after a run is the best point of that run, and "
        "alignments and flux calibrations enter all later steps."
    ),
    over=("inputs", "histories"),
    quant="sequences of up to eight workflow steps, constraints, limits, swarm sizes, target functions, unit-cube points, band set-ups",
    why="tests run one fixed sequence and check that it finishes; state kept or shared between steps shows only for particular orders",
    files=["lenstronomy/Workflow/fitting_sequence.py", "lenstronomy/Workflow/update_manager.py", "lenstronomy/Workflow/multi_band_manager.py", "lenstronomy/Workflow/alignment_matching.py", "lenstronomy/Workflow/flux_calibration.py",
           "lenstronomy/Sampling/sampler.py", "lenstronomy/Sampling/Samplers/pso.py", "lenstronomy/Sampling/Samplers/base_nested_sampler.py", "lenstronomy/Util/sampling_util.py"],
    mechanism=["UpdateManager state, fixed and limit dictionaries", "ParticleSwarmOptimizer global and personal best", "unit-cube transforms"],
    observe=["FittingSequence.fit_sequence", "FittingSequence.best_fit", "FittingSequence.best_fit_likelihood", "FittingSequence.param_class", "ParticleSwarmOptimizer.optimize", "sampling_util"],
    rule="non-trivial: at least two state-changing steps, or an optimisation of at least one iteration",
    assumptions=["at least one parameter is free", "the number of walkers exceeds twice the number of parameters"],
)

NM = dict(lens=[["theta_E", "e1", "e2", "center_x", "center_y"], ["gamma1", "gamma2", "ra_0", "dec_0"], ["theta_E", "center_x", "center_y"]], lens_light=[["amp", "R_sersic", "n_sersic", "center_x", "center_y"]])
LO = dict(lens=[dict(theta_E=0.5, e1=-0.3, e2=-0.3, center_x=-0.2, center_y=-0.2), dict(gamma1=-0.1, gamma2=-0.1, ra_0=-0.1, dec_0=-0.1), dict(theta_E=0.05, center_x=-1.0, center_y=-1.0)],
          lens_light=[dict(amp=0.1, R_sersic=0.2, n_sersic=0.8, center_x=-0.2, center_y=-0.2)])
HI = dict(lens=[dict(theta_E=1.6, e1=0.3, e2=0.3, center_x=0.2, center_y=0.2), dict(gamma1=0.1, gamma2=0.1, ra_0=0.1, dec_0=0.1), dict(theta_E=0.5, center_x=1.0, center_y=1.0)],
          lens_light=[dict(amp=5.0, R_sersic=2.0, n_sersic=5.0, center_x=0.2, center_y=0.2)])


def value(gr, i, n, u):
    if u == 0 and LO[gr][i][n] < 0 < HI[gr][i][n]:
        return 0.0
    return LO[gr][i][n] + (u or 0.5) * (HI[gr][i][n] - LO[gr][i][n])


def ops():
    slot = st.tuples(st.sampled_from(["lens", "lens", "lens", "lens_light"]), st.integers(0, 2), st.integers(0, 4))
    u = st.one_of(g.uni(0.1, 0.9), g.uni(0.1, 0.9), st.just(0.0))
    return st.one_of(
        st.tuples(st.just("fix"), slot, st.one_of(st.none(), u)), st.tuples(st.just("free"), slot), st.tuples(st.just("set"), slot, u), st.tuples(st.just("limits"), slot, g.uni(0.0, 0.3), g.uni(0.7, 1.0)),
        st.tuples(st.just("restart")), st.tuples(st.just("frames"), st.booleans(), st.booleans()), st.tuples(st.just("pso"), st.integers(0, 99), st.integers(3, 8), st.integers(0, 4)), st.tuples(st.just("simplex"), st.integers(1, 25)),
        st.tuples(st.just("mcmc"), st.integers(0, 99)), st.tuples(st.just("prior"), u), st.tuples(st.just("state"), st.lists(u, min_size=20, max_size=20)), st.tuples(st.just("sigma"), slot, g.uni(0.01, 0.1)),
    ).map(lambda o: [list(x) if isinstance(x, tuple) else x for x in o])


def seq_case():
    return st.fixed_dictionaries(dict(ops=st.lists(ops(), min_size=1, max_size=8), init=st.lists(g.uni(0.2, 0.8), min_size=20, max_size=20), joint=st.booleans(), mass=st.booleans(), fixed=st.lists(st.integers(0, 11), max_size=3), target=st.lists(g.uni(0.2, 0.8), min_size=20, max_size=20)))


def fill(us):
    it = iter(us)
    return {gr: [{n: value(gr, i, n, next(it)) for n in names} for i, names in enumerate(NM[gr])] for gr in NM}


@PROP.facet("histories", seq_case, quick=240, shards=4)
def histories(case, t):
    from lenstronomy.Workflow.fitting_sequence import FittingSequence

    c = case
    state, target = fill(c["init"]), fill(c["target"])
    fixed = {gr: [{} for _ in NM[gr]] for gr in NM}
    free_slots = [(i, n) for i, names in enumerate(NM["lens"]) for n in names]
    for k in c["fixed"]:
        i, n = free_slots[k]
        fixed["lens"][i][n] = state["lens"][i][n]
    joint = {("lens", 0, "center_x"), ("lens", 0, "center_y")} if c["joint"] else set()
    for gr, i, n in joint:
        fixed[gr][i].pop(n, None)
        state[gr][i][n] = state["lens_light"][0][n]
    lo, hi = copy.deepcopy(LO), copy.deepcopy(HI)
    sigma = {gr: [{n: 0.05 for n in names} for names in NM[gr]] for gr in NM}
    special = dict(scale_factor=[1.3]) if c["mass"] else {}
    sp_fix = {}
    km = dict(lens_model_list=["SIE", "SHEAR", "SIS"], lens_light_model_list=["SERSIC"], index_lens_model_list=[[0], [1, 2]])
    kc = dict(linear_solver=False)
    if c["joint"]:
        kc["joint_lens_with_light"] = [[0, 0, ["center_x", "center_y"]]]
    if c["mass"]:
        kc["mass_scaling_list"] = [False, False, 1]
    prior = lambda tg: dict(prior_lens=[[i, n, tg["lens"][i][n], 0.3] for i, names in enumerate(NM["lens"]) for n in names], prior_lens_light=[[0, n, tg["lens_light"][0][n], 0.5] for n in NM["lens_light"][0]])
    kl = dict(check_bounds=True, source_position_likelihood=False, **prior(target))
    kp = dict(lens_model=[copy.deepcopy(state["lens"]), sigma["lens"], copy.deepcopy(fixed["lens"]), copy.deepcopy(lo["lens"]), copy.deepcopy(hi["lens"])],
              lens_light_model=[copy.deepcopy(state["lens_light"]), sigma["lens_light"], copy.deepcopy(fixed["lens_light"]), copy.deepcopy(lo["lens_light"]), copy.deepcopy(hi["lens_light"])])
    if c["mass"]:
        kp["special"] = [dict(special), dict(scale_factor=[0.1]), sp_fix, dict(scale_factor=[0.5]), dict(scale_factor=[2.0])]
    init = copy.deepcopy(state)
    init_fixed = copy.deepcopy(fixed)
    inputs = [km, kc, kl, kp]
    keep = copy.deepcopy(inputs)
    fs = FittingSequence({}, km, kc, kl, kp, verbose=False)
    scale = list(special.get("scale_factor", []))
    scale0 = list(scale)
    dirty = set()  # fixed to another value than the present state until the next run

    def slot(s):
        gr = s[0]
        i = s[1] % len(NM[gr])
        return gr, i, NM[gr][i][s[2] % len(NM[gr][i])]

    def layout():
        out = []
        for gr in ("lens", "lens_light"):
            for i, names in enumerate(NM[gr]):
                out += [(gr, i, n) for n in names if n not in fixed[gr][i] and (gr, i, n) not in joint]
        return out

    def resolved():
        s = copy.deepcopy(state)
        for gr in NM:
            for i in range(len(NM[gr])):
                s[gr][i].update(fixed[gr][i])
        for gr, i, n in joint:
            s[gr][i][n] = s["lens_light"][0][n]
        return s

    def logl(s, sc):
        for gr, i, n in layout():
            if not lo[gr][i][n] <= s[gr][i][n] <= hi[gr][i][n]:
                return -1e18
        if sc and not 0.5 <= sc[0] <= 2.0:
            return -1e18
        out = 0.0
        for gr, w in (("lens", 0.3), ("lens_light", 0.5)):
            for i, names in enumerate(NM[gr]):
                for n in names:
                    v = s[gr][i][n]
                    if sc and (gr, i, n) == ("lens", 2, "theta_E"):
                        v = v * sc[0]
                    out -= (v - target[gr][i][n]) ** 2 / 2 / w**2
        return out

    def verify(what):
        bf = fs.best_fit(bijective=True)
        for gr in NM:
            for i, names in enumerate(NM[gr]):
                for n in names:
                    if (gr, i, n) not in dirty:
                        t.close(bf["kwargs_" + gr][i][n], state[gr][i][n], "%s: state of %s %d %s" % (what, gr, i, n), rtol=1e-12, atol=1e-14)
        if scale:
            t.close(bf["kwargs_special"]["scale_factor"], scale, what + ": scale factor", rtol=1e-12)
        t.unchanged([dict(d) for d in fs.kwargs_fixed[0]], fixed["lens"], what + ": fixed lens parameters")
        t.unchanged([dict(d) for d in fs.kwargs_fixed[2]], fixed["lens_light"], what + ": fixed light parameters")
        par = fs.param_class
        lay = layout()
        num, names = par.num_param()
        t.equal(list(names), ["%s_%s%d" % (n, gr, i) for gr, i, n in lay] + ["scale_factor"] * len(scale), what + ": sampled parameters")
        lw, up = par.param_limits()
        t.close(lw, [lo[gr][i][n] for gr, i, n in lay] + [0.5] * len(scale), what + ": lower limits", rtol=1e-12, atol=1e-14)
        t.close(up, [hi[gr][i][n] for gr, i, n in lay] + [2.0] * len(scale), what + ": upper limits", rtol=1e-12, atol=1e-14)
        want = logl(resolved(), scale)
        t.close(fs.best_fit_likelihood(), want, what + ": likelihood of the state", rtol=1e-9, atol=1e-9)
        t.unchanged(inputs, keep, what + ": inputs of the caller")
        return want

    before = verify("start")
    changes = 0
    for k, op in enumerate(c["ops"]):
        kind = op[0]
        what = "step %d (%s)" % (k, kind)
        t.label(kind)
        if kind == "fix":
            gr, i, n = slot(op[1])
            if (gr, i, n) in joint or (gr, n) == ("lens_light", "R_sersic"):
                continue
            arg = [[i, [n]]] if op[2] is None else [[i, [n], [value(gr, i, n, op[2])]]]
            step = [["update_settings", {gr + "_add_fixed": arg}]]
            keep_step = copy.deepcopy(step)
            fs.fit_sequence(step)
            t.unchanged(step, keep_step, "settings of the step")
            fixed[gr][i][n] = state[gr][i][n] if op[2] is None else arg[0][2][0]
            if op[2] is not None:
                dirty.add((gr, i, n))
        elif kind == "free":
            gr, i, n = slot(op[1])
            fs.fit_sequence([["update_settings", {gr + "_remove_fixed": [[i, [n]]]}]])
            if n in fixed[gr][i]:
                if (gr, i, n) in dirty:
                    dirty.discard((gr, i, n))
                    state[gr][i][n] = fs.best_fit(bijective=True)["kwargs_" + gr][i][n]
                del fixed[gr][i][n]
        elif kind == "set":
            gr, i, n = slot(op[1])
            if (gr, i, n) in joint or n in fixed[gr][i]:
                continue
            v = value(gr, i, n, op[2])
            fs.fit_sequence([["set_param_value", {gr: [[i, [n], [v]]]}]])
            state[gr][i][n] = v
        elif kind == "limits":
            gr, i, n = slot(op[1])
            if gr != "lens":
                continue
            a, b = value(gr, i, n, op[2]), value(gr, i, n, op[3])
            fs.fit_sequence([["update_settings", dict(change_lens_lower_limit=[[i, [n], [a]]], change_lens_upper_limit=[[i, [n], [b]]])]])
            lo[gr][i][n], hi[gr][i][n] = a, b
        elif kind == "sigma":
            gr, i, n = slot(op[1])
            fs.fit_sequence([["update_settings", {"change_sigma_" + gr: [[i, [n], [op[2]]]]}]])
        elif kind == "prior":
            target = fill([op[1]] * 20)
            fs.fit_sequence([["update_settings", dict(kwargs_likelihood=prior(target))]])
        elif kind == "restart":
            fs.fit_sequence([["restart", None]])
            state = copy.deepcopy(init)
            scale = list(scale0)
            dirty = {(gr, i, n) for gr in NM for i in range(len(NM[gr])) for n in fixed[gr][i] if fixed[gr][i][n] != state[gr][i][n]}
        elif kind == "frames":
            fs.fit_sequence([["fix_not_computed", dict(free_bands=[bool(op[1]), bool(op[2])])]])
            idx = km["index_lens_model_list"]
            for free, models in zip(op[1:], idx):
                if free:
                    for i in models:
                        fixed["lens"][i] = copy.deepcopy(init_fixed["lens"][i])
                        dirty = {d for d in dirty if d[:2] != ("lens", i)} | {("lens", i, n) for n in fixed["lens"][i] if fixed["lens"][i][n] != state["lens"][i][n]}
            for free, models in zip(op[1:], idx):
                if not free:
                    bf = fs.best_fit(bijective=True)["kwargs_lens"]
                    for i in models:
                        for d in [d for d in dirty if d[:2] == ("lens", i)]:
                            state["lens"][i][d[2]] = bf[i][d[2]]
                            dirty.discard(d)
                        fixed["lens"][i] = copy.deepcopy(state["lens"][i])
                        if i == 0:
                            fixed["lens"][0] = {n: v for n, v in fixed["lens"][0].items()}
            if c["joint"] and not op[1]:
                # a frame that is kept fixed also fixes the joint parameters: the joint constraint wins in the state
                return
        elif kind == "state":
            new = fill(op[1])
            for gr in NM:
                for i in range(len(NM[gr])):
                    new[gr][i].update(fixed[gr][i])
            for gr, i, n in joint:
                new[gr][i][n] = new["lens_light"][0][n]
            arg = dict(kwargs_lens=copy.deepcopy(new["lens"]), kwargs_lens_light=copy.deepcopy(new["lens_light"]), kwargs_source=[], kwargs_ps=[], kwargs_special=dict(scale_factor=list(scale)) if scale else {}, kwargs_extinction=[], kwargs_tracer_source=[])
            fs.update_state(arg)
            state, dirty = new, set()
        else:
            start = logl(resolved(), scale)
            if start < -1e17:
                continue
            np.random.seed(op[1])
            lay = layout()
            if kind == "pso":
                out = fs.fit_sequence([["PSO", dict(n_particles=op[2], n_iterations=op[3], sigma_scale=1.0)]])
                t.equal(out[0][0], "PSO", "kind of chain")
                ll = out[0][1][0]
                t.true(all(b >= a for a, b in zip(ll, ll[1:])), "best likelihood of the swarm never decreases")
            elif kind == "simplex":
                out = fs.fit_sequence([["SIMPLEX", dict(n_iterations=op[1])]])
            else:
                n_w = 2 * (len(lay) + len(scale)) + 2
                step = [["MCMC", dict(n_burn=1, n_run=2, n_walkers=n_w, sigma_scale=0.5, progress=False, re_use_samples=False)]]
                keep_step = copy.deepcopy(step)
                out = fs.fit_sequence(step)
                t.unchanged(step, keep_step, "settings of the step")
            bf = fs.best_fit(bijective=True)
            new = {gr: [{n: float(bf["kwargs_" + gr][i][n]) for n in names} for i, names in enumerate(NM[gr])] for gr in NM}
            for gr in NM:
                for i in range(len(NM[gr])):
                    for n, v in fixed[gr][i].items():
                        t.close(new[gr][i][n], v, what + ": fixed value of %s %d %s" % (gr, i, n), rtol=1e-12, atol=1e-14)
            for gr, i, n in joint:
                t.close(new[gr][i][n], new["lens_light"][0][n], what + ": joint parameter", rtol=1e-12, atol=1e-14)
            state, dirty = new, set()
            if scale:
                scale = [float(np.atleast_1d(bf["kwargs_special"]["scale_factor"])[0])]
            end = logl(resolved(), scale)
            t.true(end > -1e17, what + ": result inside the limits")
            if kind in ("pso", "simplex"):
                t.true(end >= start - 1e-9, what + ": optimiser result not worse than the start (%s < %s)" % (end, start))
            if kind == "mcmc":
                _, samples, names, dist = out[0]
                t.equal(np.shape(samples), (n_w * 2, len(lay) + len(scale)), "shape of the samples")
                lw = np.array([lo[gr][i][n] for gr, i, n in lay] + [0.5] * len(scale))
                up = np.array([hi[gr][i][n] for gr, i, n in lay] + [2.0] * len(scale))
                t.true(np.all(samples >= lw) and np.all(samples <= up), "samples inside the limits")
                for r in range(0, len(samples), 5):
                    s = resolved()
                    for (gr, i, n), v in zip(lay, samples[r]):
                        s[gr][i][n] = v
                    for gr, i, n in joint:
                        s[gr][i][n] = s["lens_light"][0][n]
                    t.close(dist[r], logl(s, [samples[r][-1]] if scale else []), "likelihood stored with the sample", rtol=1e-9, atol=1e-9)
                t.close(end, np.max(dist), "state is the best sample", rtol=1e-9, atol=1e-9)
            # model arguments of the state
            mod = fs.best_fit()
            ref = fs.param_class.args2kwargs(fs.param_class.kwargs2args(**bf))
            for gr in NM:
                for i, names in enumerate(NM[gr]):
                    for n in names:
                        t.close(mod["kwargs_" + gr][i][n], ref["kwargs_" + gr][i][n], what + ": model arguments", rtol=1e-9, atol=1e-12)
        changes += 1
        verify(what)
    nfree = len(layout()) + len(scale)
    k, n = nfree, fs.likelihood_class.num_data
    t.equal(int(n), 0, "no imaging data")
    t.nontrivial(changes > 1)


# ------------------------------------------------------------------ particle swarm
def pso_case():
    return st.fixed_dictionaries(dict(n=st.integers(1, 3), np=st.integers(2, 10), it=st.integers(0, 12), seed=st.integers(0, 9999), centre=st.lists(g.uni(-2, 2), min_size=3, max_size=3), width=st.lists(g.uni(0.3, 3), min_size=3, max_size=3), init=st.one_of(st.none(), st.lists(g.uni(-1, 1), min_size=3, max_size=3)),
                                      waves=st.booleans(), box=st.booleans(), gen=st.booleans()))


@PROP.facet("swarm", pso_case, quick=300)
def swarm(case, t):
    from lenstronomy.Sampling.Samplers.pso import ParticleSwarmOptimizer

    c = case
    n = c["n"]
    ctr, w = np.array(c["centre"][:n]), np.array(c["width"][:n])
    low, high = ctr - w, ctr + w
    seen = []

    def func(x):
        x = np.asarray(x, dtype=float)
        f = -float(np.sum((x - 0.3 * ctr) ** 2)) + (np.cos(7 * x).sum() if c["waves"] else 0.0)
        if c["box"] and (np.any(x < low) or np.any(x > high)):
            f = -1e18
        seen.append((x.copy(), f))
        return f

    np.random.seed(c["seed"])
    opt = ParticleSwarmOptimizer(func, low, high, c["np"])
    best0 = None
    if c["init"] is not None:
        x0 = ctr + 0.9 * w * np.array(c["init"][:n])
        opt.set_global_best(x0, [0] * n, func(x0))
    if c["gen"]:
        steps = list(opt.sample(c["it"], verbose=False))
        res, ll, pos = opt.global_best.position, None, None
        t.true(len(steps) <= c["it"], "number of iterations")
        for s in steps:
            for p in s:
                t.true(any(np.array_equal(p.position, x) and p.fitness == f for x, f in seen), "particles carry the value of their position")
    else:
        res, (ll, pos, vel) = opt.optimize(c["it"], verbose=False)
        t.true(len(ll) == len(pos) == len(vel) <= c["it"], "length of the chain")
        t.true(all(b >= a for a, b in zip(ll, ll[1:])), "best value never decreases")
        for x, f in zip(pos, ll):
            if len(np.ravel(x)) == n:
                t.true(any(np.array_equal(x, y) and f == v for y, v in seen), "chain holds evaluated points")
    vals = np.array([f for _, f in seen])
    k = int(np.argmax(vals))
    t.equal(opt.global_best.fitness, vals[k], "result is the best of all evaluated points")
    t.equal(func(res), vals[k], "value at the result")
    first = [x for x, _ in seen[(1 if c["init"] is not None else 0):][: c["np"]]]
    t.true(all(np.all(x >= low) and np.all(x <= high) for x in first), "particles start inside the limits")
    npart = c["np"]
    off = 1 if c["init"] is not None else 0
    for j, p in enumerate(opt.swarm):
        own = [f for q, (x, f) in enumerate(seen[off:-1]) if q % npart == j]
        t.equal(p.personal_best.fitness, max(own), "personal best of a particle")
    t.nontrivial(c["it"] > 0)


# ------------------------------------------------------------------ unit-cube transforms
def cube_case():
    return st.fixed_dictionaries(dict(u=st.lists(g.uni(0.0, 1.0), min_size=1, max_size=4), lo=st.lists(g.fl(-5, 5), min_size=4, max_size=4), w=st.lists(g.logf(0.01, 10), min_size=4, max_size=4), m=st.lists(g.uni(0.05, 0.95), min_size=4, max_size=4), s=st.lists(g.logf(0.05, 3), min_size=4, max_size=4), scale=g.fl(0.1, 1.0), seed=st.integers(0, 999), size=st.integers(1, 6), copy=st.booleans()))


@PROP.facet("unit-cube", cube_case, quick=500)
def unit_cube(case, t):
    from lenstronomy.Util import sampling_util as su

    c = case
    n = len(c["u"])
    u, lo, w, s = np.array(c["u"]), np.array(c["lo"][:n]), np.array(c["w"][:n]), np.array(c["s"][:n]) * np.array(c["w"][:n])
    hi = lo + w
    m = lo + np.array(c["m"][:n]) * w
    inp = u.copy()
    out = su.cube2args_uniform(inp, lo, hi, n, copy=c["copy"])
    t.close(out, lo + u * w, "uniform transform", rtol=1e-10, atol=1e-10)
    if c["copy"]:
        t.same(inp, u, "input not modified")
    t.close(su.uniform2unit(out, lo, hi), u, "inverse of the uniform transform", rtol=1e-8, atol=1e-8)
    t.close(su.unit2uniform(u, lo, hi), out, "unit2uniform", rtol=1e-10, atol=1e-10)
    inp = u.copy()
    ga = su.cube2args_gaussian(inp, lo, hi, m, s, n, copy=c["copy"])
    if c["copy"]:
        t.same(inp, u, "input not modified")
    t.true(np.all(ga >= lo - 1e-9 * w) and np.all(ga <= hi + 1e-9 * w), "gaussian transform inside the limits")
    cdf = (stats.norm.cdf((ga - m) / s) - stats.norm.cdf((lo - m) / s)) / (stats.norm.cdf((hi - m) / s) - stats.norm.cdf((lo - m) / s))
    t.close(cdf, u, "gaussian transform follows the truncated normal distribution", rtol=1e-6, atol=1e-6)
    a, b = su.scale_limits(lo, hi, c["scale"])
    t.close(b - a, c["scale"] * w, "scaled width", rtol=1e-9, atol=1e-12)
    t.close(a + b, lo + hi, "scaled limits keep the centre", rtol=1e-9, atol=1e-9)
    np.random.seed(c["seed"])
    d = su.sample_ball_truncated(m, s, lo, hi, c["size"])
    t.equal(d.shape, (c["size"], n), "shape of the draws")
    t.true(np.all(d >= lo) and np.all(d <= hi), "draws inside the limits")
    d = su.sample_ball(m, s, size=c["size"])
    t.true(np.all(np.abs(d - m) <= s * (1 + 1e-9)), "uniform ball inside one width")
    # nested sampler prior
    from lenstronomy.Sampling.Samplers.base_nested_sampler import NestedSampler

    class L(object):
        param_limits = (lo, hi)

        class param(object):
            @staticmethod
            def num_param():
                return n, ["p%d" % i for i in range(n)]

        bad = False

        def __call__(self, x):
            return np.nan if self.bad else -float(np.sum((x - m) ** 2))

    like = L()
    ns = NestedSampler(like, "uniform", None, None, c["scale"], 1)
    low, up = (a, b) if c["scale"] < 1 else (lo, hi)
    arg = u.copy()
    t.close(ns.prior(arg), low + u * (up - low), "uniform prior of the nested sampler", rtol=1e-9, atol=1e-9)
    ns = NestedSampler(like, "gaussian", m, s, 1, 2.0)
    p = ns.prior(u.copy())
    t.close(p, su.cube2args_gaussian(u.copy(), lo, hi, m, 2 * s, n), "gaussian prior of the nested sampler", rtol=1e-7, atol=1e-9)
    t.close(ns.log_likelihood(p), -np.sum((p - m) ** 2), "likelihood of the nested sampler", rtol=1e-9, atol=1e-12)
    like.bad = True
    t.equal(ns.log_likelihood(p), -1e15, "non-finite likelihood")
    t.nontrivial(n > 1)


# ------------------------------------------------------------------ nested sampling
def nested_case():
    return st.fixed_dictionaries(dict(seed=st.integers(0, 999), tx=g.fl(0.8, 1.2), ty=g.fl(-0.1, 0.1), sampler=st.sampled_from(["dynesty", "nested_sampling", "Nautilus"])))


@PROP.facet("nested", nested_case, quick=3)
def nested(case, t):
    from lenstronomy.Workflow.fitting_sequence import FittingSequence

    km = dict(lens_model_list=["SIS"])
    kp = dict(lens_model=[[dict(theta_E=1.0, center_x=0.0, center_y=0.0)], [dict(theta_E=0.1, center_x=0.1, center_y=0.1)], [dict(center_y=0.0)], [dict(theta_E=0.5, center_x=-0.5, center_y=-0.5)], [dict(theta_E=1.5, center_x=0.5, center_y=0.5)]])
    kl = dict(prior_lens=[[0, "theta_E", case["tx"], 0.05], [0, "center_x", case["ty"], 0.05]])
    fs = FittingSequence({}, km, {}, kl, kp, verbose=False)
    np.random.seed(case["seed"])
    if case["sampler"] == "Nautilus":
        out = fs.fit_sequence([["Nautilus", dict(n_live=60, n_eff=60, verbose=False, n_networks=1, seed=case["seed"])]])
        points, ll = out[0][6]["points"], out[0][6]["log_l"]
    else:
        out = fs.fit_sequence([[case["sampler"], dict(kwargs_run=dict(dlogz_init=2.0, nlive_init=25, maxbatch=0, print_progress=False))]])
        points, ll = out[0][6].samples, out[0][6].logl
    best = points[np.argmax(ll)]
    bf = fs.best_fit()["kwargs_lens"][0]
    t.close([bf["theta_E"], bf["center_x"]], best, "state after nested sampling is the best point", rtol=1e-9, atol=1e-12)
    t.close(fs.best_fit_likelihood(), np.max(ll), "likelihood of the state", rtol=1e-9, atol=1e-9)
    ref = -0.5 * ((points[:, 0] - case["tx"]) / 0.05) ** 2 - 0.5 * ((points[:, 1] - case["ty"]) / 0.05) ** 2
    t.close(ll, ref, "likelihoods of the samples", rtol=1e-7, atol=1e-7)
    t.true(np.all(points[:, 0] >= 0.5) and np.all(points[:, 0] <= 1.5) and np.all(np.abs(points[:, 1]) <= 0.5), "samples inside the limits")
    t.label(case["sampler"])
    t.nontrivial(True)


# ------------------------------------------------------------------ alignment and flux calibration
def band_case():
    return st.fixed_dictionaries(dict(nb=st.integers(1, 2), band=st.integers(0, 1), off=st.booleans(), rot=st.booleans(), args=st.lists(g.uni(-0.15, 0.15), min_size=3, max_size=3), shift=st.lists(g.uni(-0.1, 0.1), min_size=2, max_size=2), seed=st.integers(0, 99), mask=st.booleans(), cal=st.lists(st.booleans(), min_size=2, max_size=2), fac=st.lists(g.uni(0.5, 2.0), min_size=2, max_size=2),
                                      pre=st.booleans()))


def bands(c, n=9):
    rs = np.random.RandomState(5)
    out = []
    yy, xx = np.mgrid[0:n, 0:n]
    for b in range(c["nb"]):
        x, y = (xx - 4) * 0.2 - c["shift"][0], (yy - 4) * 0.2 - c["shift"][1]
        img = 3 * np.exp(-(x**2 + 1.3 * y**2) / 0.5) + 0.05 * rs.normal(size=(n, n))
        kd = dict(image_data=img, background_rms=0.1, exposure_time=1000.0, ra_at_xy_0=-0.8, dec_at_xy_0=-0.8, transform_pix2angle=np.eye(2) * 0.2)
        if c["pre"]:
            kd.update(ra_shift=0.02, dec_shift=-0.01)
        out.append([kd, dict(psf_type="GAUSSIAN", fwhm=0.3, pixel_size=0.2), {}])
    masks = [np.ones((n, n)) for _ in range(c["nb"])]
    if c["mask"]:
        masks[0][:2] = 0
    return out, masks


KM = dict(lens_light_model_list=["GAUSSIAN_ELLIPSE"])
KLL = [dict(amp=5.0, sigma=0.5, e1=0.1, e2=0.0, center_x=0.0, center_y=0.0)]


def params():
    return dict(lens_light_model=[copy.deepcopy(KLL), [dict(amp=1, sigma=0.1, e1=0.1, e2=0.1, center_x=0.05, center_y=0.05)], [dict(e1=0.1, e2=0.0, center_x=0.0, center_y=0.0)], [dict(amp=0, sigma=0.1, e1=-0.5, e2=-0.5, center_x=-1, center_y=-1)],
                                  [dict(amp=10, sigma=2, e1=0.5, e2=0.5, center_x=1, center_y=1)]])


@PROP.facet("alignment", band_case, quick=60, shards=2)
def alignment(case, t):
    from lenstronomy.Util import class_creator
    from lenstronomy.Workflow.alignment_matching import AlignmentLikelihood
    from lenstronomy.Workflow.fitting_sequence import FittingSequence

    c = case
    mb, masks = bands(c)
    k = c["band"] % c["nb"]
    if not (c["off"] or c["rot"]):
        t.trivial()
        return
    like = AlignmentLikelihood(copy.deepcopy(mb), KM, dict(kwargs_lens=None, kwargs_source=None, kwargs_lens_light=KLL, kwargs_ps=None), band_index=k, likelihood_mask_list=masks, align_offset=c["off"], align_rotation=c["rot"])
    args = (c["args"][:2] if c["off"] else []) + ([c["args"][2]] if c["rot"] else [])
    t.equal(like.num_param, len(args), "number of alignment parameters")

    def reference(kd):
        sim = class_creator.create_im_sim([[kd, mb[k][1], mb[k][2]]], "multi-linear", KM, image_likelihood_mask_list=[masks[k]])
        return sim.likelihood_data_given_model(None, None, KLL, None)[0]

    def data(a):
        kd = dict(mb[k][0])
        a = list(a)
        if c["off"]:
            kd.update(ra_shift=a.pop(0), dec_shift=a.pop(0))
        if c["rot"]:
            kd.update(phi_rot=a.pop(0))
        return kd

    for a in (args, [0.5 * v for v in args], args):
        t.close(like.likelihood(a), reference(data(a)), "likelihood of the aligned band", rtol=1e-7, atol=1e-7)
    t.close(like.get_args(mb[k][0]), ([mb[k][0].get("ra_shift", 0), mb[k][0].get("dec_shift", 0)] if c["off"] else []) + ([0] if c["rot"] else []), "present alignment", rtol=1e-12)
    # inside a fitting sequence
    work = copy.deepcopy(mb)
    fs = FittingSequence(dict(multi_band_list=work, multi_band_type="multi-linear"), KM, {}, dict(image_likelihood_mask_list=masks), params(), verbose=False)
    before = fs.best_fit_likelihood()
    np.random.seed(c["seed"])
    compute = [i == k for i in range(c["nb"])]
    fs.fit_sequence([["align_images", dict(n_particles=3, n_iterations=3, align_offset=c["off"], align_rotation=c["rot"], delta_shift=0.15, delta_rot=0.1, compute_bands=compute)]])
    after = fs.best_fit_likelihood()
    t.true(after >= before - 1e-7, "alignment never lowers the likelihood (%s < %s)" % (after, before))
    for i in range(c["nb"]):
        kd, k0 = fs.multi_band_list[i][0], mb[i][0]
        for key in k0:
            if key not in ("ra_shift", "dec_shift", "phi_rot") or i != k:
                t.unchanged(kd[key], k0[key], "data of band %d: %s" % (i, key))
    t.close(after - before, reference(fs.multi_band_list[k][0]) - reference(mb[k][0]), "gain in likelihood is that of the aligned band", rtol=1e-6, atol=1e-5)
    t.nontrivial(c["nb"] > 1)


@PROP.facet("calibration", band_case, quick=60, shards=2)
def calibration(case, t):
    from lenstronomy.Sampling.Likelihoods.image_likelihood import ImageLikelihood
    from lenstronomy.Workflow.fitting_sequence import FittingSequence
    from lenstronomy.Workflow.flux_calibration import CalibrationLikelihood

    c = dict(case, nb=2)
    mb, masks = bands(c)
    mb[1][0]["image_data"] = mb[1][0]["image_data"] * 1.7
    cal = [bool(v) for v in c["cal"]]
    imaging = dict(multi_band_list=mb, multi_band_type="joint-linear", image_likelihood_mask_list=masks)
    keep = copy.deepcopy(mb)
    kpar = dict(kwargs_lens=None, kwargs_source=None, kwargs_lens_light=KLL, kwargs_ps=None)
    like = CalibrationLikelihood(KM, kpar, calibrate_bands=cal, kwargs_imaging=imaging)
    args = [f for f, on in zip(c["fac"], cal) if on]
    t.equal(like.num_param, len(args), "number of calibration parameters")

    def reference(a):
        a = list(a)
        m2 = copy.deepcopy(keep)
        for b, on in zip(m2, cal):
            if on:
                b[0]["flux_scaling"] = a.pop(0)
        return ImageLikelihood(m2, "joint-linear", KM, image_likelihood_mask_list=masks).logL(**kpar)[0]

    t.close(like.get_args(mb), [1.0] * len(args), "present calibration", rtol=1e-12)
    for a in (args, [1.0] * len(args), args):
        t.close(like.likelihood(a), reference(a), "likelihood of the calibrated bands", rtol=1e-7, atol=1e-7)
    t.unchanged(mb, keep, "bands of the caller")
    if not args:
        t.trivial()
        return
    fs = FittingSequence(dict(multi_band_list=mb, multi_band_type="joint-linear"), KM, {}, dict(image_likelihood_mask_list=masks), params(), verbose=False)
    before = fs.best_fit_likelihood()
    np.random.seed(c["seed"])
    fs.fit_sequence([["calibrate_images", dict(n_particles=3, n_iterations=3, calibrate_bands=cal, scaling_lower_limit=0.3, scaling_upper_limit=2.5)]])
    res = [b[0]["flux_scaling"] for b, on in zip(fs.multi_band_list, cal) if on]
    after = fs.best_fit_likelihood()
    t.close(after, reference(res), "later likelihoods use the calibrated bands", rtol=1e-7, atol=1e-7)
    t.true(after >= before - 1e-7, "calibration never lowers the likelihood")
    for b, b0, on in zip(fs.multi_band_list, keep, cal):
        t.true(on or "flux_scaling" not in b[0], "only the selected bands are calibrated")
    t.nontrivial(True)
