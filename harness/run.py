"""Command line driver: python -m harness.run <property> [options]."""

import argparse
import importlib
import json
import os
import pickle
import random
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter("ignore")

ROOT = os.environ["VERIF_ROOT"]
REPO = os.environ["VERIF_REPO"]


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid and e["status"] == "open"]


def _child(prop, facet, n, seed, out, max_wall):
    from harness import core

    devnull = open(os.devnull, "w")
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(devnull.fileno(), 1)
    os.dup2(devnull.fileno(), 2)
    workdir = tempfile.mkdtemp(dir=os.environ["TMPDIR"])
    os.chdir(workdir)
    try:
        import numpy as np

        np.random.seed(seed % (2**32))
        random.seed(seed)
        res = core.run_facet(facet, n, seed, max_wall=max_wall)
    except BaseException as e:  # noqa
        res = dict(error="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--facet", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8))))
    ap.add_argument("--replay", default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    t0 = time.time()

    from harness import core

    import lenstronomy

    if os.path.realpath(lenstronomy.__file__) != os.path.realpath(REPO + "/lenstronomy/__init__.py"):
        print("HARNESS-ERROR: lenstronomy imported from %s" % lenstronomy.__file__)
        return 3
    mod = importlib.import_module("harness.props.%s" % pid.lower())
    prop = mod.PROP

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        facet = [f for f in prop.facets if f.name == rep["facet"]][0]
        if rep.get("reproducible_alone", True):
            outcome, msg, _ = core.run_case(facet, rep["case"])
        else:
            res = core.run_facet(facet, rep["n_examples"], rep["seed"])
            outcome, msg = ("violation", res["violation"]["message"]) if res.get("violation") else ("pass", "")
        print("replay %s [%s]: %s %s" % (pid, rep["facet"], outcome, msg))
        if outcome == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0 if outcome == "pass" else 3

    facets = [f for f in prop.facets if a.facet is None or a.facet in f.name]
    tasks = []
    for f in facets:
        n = f.quick if a.tier == "quick" else f.thorough
        if n == 0:  # only replays known findings
            continue
        n = max(1, int(n * a.scale))
        shards = f.shards if a.tier == "quick" else max(f.shards, min(8, n // 50 + 1))
        per = max(1, n // shards)
        for s in range(shards):
            tasks.append((f, s, per, core.facet_seed(a.seed, pid, f.name, s)))
    max_wall = 450.0 if a.tier == "quick" else 600.0

    # fork one process per task, at most a.jobs at a time
    tmp = tempfile.mkdtemp(dir=os.environ["TMPDIR"])
    running = {}
    results = []
    queue = list(enumerate(tasks))
    while queue or running:
        while queue and len(running) < a.jobs:
            i, (f, s, n, seed) = queue.pop(0)
            out = os.path.join(tmp, "r%d" % i)
            sys.stdout.flush()
            p = os.fork()
            if p == 0:
                _child(prop, f, n, seed, out, max_wall)
            running[p] = (f, s, n, seed, out)
        p, status = os.wait()
        if p not in running:
            continue
        f, s, n, seed, out = running.pop(p)
        if os.path.exists(out):
            with open(out, "rb") as fh:
                res = pickle.load(fh)
        else:
            res = dict(error="worker for facet %s died with status %s" % (f.name, status), died=status)
        res["facet"] = f.name
        res["shard"] = s
        results.append(res)
        if a.verbose:
            print(
                "  %-40s shard %d n=%d evals=%s nontriv=%s wall=%.1fs %s"
                % (f.name, s, n, res.get("evaluations"), res.get("nontrivial"), res.get("wall", 0),
                   "VIOLATION" if res.get("violation") else ("ERROR" if res.get("error") or res.get("harness") else ""))
            )

    rc = 0
    evals = sum(r.get("evaluations", 0) for r in results)
    distinct = sum(len(set(h for r in results if r["facet"] == f.name for h in r.get("hashes", []))) for f in facets)
    violations = []
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for r in results:
        if r.get("violation"):
            v = r["violation"]
            v["property"] = pid
            path = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (pid, r["facet"].replace("/", "_"), core.case_hash(v["case"])))
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1)
            violations.append((r["facet"], v, path))
    errors = [(r["facet"], r.get("error") or r.get("harness")) for r in results if r.get("error") or r.get("harness")]

    # known findings: replayed individually, one line each
    known = load_known(pid)
    for e in known:
        fac = [f for f in prop.facets if f.name == e["facet"]]
        if fac:
            outcome, msg, _ = core.run_case(fac[0], e["case"])
            if outcome == "violation":
                print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))

    wall = time.time() - t0
    per_facet = {}
    for f in facets:
        rs = [r for r in results if r["facet"] == f.name]
        labels = {}
        for r in rs:
            for k, v in r.get("labels", {}).items():
                labels[k] = labels.get(k, 0) + v
        per_facet[f.name] = dict(
            evaluations=sum(r.get("evaluations", 0) for r in rs),
            distinct_nontrivial=len(set(h for r in rs for h in r.get("hashes", []))),
            labels=dict(sorted(labels.items(), key=lambda kv: -kv[1])[:60]),
            wall_s=round(sum(r.get("wall", 0) for r in rs), 2),
            truncated=any(r.get("truncated") for r in rs),
        )
    samples = []
    for f in facets:
        for r in results:
            if r["facet"] == f.name and r.get("samples"):
                samples.append(dict(facet=f.name, case=r["samples"][min(1, len(r["samples"]) - 1)]))
                break
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(
            property=pid,
            tier=a.tier if a.tier in ("quick", "thorough") else "quick",
            seed=a.seed,
            level="exploration",
            coverage=dict(
                evaluations=int(evals),
                distinct_nontrivial=int(distinct),
                rule=prop.rule,
                samples=samples[:25],
                facets=per_facet,
            ),
            assumptions=prop.assumptions,
            wall_s=round(wall, 2),
            violations=len(violations),
        )
        tmpf = os.path.join(ROOT, "evidence", ".%s.tmp" % pid)
        with open(tmpf, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmpf, os.path.join(ROOT, "evidence", "%s.json" % pid))

    for fname, v, path in violations:
        print("facet %s: %s" % (fname, v["message"]))
        print("  case: %s" % json.dumps(v["case"])[:1200])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    for fname, err in errors:
        print("HARNESS-ERROR facet %s: %s" % (fname, err))
        if rc == 0:
            rc = 3
    print(
        "%s tier=%s seed=%d: %d cases (%d distinct non-trivial) in %d facets, %d violation(s), %.1f s"
        % (pid, a.tier, a.seed, evals, distinct, len(facets), len(violations), wall)
    )
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
