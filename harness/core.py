"""Core of the property-based checking framework.

A property module (harness/props/<id>.py) registers *facets*.  A facet is one executable
statement of the property: a Hypothesis strategy producing JSON-serialisable cases, and a
``check(case, t)`` function that evaluates the real library against an explicit oracle and
calls ``t.fail`` (or one of the comparison helpers) when the statement does not hold.

Every random choice is made by the Hypothesis strategy; the whole run is a pure function of
the code under test and VERIF_SEED.
"""

import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class _Null(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


_NULL = _Null()  # the library prints notes; they are not part of the result


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """A single case did not return within CASE_LIMIT seconds (cases normally take milliseconds)."""


CASE_LIMIT = 150.0


def _on_alarm(signum, frame):
    raise Hang()


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class Facet(object):
    def __init__(self, name, strategy, check, quick, thorough=None, shards=1, rule=""):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.rule = rule


class Property(object):
    def __init__(self, pid, rule, assumptions=(), title="", statement="", over=("inputs",), quant="", why="", files=(), mechanism=(),
                 observe=(), note=""):
        self.title, self.statement, self.over, self.quant, self.why = title, statement, list(over), quant, why
        self.files, self.mechanism, self.observe, self.note = list(files), list(mechanism), list(observe), note
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.facets = []

    def facet(self, name, strategy, quick, thorough=None, shards=1):
        """Decorator registering a facet; ``strategy`` is a zero-argument callable."""

        def deco(fn):
            self.facets.append(Facet(name, strategy, fn, quick, thorough, shards))
            return fn

        return deco

    def add(self, name, strategy, check, quick, thorough=None, shards=1):
        self.facets.append(Facet(name, strategy, check, quick, thorough, shards))


def deep_equal(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and sorted(a, key=str) == sorted(b, key=str) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)):
            return False
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return a.shape == b.shape and all(deep_equal(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"))
    return bool(a == b) or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)


class Trace(object):
    """Per-case recorder and comparison helper."""

    def __init__(self):
        self.labels = []
        self.nontriv = True
        self.hang = False
        self.tol_used = 0.0

    def label(self, s):
        self.labels.append(str(s))

    def nontrivial(self, flag):
        self.nontriv = bool(flag)

    def trivial(self):
        self.nontriv = False

    def fail(self, msg):
        raise Violation(msg)

    def true(self, cond, msg):
        if not bool(cond):
            raise Violation(msg)

    def equal(self, a, b, what):
        if a != b:
            raise Violation("%s: %s != %s" % (what, _short(a), _short(b)))

    def finite(self, a, what):
        a = np.asarray(a, dtype=float)
        if not np.all(np.isfinite(a)):
            raise Violation("%s: non-finite value(s) %s" % (what, _short(a)))

    def shape(self, a, shape, what):
        if tuple(np.shape(a)) != tuple(shape):
            raise Violation("%s: shape %s, expected %s" % (what, np.shape(a), tuple(shape)))

    def same(self, a, b, what):
        """Bit-for-bit equality of arrays (nan == nan)."""
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f"):
            raise Violation("%s: %s != %s" % (what, _short(a), _short(b)))

    def unchanged(self, a, b, what):
        """Deep equality of nested dicts, lists and arrays."""
        if not deep_equal(a, b):
            raise Violation("%s: %s != %s" % (what, _short(a), _short(b)))

    def close(self, a, b, what, rtol=1e-8, atol=1e-10):
        """|a - b| <= atol + rtol * |b| elementwise, same shape, b finite."""
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation("%s: shape %s vs expected %s" % (what, a.shape, b.shape))
        tol = np.asarray(atol, dtype=float) + np.asarray(rtol, dtype=float) * np.abs(b)
        both_nan = np.isnan(a) & np.isnan(b)
        both_inf = np.isinf(a) & (a == b)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(a - b) <= tol) | both_nan | both_inf)
        if np.any(bad):
            idx = np.argwhere(bad)[0] if a.ndim else ()
            ai = a[tuple(idx)] if a.ndim else a[()]
            bi = b[tuple(idx)] if b.ndim else b[()]
            raise Violation(
                "%s: got %r, expected %r (%d of %d entries differ, first at %s)"
                % (what, float(ai), float(bi), int(np.sum(bad)), a.size, list(map(int, idx)))
            )


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def canon(case):
    return json.loads(json.dumps(case))


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# Exceptions that, raised from harness code only, mean the harness is broken rather than
# that the library returned something unusable.
_HARNESS_ONLY = (NameError, ImportError, HarnessError, SyntaxError, MemoryError, AttributeError, AssertionError)


def run_case(facet, case, trace=None):
    """Run one case. Returns (outcome, message, trace); outcome in pass / violation / harness."""
    t = trace or Trace()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        return _run_case(facet, case, t)
    except Hang:
        t.hang = True
        return "violation", "no result within %g s: the call does not terminate" % CASE_LIMIT, t
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _run_case(facet, case, t):
    try:
        np.random.seed(12345)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"), contextlib.redirect_stdout(_NULL), contextlib.redirect_stderr(_NULL):
                facet.check(case, t)
        return "pass", "", t
    except Violation as e:
        return "violation", str(e), t
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(sys.exc_info()[2])
        in_repo = any(fr.filename.startswith(REPO + "/lenstronomy") for fr in tb)
        text = "".join(traceback.format_exception(type(e), e, sys.exc_info()[2]))[-3000:]
        if in_repo:
            where = [fr for fr in tb if fr.filename.startswith(REPO + "/lenstronomy")][-1]
            return (
                "violation",
                "library raised %s: %s (at %s:%s)"
                % (type(e).__name__, str(e)[:300], where.filename[len(REPO) + 1:], where.lineno),
                t,
            )
        if isinstance(e, _HARNESS_ONLY):
            return "harness", text, t
        return "violation", "library output unusable: %s: %s" % (type(e).__name__, str(e)[:300]), t


class _Stop(BaseException):
    pass


def run_facet(facet, n_examples, seed, shrink_budget=25.0, max_wall=None):
    """Drive one facet (one shard). Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    hyp_quiet()
    stats = dict(
        evaluations=0, nontrivial=0, labels={}, samples=[], hashes=[], violation=None, harness=None, wall=0.0, truncated=False,
        error=None,
    )
    seen = set()
    state = dict(first_fail=None, best=None, best_msg=None, t_fail=None)
    t0 = time.time()
    history = []

    def body(case):
        case = canon(case)
        if state["t_fail"] is not None and time.time() - state["t_fail"] > shrink_budget:
            raise _Stop()
        if max_wall is not None and state["t_fail"] is None and time.time() - t0 > max_wall:
            stats["truncated"] = True
            raise _Stop()
        outcome, msg, t = run_case(facet, case)
        if state["t_fail"] is None:
            stats["evaluations"] += 1
            h = case_hash(case)
            if t.nontriv and h not in seen:
                seen.add(h)
                stats["nontrivial"] += 1
                if len(stats["samples"]) < 3 and (stats["nontrivial"] % 7 == 3 or stats["nontrivial"] == 1):
                    s = json.dumps(case)
                    stats["samples"].append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")
            for lab in set(t.labels):
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if outcome == "harness":
            stats["harness"] = msg
            raise _Stop()
        if outcome == "violation":
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
                state["first_fail"] = (case, msg)
                state["best"] = (case, msg)
                if t.hang:
                    state["hang"] = True
                    raise _Stop()
            elif len(json.dumps(case)) <= len(json.dumps(state["best"][0])):
                state["best"] = (case, msg)
            raise Violation(msg)

    strat = facet.strategy()
    test = given(strat)(body)
    test = settings(
        max_examples=n_examples,
        deadline=None,
        database=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # Flaky etc.
        if state["first_fail"] is None and stats["harness"] is None:
            stats["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if state["first_fail"] is not None:
        cand = [state["best"], state["first_fail"]]
        conf = None
        for case, msg in cand:
            if state.get("hang"):
                conf = (case, msg)
                break
            outcome, m2, _ = run_case(facet, case)
            if outcome == "violation":
                conf = (case, m2)
                break
        stats["violation"] = dict(
            facet=facet.name,
            case=(conf or cand[1])[0],
            message=(conf or cand[1])[1],
            first_case=state["first_fail"][0],
            reproducible_alone=conf is not None,
            seed=seed,
            n_examples=n_examples,
        )
    stats["hashes"] = sorted(seen)
    stats["wall"] = time.time() - t0
    return stats


_quiet_done = False


def hyp_quiet():
    """Generation must depend on the seed only: do not harvest constants from the code."""
    global _quiet_done
    if _quiet_done:
        return
    from hypothesis.internal.conjecture import providers
    from hypothesis.internal.constants_ast import Constants

    empty = Constants()
    if not hasattr(providers, "_get_local_constants"):
        raise HarnessError("vendored hypothesis changed")
    providers._get_local_constants = lambda: empty
    _quiet_done = True


def facet_seed(seed, pid, name, shard):
    h = hashlib.sha1(("%s|%s|%s|%s" % (seed, pid, name, shard)).encode()).digest()
    return int.from_bytes(h[:7], "big")
