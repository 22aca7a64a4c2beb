"""Strategies shared by the property modules."""

import math

from hypothesis import strategies as st

_N = 1 << 20


def snap(v, tiny=1e-6):
    """Values that are neither 0 nor of realistic size become 0."""
    return 0.0 if abs(v) < tiny else float(v)


def fl(lo, hi, special=(), tiny=1e-6):
    """Float in [lo, hi]: a uniform grid, Hypothesis floats and listed special values."""
    lo, hi = float(lo), float(hi)
    grid = st.integers(0, _N).map(lambda k: lo + (hi - lo) * k / _N)
    parts = [grid, grid, st.floats(lo, hi, allow_nan=False, allow_subnormal=False)]
    sp = [float(s) for s in special if lo <= s <= hi]
    if sp:
        parts.append(st.sampled_from(sp))
    out = st.one_of(*parts)
    if tiny:
        if lo <= 0 <= hi:
            out = out.map(lambda v: snap(v, tiny))
    return out


def uni(lo, hi):
    """Plain uniform grid value."""
    lo, hi = float(lo), float(hi)
    return st.integers(0, _N).map(lambda k: lo + (hi - lo) * k / _N)


def logf(lo, hi, special=()):
    """Log-uniform positive float."""
    a, b = math.log(lo), math.log(hi)
    grid = st.integers(0, _N).map(lambda k: min(max(math.exp(a + (b - a) * k / _N), lo), hi))
    sp = [float(s) for s in special if lo <= s <= hi]
    if sp:
        return st.one_of(grid, grid, grid, st.sampled_from(sp))
    return grid


def sgn_logf(lo, hi):
    return st.tuples(st.sampled_from([1.0, -1.0]), logf(lo, hi)).map(lambda p: p[0] * p[1])


def center(r=0.3):
    """A profile centre: exactly 0, small or moderate offsets."""
    return fl(-r, r, special=(0.0, 0.0, 0.1, -0.05))


def _sg(u, emin, emax):
    v = emin + abs(u) * (emax - emin)
    return snap(v if u >= 0 else -v)


def ellip(emax=0.4, emin=0.0):
    """(e1, e2) inside the disc of radius emax, with axis-aligned and round special cases."""

    def build(p):
        kind, a, b = p
        if kind == "round":
            return [0.0, 0.0]
        if kind == "e1":
            return [_sg(2 * b - 1, emin, emax), 0.0]
        if kind == "e2":
            return [0.0, _sg(2 * b - 1, emin, emax)]
        e = emin + a * (emax - emin)
        ang = 2 * math.pi * b
        return [snap(e * math.cos(ang)), snap(e * math.sin(ang))]

    return st.tuples(
        st.sampled_from(["gen", "gen", "gen", "gen", "round", "e1", "e2"]), uni(0, 1), uni(0, 1)
    ).map(build)


def angle():
    return fl(-math.pi, math.pi, special=(0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4))


def point(rmin, rmax, axis=True):
    """A point in polar coordinates, log radius, sometimes exactly on an axis."""

    def build(p):
        lr, ph, kind = p
        r = math.exp(math.log(rmin) + (math.log(rmax) - math.log(rmin)) * lr)
        if kind == "axis":
            k = int(ph * 4) % 4
            return [(r, 0.0), (0.0, r), (-r, 0.0), (0.0, -r)][k]
        if kind == "diag":
            k = int(ph * 4) % 4
            s = r / math.sqrt(2)
            return [(s, s), (-s, s), (-s, -s), (s, -s)][k]
        return (r * math.cos(2 * math.pi * ph), r * math.sin(2 * math.pi * ph))

    kinds = ["gen"] * 7 + (["axis", "diag"] if axis else [])
    return st.tuples(uni(0, 1), uni(0, 1), st.sampled_from(kinds)).map(build).map(list)


def points(rmin, rmax, nmin=1, nmax=6, axis=True):
    return st.lists(point(rmin, rmax, axis), min_size=nmin, max_size=nmax)
