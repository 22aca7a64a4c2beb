"""Cosmology and redshift strategies (JSON friendly) and independent distance helpers."""

import functools

import numpy as np
from hypothesis import strategies as st

from harness.gen import fl

C_LIGHT = 299792458.0
G_NEWTON = 6.67384e-11
MPC = 3.085677581491367e22
M_SUN = 1.98892e30
ARCSEC = np.pi / 180 / 3600
DAY = 86400.0


def cosmo_strategy():
    return st.one_of(
        st.fixed_dictionaries({"m": st.just("flat"), "H0": fl(55, 85), "Om": fl(0.15, 0.5)}),
        st.fixed_dictionaries({"m": st.just("lcdm"), "H0": fl(55, 85), "Om": fl(0.15, 0.5), "Ode": fl(0.4, 0.9)}),
        st.fixed_dictionaries({"m": st.just("fwcdm"), "H0": fl(55, 85), "Om": fl(0.15, 0.5), "w0": fl(-1.4, -0.6)}),
    )


@functools.lru_cache(maxsize=256)
def _make(m, H0, Om, Ode, w0):
    from astropy.cosmology import FlatLambdaCDM, FlatwCDM, LambdaCDM

    if m == "flat":
        return FlatLambdaCDM(H0=H0, Om0=Om, Ob0=0.04)
    if m == "lcdm":
        return LambdaCDM(H0=H0, Om0=Om, Ode0=Ode, Ob0=0.04)
    return FlatwCDM(H0=H0, Om0=Om, w0=w0, Ob0=0.04)


def make(c):
    return _make(c["m"], c["H0"], c["Om"], c.get("Ode", 0), c.get("w0", -1))


def D(cosmo, z1, z2=None):
    if z2 is None:
        z1, z2 = 0.0, z1
    return float(cosmo.angular_diameter_distance_z1z2(z1, z2).value)


def T(cosmo, z1, z2):
    """Transverse comoving distance."""
    return D(cosmo, z1, z2) * (1 + z2)


def ddt(cosmo, zl, zs):
    return (1 + zl) * D(cosmo, zl) * D(cosmo, zs) / D(cosmo, zl, zs)


def days_per_arcsec2(cosmo, zl, zs):
    return ddt(cosmo, zl, zs) * MPC / C_LIGHT * ARCSEC**2 / DAY


def beta(cosmo, zl, z1, z2):
    return D(cosmo, zl, z1) / D(cosmo, z1) * D(cosmo, z2) / D(cosmo, zl, z2)
