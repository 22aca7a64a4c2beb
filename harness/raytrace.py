"""Independent multi-plane ray tracing (flat background) used as an oracle.

Works from unsorted plane lists: x_j = T_j theta - sum_{i<j} T_ij alpha_hat_i with the physical
deflections alpha_hat_i = D_s/D_is alpha_i(x_i / T_i); the distances come from astropy.
"""

import numpy as np

from harness import cosmos as cz


def trace(planes, cosmo, zs, zconv, tx, ty, defl, pot=None):
    """planes: list of (z, payload).  defl(payload, x, y) -> reduced deflection w.r.t. zconv.

    Returns beta_x, beta_y, alpha_hat list and, when pot is given, geometric and potential delays in days."""
    tx, ty = np.asarray(tx, float), np.asarray(ty, float)
    use = sorted([(z, i) for i, (z, _) in enumerate(planes) if z <= zs])
    zz = sorted(set(z for z, _ in use))
    hat, pos = [], {}
    grav = np.zeros_like(tx)

    def position(z):
        T = cz.T(cosmo, 0, z)
        x, y = T * tx, T * ty
        for zi, ax, ay in hat:
            if zi < z:
                Tij = cz.T(cosmo, zi, z)
                x, y = x - Tij * ax, y - Tij * ay
        return x / T, y / T

    for z in zz:
        x, y = position(z)
        pos[z] = (x, y)
        fac = cz.D(cosmo, zconv) / cz.D(cosmo, z, zconv)
        for z_, i in use:
            if z_ == z:
                ax, ay = defl(planes[i][1], x, y)
                hat.append((z, fac * ax, fac * ay))
                if pot is not None:
                    grav = grav - cz.days_per_arcsec2(cosmo, z, zconv) * pot(planes[i][1], x, y)
    beta = position(zs)
    geo = np.zeros_like(tx)
    if pot is not None:
        seq = zz + ([zs] if not zz or zz[-1] < zs else [])
        pos[zs] = pos.get(zs, beta)
        for a, b in zip(seq[:-1], seq[1:]):
            u = cz.T(cosmo, 0, a) * cz.T(cosmo, 0, b) / cz.T(cosmo, a, b) * cz.MPC / cz.C_LIGHT / cz.DAY * cz.ARCSEC**2
            geo = geo + u * ((pos[a][0] - pos[b][0]) ** 2 + (pos[a][1] - pos[b][1]) ** 2) / 2
    return beta[0], beta[1], geo, grav, pos
