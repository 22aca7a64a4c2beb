"""C22: cosmological distances and unit conversions."""

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, special

from harness import cosmos as C
from harness import gen as g
from harness.core import Property

PROP = Property(
    "C22",
    title="Distances and mass conversions follow the cosmology and invert exactly",
    statement=(
        "For every cosmology (flat or curved) and redshift pair, all distances, critical densities, double-source-plane ratios and interpolated distances equal those of the cosmology, whatever was asked before. "
        "Physical halo, stellar, velocity-dispersion and time-delay quantities convert to the lens-model parameters whose projected or enclosed mass is the physical one, and back to the same value. "
        "Cosmologies are recovered from the distances they produce."
    ),
    over=("inputs", "histories"),
    quant="cosmologies, redshift pairs, masses 1e6-1e15, concentrations 0.5-200, inner slopes, histories of redshifts on one converter, interpolation tables",
    why="tests use one default cosmology, one redshift pair and compare with values computed by the same formula",
    files=["lenstronomy/Cosmo/lens_cosmo.py", "lenstronomy/Cosmo/background.py", "lenstronomy/Cosmo/cosmo_interp.py", "lenstronomy/Cosmo/nfw_param.py", "lenstronomy/Cosmo/gnfw_param.py", "lenstronomy/Cosmo/cosmo_solver.py",
           "lenstronomy/Cosmo/lcdm.py", "lenstronomy/Cosmo/kde_likelihood.py", "lenstronomy/Cosmo/micro_lensing.py", "lenstronomy/Util/cosmo_util.py"],
    mechanism=["LensCosmo unit conversions", "NFWParam.c_rho0 interpolation", "CosmoInterp tables"],
    observe=["LensCosmo", "Background", "CosmoInterp", "NFWParam", "GNFWParam", "SolverFlatLCDM", "LCDM", "KDELikelihood"],
    rule="non-trivial: two distinct redshifts and a non-default cosmology",
    assumptions=["z_source > z_lens > 0"],
)


def base():
    return dict(cosmo=C.cosmo_strategy(), zl=g.uni(0.05, 1.5), dz=g.uni(0.1, 3.0))


def lens_cosmo(case):
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo

    cosmo = C.make(case["cosmo"])
    zl, zs = case["zl"], case["zl"] + case["dz"]
    return cosmo, zl, zs, LensCosmo(z_lens=zl, z_source=zs, cosmo=cosmo)


def dist_case():
    return st.fixed_dictionaries(dict(base(), dz2=g.uni(0.1, 3.0), fermat=g.uni(-3.0, 3.0), kext=g.uni(-0.3, 0.5), theta=g.logf(0.05, 30.0), kappa=g.uni(0.0, 3.0), sv=g.uni(50.0, 1000.0), gamma=g.uni(1.4, 2.6),
                                      ra=g.logf(0.01, 1.0), fac=g.logf(1.2, 100.0)))


@PROP.facet("distances", dist_case, quick=600, shards=2)
def distances(case, t):
    from lenstronomy.Cosmo.background import Background
    from lenstronomy.Cosmo.lcdm import LCDM
    from lenstronomy.Cosmo import cosmo_solver

    cosmo, zl, zs, lc = lens_cosmo(case)
    z2 = zl + case["dz2"]
    b = Background(cosmo=cosmo)
    dd, ds, dds = C.D(cosmo, zl), C.D(cosmo, zs), C.D(cosmo, zl, zs)
    t.close([lc.dd, lc.ds, lc.dds, lc.ddt], [dd, ds, dds, (1 + zl) * dd * ds / dds], "lens distances", 1e-9)
    t.close([b.d_xy(0, zl), b.d_xy(zl, zs), b.ddt(zl, zs), b.T_xy(0, zs), b.T_xy(zl, zs)], [dd, dds, C.ddt(cosmo, zl, zs), ds * (1 + zs), dds * (1 + zs)], "background distances", 1e-9)
    t.close(b.a_z(zl), 1 / (1 + zl), "scale factor", 1e-9)
    sc = C.C_LIGHT**2 / (4 * np.pi * C.G_NEWTON) * ds / (dd * dds) * C.MPC / C.M_SUN
    t.close([lc.sigma_crit, lc.sigma_crit_angle, lc.sigma_crit], [sc, sc * (dd * C.ARCSEC) ** 2, sc], "critical surface density", 2e-3)
    t.close(lc.sigma_crit_angle / lc.sigma_crit, (dd * C.ARCSEC) ** 2, "critical surface density per angle", 1e-6)
    h = cosmo.H0.value / 100
    t.close(lc.h, h, "h", 1e-9)
    t.close(b.rho_crit_z(zl), cosmo.critical_density(zl).to("Msun/Mpc3").value, "critical density at redshift", 2e-3)
    t.close(b.rho_crit, cosmo.critical_density(0).to("Msun/Mpc3").value, "critical density", 2e-3)
    # double source plane
    be = C.beta(cosmo, zl, zs, z2)
    t.close(b.beta_double_source_plane(zl, zs, z2), be, "beta of the double source plane", 1e-8)
    t.close(lc.beta_double_source_plane(z_lens=zl, z_source_1=zs, z_source_2=z2), be, "beta of LensCosmo", 1e-8)
    t.close(b.ddt_scaling(zl, zs, z2), C.ddt(cosmo, zl, z2) / C.ddt(cosmo, zl, zs), "time-delay distance scaling", 1e-8)
    t.equal(b.beta_double_source_plane(zl, zs, zs), 1, "beta of equal sources")
    t.equal(b.ddt_scaling(zl, zs, zs), 1, "ddt scaling of equal sources")
    # Einstein radius of a power law seen by another source: mean convergence one inside it
    kx, ga = case["kext"] * 0.5, case["gamma"]
    th = lc.theta_E_power_law_scaling(theta_E_convention=case["theta"], kappa_ext_convention=kx, gamma_pl=ga, z_lens=zl, z_source_convention=z2, z_source=zs)
    if be * kx < 0.9:
        t.close(be * (case["theta"] / th) ** (ga - 1) + be * kx, 1.0, "mean convergence within the scaled Einstein radius", 1e-7)
    th = lc.theta_E_power_law_scaling(theta_E_convention=case["theta"], kappa_ext_convention=kx, gamma_pl=ga, z_lens=zl, z_source_convention=zs, z_source=zs)
    t.close((case["theta"] / th) ** (ga - 1) + kx, 1.0, "mean convergence at the convention redshift", 1e-7)
    # angles, masses
    a = case["theta"]
    t.close([lc.arcsec2phys_lens(a), lc.arcsec2phys_source(a)], [a * C.ARCSEC * dd, a * C.ARCSEC * ds], "physical sizes", 1e-6)
    t.close(lc.phys2arcsec_lens(lc.arcsec2phys_lens(a)), a, "arcsec round trip", 1e-9)
    t.close(lc.mass_in_theta_E(a), np.pi * a**2 * lc.sigma_crit_angle, "mass within the Einstein radius", 1e-9)
    t.close(lc.kappa2proj_mass(case["kappa"]), case["kappa"] * lc.sigma_crit, "projected mass density", 1e-9)
    # time delays
    f = case["fermat"]
    dt = lc.time_delay_units(f, kappa_ext=case["kext"])
    t.close(dt, f * C.days_per_arcsec2(cosmo, zl, zs) * (1 - case["kext"]), "time delay", 1e-5)
    t.close(lc.time_delay2fermat_pot(dt), f * (1 - case["kext"]), "Fermat potential round trip", 1e-8)
    # SIS
    the = lc.sis_sigma_v2theta_E(case["sv"])
    t.close(the, 4 * np.pi * (case["sv"] * 1e3 / C.C_LIGHT) ** 2 * dds / ds / C.ARCSEC, "SIS Einstein radius", 1e-6)
    t.close(lc.sis_theta_E2sigma_v(the), case["sv"], "SIS round trip", 1e-9)
    ra, rs = case["ra"], case["ra"] * case["fac"]
    s0 = lc.vel_disp_dPIED_sigma0(case["sv"], Ra=ra, Rs=rs)
    t.close(s0 * ra * rs / (rs - ra), the / 2, "dPIED amplitude matches the SIS", 1e-6)
    # LCDM helpers
    c = case["cosmo"]
    if c["m"] in ("flat", "lcdm"):
        flat = c["m"] == "flat"
        lcdm = LCDM(z_lens=zl, z_source=zs, flat=flat)
        a = (c["H0"], c["Om"]) if flat else (c["H0"], c["Om"], c["Ode"])
        t.close([lcdm.D_d(*a), lcdm.D_s(*a), lcdm.D_ds(*a), lcdm.D_dt(*a)], [dd, ds, dds, C.ddt(cosmo, zl, zs)], "LCDM distances", 1e-8)
    t.close(cosmo_solver.ddt2h0(C.ddt(cosmo, zl, zs) * 1.1, zl, zs, cosmo), c["H0"] / 1.1, "Hubble constant of a time-delay distance", 1e-8)
    t.label(c["m"])


def halo_case():
    return st.fixed_dictionaries(dict(base(), M=g.logf(1e6, 1e15), c=g.logf(0.5, 200.0), gamma=g.uni(0.3, 2.5), zz=st.lists(g.uni(0.0, 3.0), min_size=0, max_size=3), rs=g.logf(1e-4, 0.1), n=g.uni(0.7, 6.0), R=g.logf(0.1, 5.0), k0=g.logf(0.01, 2.0), tc=g.logf(0.3, 10.0)))


@PROP.facet("masses", halo_case, quick=500, shards=3)
def masses(case, t):
    from lenstronomy.Cosmo.gnfw_param import GNFWParam
    from lenstronomy.Cosmo.nfw_param import NFWParam
    from lenstronomy.LensModel.Profiles.gnfw import GNFW
    from lenstronomy.LensModel.Profiles.hernquist import Hernquist
    from lenstronomy.LensModel.Profiles.nfw import NFW
    from lenstronomy.LensModel.Profiles.sersic import Sersic

    cosmo, zl, zs, lc = lens_cosmo(case)
    M, c, ga = case["M"], case["c"], case["gamma"]
    h = cosmo.H0.value / 100
    sca = lc.sigma_crit_angle
    rhoc = lambda z: cosmo.critical_density(z).to("Msun/Mpc3").value
    # converter with a history of redshifts
    nfw, gnfw = NFWParam(cosmo), GNFWParam(cosmo)
    for z in case["zz"] + [zl]:
        rho = nfw.rho0_c(c, z)
        rs = 0.013
        t.close(float(nfw.c_rho0(rho, z)), c, "concentration of the NFW density (z=%.3f)" % z, 1e-4)
        t.close(nfw.M200(rs, rho, c), nfw.M_r200(c * rs, z), "NFW mass within r200", 1e-6)
        t.close(nfw.r200_M(nfw.M_r200(0.2, z), z), 0.2, "r200 round trip", 1e-8)
        t.close(nfw.M_r200(0.2, z), 200 * rhoc(z) / h**2 * 4 * np.pi / 3 * 0.2**3, "M200 definition", 3e-3)
        rg = gnfw.rho0_c(c, z, ga)
        t.close(float(gnfw.c_rho0(rg, z, ga)), c, "concentration of the gNFW density", 1e-4)
        mint = 4 * np.pi * rg * rs**3 * integrate.quad(lambda u: u ** (1 / (3 - ga) - 1) / (3 - ga) * u ** ((2 - ga) / (3 - ga)) * (1 + u ** (1 / (3 - ga))) ** (ga - 3), 0, c ** (3 - ga))[0]
        t.close(gnfw.M_r200(c * rs, z), mint, "gNFW mass within r200", 1e-4)
        t.close(gnfw.M200(rs, rg, c, ga), mint, "gNFW M200 formula", 1e-4)
        r200, rho0, cc, rrs = nfw.nfw_Mz(M, z)
        t.close(nfw.M200(rrs, rho0, cc), M, "mass of the mean halo", 1e-6)
        t.close(r200, cc * rrs, "radius of the mean halo", 1e-8)
        r200, rho0, cc, rrs = gnfw.gnfw_Mz(M, z, ga)
        t.close(gnfw.M200(rrs, rho0, cc, ga), M, "mass of the mean gNFW halo", 1e-6)
    # NFW
    ang, alpha = lc.nfw_physical2angle(M, c)
    r200 = lc.nfw_M_theta_r200(M)
    t.close(r200, ang * c, "angular r200", 1e-8)
    t.close(NFW().mass_3d_lens(r200, ang, alpha) * sca, M, "mass of the NFW lens within r200", 1e-6)
    rho0, Rs, cc, rr, MM = lc.nfw_angle2physical(ang, alpha)
    t.close([cc, rr, MM, Rs], [c, lc.arcsec2phys_lens(r200), M, lc.arcsec2phys_lens(ang)], "NFW round trip", 1e-3)
    t.close([rho0, Rs, rr], list(lc.nfwParam_physical(M, c)), "NFW physical parameters", 1e-3)
    t.close(rr, (3 * M / (4 * np.pi * 200 * rhoc(zl))) ** (1 / 3), "r200 in Mpc", 2e-3)
    # gNFW
    ang, alpha = lc.gnfw_physical2angle(M, c, ga)
    t.close(lc.gnfw_M_theta_r200(M), ang * c, "angular r200 (gNFW)", 1e-8)
    gn = GNFW()
    ks = alpha / gn.get_alpha_Rs_for_kappa_s_1(ang, ga)
    t.close(4 * np.pi * gn.kappa_s_to_rho0(ks, ang) * ang**3 * c ** (3 - ga) / (3 - ga) * special.hyp2f1(3 - ga, 3 - ga, 4 - ga, -c) * sca, M, "mass of the gNFW lens within r200", 1e-3)
    rho0, Rs, cc, rr, MM = lc.gnfw_angle2physical(ang, alpha, ga)
    t.close([cc, MM, Rs], [c, M, lc.arcsec2phys_lens(ang)], "gNFW round trip", 2e-3)
    # Hernquist
    rs = case["rs"]
    s0, rsa = lc.hernquist_phys2angular(M, rs)
    t.close(list(lc.hernquist_angular2phys(s0, rsa)), [M, rs], "Hernquist round trip", 1e-8)
    t.close(Hernquist().mass_3d_lens(1e7 * rsa, sigma0=s0, Rs=rsa) * sca, M, "mass of the Hernquist lens", 1e-5)
    # Sersic
    n, R = case["n"], case["R"]
    k = lc.sersic_m_star2k_eff(M, R, n)
    t.close(lc.sersic_k_eff2m_star(k, R, n), M, "stellar mass round trip", 1e-8)
    x = np.logspace(-7, np.log10(60 + 30 * n**2), 4000)
    kap = Sersic().hessian(x * R, 0 * x, n_sersic=n, R_sersic=R, k_eff=k)
    kap = (kap[0] + kap[3]) / 2
    lx = np.log(x * R)
    y = 2 * np.pi * (x * R) ** 2 * kap
    t.close(integrate.simpson(y, x=lx) * sca, M, "projected mass of the Sersic lens", 5e-3)
    # ULDM
    m, mm = lc.uldm_angular2phys(case["k0"], case["tc"])
    t.close(list(lc.uldm_mphys2angular(m, mm)), [case["k0"], case["tc"]], "ULDM round trip", 1e-7)
    t.label("history %d" % len(case["zz"]))


def interp_case():
    return st.fixed_dictionaries(dict(base(), num=st.integers(30, 120), zmax=g.uni(1.0, 4.0), us=st.lists(g.uni(0.0, 1.0), min_size=2, max_size=6), how=st.sampled_from(["cosmo", "background", "table", "table0"])))


@PROP.facet("interpolated", interp_case, quick=160, shards=2)
def interpolated(case, t):
    from lenstronomy.Cosmo.background import Background
    from lenstronomy.Cosmo.cosmo_interp import CosmoInterp

    cosmo = C.make(case["cosmo"])
    zm, n = case["zmax"], case["num"]
    how = case["how"]
    if how == "background":
        ci = Background(cosmo, interp=True, z_stop=zm, num_interp=n).cosmo
    elif how == "cosmo":
        ci = CosmoInterp(cosmo, z_stop=zm, num_interp=n)
    else:
        zz = np.linspace(0, zm, n + 1)
        if how == "table":
            zz = zz[1:]
        k = -cosmo.Ok0 * (cosmo.H0.value / 299792.458) ** 2
        kw = dict(Ok0=cosmo.Ok0, K=k) if abs(cosmo.Ok0) > 1e-6 else {}
        ad = np.array([0.0 if z == 0 else C.D(cosmo, z) for z in zz])
        ad0 = ad.copy()
        ci = CosmoInterp(ang_dist_list=ad, z_list=zz, **kw)
        t.same(ad, ad0, "the caller's table")
    tol = 0.3 * 3e5 / case["cosmo"]["H0"] * (zm / n) ** 2  # linear interpolation of the comoving distance
    us = sorted(case["us"])
    zs = [u * zm for u in us]
    for i, z in enumerate(zs):
        ref = C.D(cosmo, z) if z > 0 else 0.0
        v = ci.angular_diameter_distance(z)
        t.true(str(v.unit) == "Mpc", "unit %s" % v.unit)
        t.close(v.value, ref, "interpolated distance", 1e-4, tol)
        t.close(ci.comoving_transverse_distance(z).value, ref * (1 + z), "interpolated transverse distance", 1e-4, 3 * tol)
        for z2 in zs[i:]:
            ref = C.D(cosmo, z, z2) if z2 > z else 0.0
            t.close(ci.angular_diameter_distance_z1z2(z, z2).value, ref, "interpolated distance between redshifts", 1e-4, 2 * tol)
            t.close(ci.angular_diameter_distance(z, z2).value, ref, "interpolated distance with a second redshift", 1e-4, 2 * tol)
    arr = ci.angular_diameter_distance(zs).value
    t.close(arr, [ci.angular_diameter_distance(z).value for z in zs], "array of redshifts", 1e-9)
    z1 = np.array(zs[:-1])
    if np.any(z1 > 0):
        arr = ci.angular_diameter_distance_z1z2(z1, zs[-1]).value
        t.close(arr, [ci.angular_diameter_distance_z1z2(z, zs[-1]).value for z in z1], "array of first redshifts", 1e-9)
    # on the nodes the table is exact
    zn = zm * (n // 2) / n
    t.close(ci.angular_diameter_distance(zn).value, C.D(cosmo, zn), "distance at a node", 1e-6)
    t.label(how)
    t.label("curved" if abs(cosmo.Ok0) > 1e-6 else "flat")


def inv_case():
    return st.fixed_dictionaries(dict(H0=g.uni(50.0, 90.0), Om=g.uni(0.1, 0.6), zl=g.uni(0.1, 1.0), dz=g.uni(0.4, 2.5), d0=g.uni(-8.0, 8.0), dm=g.uni(-0.05, 0.05), grid=st.integers(0, 7),
                                     model=st.sampled_from(["FlatLambdaCDM", "LambdaCDM", "FlatwCDM", "wCDM", "Flatw0waCDM", "w0waCDM"]), Ode=g.uni(0.4, 0.9), w0=g.uni(-1.4, -0.6), wa=g.uni(-0.5, 0.5), drop=st.integers(0, 31),
                                     pts=st.lists(st.tuples(g.uni(800, 1500), g.uni(1500, 4000)).map(list), min_size=6, max_size=20, unique_by=(lambda p: round(p[0]), lambda p: round(p[1]))), at=st.tuples(g.uni(800, 1500), g.uni(1500, 4000)).map(list), bw=g.uni(30, 300)))


@PROP.facet("inversion", inv_case, quick=120, shards=2)
def inversion(case, t):
    from lenstronomy.Cosmo import cosmo_solver as S
    from lenstronomy.Cosmo import micro_lensing
    from lenstronomy.Cosmo.kde_likelihood import KDELikelihood
    from lenstronomy.Util.cosmo_util import get_astropy_cosmology
    import astropy.cosmology as ac

    c = case
    zl, zs = c["zl"], c["zl"] + c["dz"]
    cosmo = ac.FlatLambdaCDM(H0=c["H0"], Om0=c["Om"])
    dd, rat = S.cosmo2angular_diameter_distances(c["H0"], c["Om"], zl, zs)
    t.close([dd, rat], [C.D(cosmo, zl), C.D(cosmo, zs) / C.D(cosmo, zl, zs)], "distances of a cosmology", 1e-7)
    sol = S.SolverFlatLCDM(z_d=zl, z_s=zs)
    x = sol.solve(np.array([c["H0"] + c["d0"], c["Om"] + c["dm"]]), dd, rat)
    if x[0] != -1:
        a, b = S.cosmo2angular_diameter_distances(x[0], x[1], zl, zs)
        t.true(abs(a - dd) < 0.11 and abs(b - rat) < 0.11, "solution %s does not reproduce the distances (%s %s; %s %s)" % (x, a, b, dd, rat))
        t.label("solved")
    t.close(sol.solve(np.array([c["H0"], c["Om"]]), dd, rat), [c["H0"], c["Om"]], "cosmology that was the starting point already", 1e-4)
    if c["grid"] == 7:
        inv = S.InvertCosmo(z_d=zl, z_s=zs, H0_range=np.linspace(45, 95, 7), omega_m_range=np.linspace(0.05, 0.7, 7))
        h, om = inv.get_cosmo(dd, rat)
        if float(h) != -1:
            a, b = S.cosmo2angular_diameter_distances(float(h), float(om), zl, zs)
            t.close([a, b], [dd, rat], "inverted cosmology reproduces the distances", 0.0101)
            t.label("inverted")
    # astropy selection
    names = ["H0", "Om0", "Ode0", "w0", "wa"]
    vals = dict(H0=c["H0"], Om0=c["Om"], Ode0=c["Ode"], w0=c["w0"], wa=c["wa"])
    defaults = dict(H0=70, Om0=0.3, Ode0=0.7, w0=-1, wa=0)
    kw = {n: vals[n] for i, n in enumerate(names) if not c["drop"] >> i & 1}
    kw0 = dict(kw)
    out = get_astropy_cosmology(c["model"], kw)
    t.equal(kw, kw0, "the caller's parameters")
    use = {"FlatLambdaCDM": ["H0", "Om0"], "LambdaCDM": ["H0", "Om0", "Ode0"], "FlatwCDM": ["H0", "Om0", "w0"], "wCDM": ["H0", "Om0", "Ode0", "w0"], "Flatw0waCDM": ["H0", "Om0", "w0", "wa"], "w0waCDM": names}[c["model"]]
    ref = getattr(ac, c["model"])(**{n: kw.get(n, defaults[n]) for n in use})
    t.close(C.D(out, zl, zs), C.D(ref, zl, zs), "cosmology built from parameters", 1e-8)
    # kernel density estimate of distances
    p = np.array(c["pts"]).T
    ref = kde(p, c["at"], np.cov(p) * p.shape[1] ** (-1 / 3))
    if ref > -600:
        t.close(float(np.squeeze(KDELikelihood(p[0], p[1]).log_likelihood(*c["at"]))), ref, "kernel density", 1e-6, 1e-6)
    t.close(float(np.squeeze(KDELikelihood(p[0], p[1], kde_type="gaussian", bandwidth=c["bw"]).log_likelihood(*c["at"]))), kde(p, c["at"], np.eye(2) * c["bw"] ** 2), "kernel density with a bandwidth", 1e-6, 1e-6)
    # microlensing
    dl, dsr = 4000 * c["Om"], 8000.0
    th = micro_lensing.einstein_radius(0.7, dl, dsr)
    t.close(th, np.sqrt(0.7 * 8.144 * (1 / dl - 1 / dsr) * 1e3) * 1e-3, "microlens Einstein radius", 5e-3)
    t.close(micro_lensing.source_size(2.0, dsr), 2 * 2 * 6.957e8 / (dsr * 3.0857e16) / C.ARCSEC, "source size", 2e-3)


def kde(p, at, cov):
    d = (np.array(at)[:, None] - p).T
    q = np.einsum("ni,ij,nj->n", d, np.linalg.inv(cov), d)
    return special.logsumexp(-0.5 * q) - np.log(p.shape[1]) - 0.5 * np.log(np.linalg.det(2 * np.pi * cov))
