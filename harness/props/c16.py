"""C16: image simulation."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import cosmos as cz
from harness import gen as g
from harness.core import Property
from harness.props.c14 import make_kernel, kpar
from harness.props.c15 import bin_, conv, place, off_tie, mask_of
from harness.raytrace import trace
from harness.props.c07 import defl, one

PROP = Property(
    "C16",
    title="A simulated image is the lensed, convolved sum of its components",
    statement=(
        "ImageModel.image equals the sum of lensed source, lens light and point sources, each evaluated at the sky coordinates of the (possibly shifted) pixels, "
        "attenuated, scaled, averaged and convolved as configured; component selections add up to the whole, and every source component is mapped with the deflection of its own redshift or scaling. "
        "Residuals, variance and likelihood follow from that image, data and mask, and after any history of calls and updates of PSF, data or offsets the results are those of a newly built model."
    ),
    over=("inputs", "configurations", "histories"),
    quant="lens, light and point-source combinations, frames, PSFs, supersampling, masks, source redshifts, offsets, call and update histories",
    why="tests check single configurations against stored numbers; histories of updates on one model and off-standard redshift orders or frame shapes are not covered",
    files=["lenstronomy/ImSim/image_model.py", "lenstronomy/ImSim/image2source_mapping.py", "lenstronomy/ImSim/multiplane_organizer.py", "lenstronomy/ImSim/differential_extinction.py", "lenstronomy/Util/primary_beam_util.py"],
    mechanism=["ImageModel.image and its component functions", "ImageModel.update_psf / update_data / update_pixel_grid_coordinates", "Image2SourceMapping.image_flux_joint"],
    observe=["ImageModel.image", "ImageModel.source_surface_brightness", "ImageModel.lens_surface_brightness", "ImageModel.point_source", "ImageModel.variance_map", "ImageModel.likelihood_data_given_model", "Image2SourceMapping"],
    rule="non-trivial: at least two components or more than one call in the history",
    assumptions=["offsets are either passed in every call or in none", "lens and light profiles are judged by C01-C12"],
)


# ---------------------------------------------------------------- source planes
def plane_case():
    light = st.fixed_dictionaries(dict(amp=g.fl(0.5, 3), sigma=g.fl(0.2, 1.0), center_x=g.center(0.3), center_y=g.center(0.3)))
    return st.fixed_dictionaries(dict(
        lenses=st.lists(st.tuples(st.one_of(g.uni(0.15, 1.1), st.sampled_from([0.3, 0.5, 0.8])), one()).map(list), min_size=1, max_size=3),
        lights=st.lists(light, min_size=1, max_size=4), z=st.lists(st.one_of(g.uni(0.4, 1.95), st.sampled_from([0.6, 1.2, 2.0, 2.0])), min_size=4, max_size=4),
        scale=st.lists(g.fl(0.0, 1.5, special=(1.0, 0.0)), min_size=4, max_size=4), mode=st.sampled_from(["multi", "multi", "scaled", "single", "beta"]), k=st.integers(0, 4),
        cosmo=st.fixed_dictionaries({"m": st.just("flat"), "H0": g.fl(55, 85), "Om": g.fl(0.15, 0.5)}), c2=st.fixed_dictionaries({"H0": g.fl(55, 85), "Om0": g.fl(0.15, 0.5)}),
        beta=st.lists(g.fl(0.7, 1.3, special=(1.0,)), min_size=20, max_size=20), b1=st.booleans(), cs=st.booleans(), pts=g.points(0.4, 2.5, 1, 4)))


def gaussians(kw, x, y):
    return kw["amp"] / (2 * np.pi * kw["sigma"] ** 2) * np.exp(-((x - kw["center_x"]) ** 2 + (y - kw["center_y"]) ** 2) / (2 * kw["sigma"] ** 2))


@PROP.facet("source-planes", plane_case, quick=900, shards=2)
def source_planes(case, t):
    from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LightModel.light_model import LightModel
    from harness import lensprofiles as lp

    mode = case["mode"]
    t.label(mode)
    n = len(case["lights"])
    names = [p[1][0] for p in case["lenses"]]
    kws = [lp.call_kw(p[1][1]) for p in case["lenses"]]
    x = np.array([p[0] for p in case["pts"]])
    y = np.array([p[1] for p in case["pts"]])
    cosmo = cz.make(case["cosmo"])
    zs = 2.0
    src = []
    special, other = {}, {}
    zl = [float(p[0]) for p in case["lenses"]]
    zsrc = [float(z) for z in case["z"][:n]]
    planes = [[z, p[1]] for z, p in zip(zl, case["lenses"])]
    if mode == "single":
        lens = LensModel(names)
        light = LightModel(["GAUSSIAN"] * n)
        src = [lens.ray_shooting(x, y, kws)] * n
    elif mode == "scaled":
        lens = LensModel(names)
        light = LightModel(["GAUSSIAN"] * n, deflection_scaling_list=case["scale"][:n])
        a = lens.alpha(x, y, kws)
        src = [(x - s * a[0], y - s * a[1]) for s in case["scale"][:n]]
    else:
        # a source exactly at the redshift of a deflector has no defined order
        if any(abs(a - b) < 1e-3 for a in zl for b in zsrc):
            t.trivial()
            return
        kw = dict(multi_plane=True, lens_redshift_list=zl, z_source=zs, cosmo=cosmo)
        if mode == "beta":
            zsrc[0] = zs
            kw.update(z_source_convention=zs, z_lens=min(zl), distance_ratio_sampling=True)
            if len(set(zl)) < 2:
                t.trivial()
                return
        elif case["cs"]:
            kw.update(cosmology_sampling=True, cosmology_model="FlatLambdaCDM")
            special = dict(case["c2"])
            cosmo = cz.make(dict(m="flat", H0=special["H0"], Om=special["Om0"]))
            t.label("cosmology sampling")
        lens = LensModel(names, **kw)
        light = LightModel(["GAUSSIAN"] * n, source_redshift_list=zsrc)
        if mode == "beta":
            zall = sorted(set(zl + zsrc))
            m = len(zall) - 1
            it = iter(case["beta"] * 3)
            for j in range(1, m + 1):
                for i in range(1, j):
                    special["factor_beta_%d_%d" % (i, j)] = 1.0
                    other["factor_beta_%d_%d" % (i, j)] = next(it)
        for z in zsrc:
            src.append(trace(planes, cosmo, z, zs, x, y, defl)[:2])
    mp = Image2SourceMapping(lens, light)
    # close to the centre of a deflector a tiny change of a ray matters
    tol = 1e-5 * (1 + sum(np.max(np.abs(s)) for s in src))
    if not np.all(np.isfinite([s for q in src for s in q])):
        t.trivial()
        return
    fl_ = [gaussians(kw, *s) for kw, s in zip(case["lights"], src)]
    x0, y0 = x.copy(), y.copy()
    sp = special if special else None
    grad = sum(kw["amp"] / kw["sigma"] ** 3 for kw in case["lights"]) * tol + 1e-9
    for rep in range(2):
        if other and case["b1"]:
            # other distance ratios in between leave no trace
            mp.image_flux_joint(x, y, kws, case["lights"], kwargs_special=other)
        for i in range(n):
            bx, by = mp.image2source(x, y, kws, index_source=i, kwargs_special=sp)
            t.close(bx, src[i][0], "image2source x of source %d" % i, rtol=1e-5, atol=tol)
            t.close(by, src[i][1], "image2source y of source %d" % i, rtol=1e-5, atol=tol)
        t.close(mp.image_flux_joint(x, y, kws, case["lights"], kwargs_special=sp), sum(fl_), "joint flux", rtol=1e-5, atol=grad)
        k = case["k"] % n
        t.close(mp.image_flux_joint(x, y, kws, case["lights"], kwargs_special=sp, k=k), fl_[k], "flux of component %d" % k, rtol=1e-5, atol=grad)
        resp, m = mp.image_flux_split(x, y, kws, case["lights"], kwargs_special=sp)
        t.equal(m, n, "number of linear components")
        for i in range(n):
            t.close(np.asarray(resp[i]) * case["lights"][i]["amp"], fl_[i], "response of component %d" % i, rtol=1e-5, atol=grad)
    t.same(x, x0, "coordinates not modified")
    t.nontrivial(n > 1)


# ---------------------------------------------------------------- images
def special_s():
    off = st.fixed_dictionaries(dict(ra_shift=g.fl(-0.2, 0.2), dec_shift=g.fl(-0.2, 0.2), phi_rot=g.fl(-0.3, 0.3)))
    return st.fixed_dictionaries(dict(off=st.tuples(off, off).map(list), dx=st.lists(g.fl(-0.05, 0.05), min_size=1, max_size=2), tau0=g.fl(0.1, 1)))


def light_s():
    c = dict(center_x=g.center(0.3), center_y=g.center(0.3))
    sers = st.fixed_dictionaries(dict(amp=g.fl(0.5, 10), R_sersic=g.fl(0.2, 1), n_sersic=g.fl(0.7, 3), e1=g.fl(-0.2, 0.2), e2=g.fl(-0.2, 0.2), **c)).map(lambda k: ["SERSIC_ELLIPSE", k])
    gau = st.fixed_dictionaries(dict(amp=g.fl(0.5, 10), sigma=g.fl(0.1, 0.8), **c)).map(lambda k: ["GAUSSIAN", k])
    she = st.fixed_dictionaries(dict(amp=st.lists(g.fl(-2, 2), min_size=3, max_size=3), n_max=st.just(1), beta=g.fl(0.1, 0.5), **c)).map(lambda k: ["SHAPELETS", k])
    uni = st.fixed_dictionaries(dict(amp=g.fl(-1, 2))).map(lambda k: ["UNIFORM", k])
    return st.one_of(sers, gau, she, uni)


def img_case():
    lens = st.fixed_dictionaries(dict(theta_E=g.fl(0.3, 1.2), e1=g.fl(-0.2, 0.2), e2=g.fl(-0.2, 0.2), center_x=g.center(0.1), center_y=g.center(0.1)))
    ps = st.lists(st.tuples(g.fl(-1.4, 1.4), g.fl(-1.4, 1.4), g.fl(0.5, 50)).map(list), min_size=1, max_size=4)
    dat = st.fixed_dictionaries(dict(pix=g.fl(0.15, 0.4), rot=st.one_of(st.just(0.0), g.fl(-1, 1)), fs=st.sampled_from([1.0, 1.0, 3.0, 0.2]), rms=g.fl(0.05, 1), exp=g.fl(10, 1000), seed=st.integers(0, 99), pb=st.booleans()))
    psf = st.fixed_dictionaries(dict(k=kpar(), n=st.integers(1, 4), native=st.booleans(), var=st.booleans(), none=st.sampled_from([False, False, False, False, True])))
    par = st.fixed_dictionaries(dict(lens=lens, ps=st.integers(0, 1), sc=g.fl(0.5, 2), sp=special_s()))
    op = st.sampled_from(["image", "image", "image", "unconv", "source", "lens_light", "ps", "like", "var", "psf", "data", "k"])
    return st.fixed_dictionaries(dict(
        nx=st.integers(5, 12), ny=st.integers(5, 12), src=st.lists(light_s(), max_size=2), ll=st.lists(light_s(), max_size=2), ps=st.one_of(st.none(), ps), pst=st.sampled_from(["UNLENSED", "LENSED_POSITION", "LENSED_FIXED"]),
        ext=st.booleans(), f=st.integers(1, 3), sconv=st.booleans(), mask=st.sampled_from([None, "random", "box"]), emask=st.sampled_from([None, None, "box"]), mb=st.integers(0, 99), data=st.lists(dat, min_size=2, max_size=2),
        psf=st.lists(psf, min_size=2, max_size=2), par=st.lists(par, min_size=1, max_size=3), offs=st.booleans(), okeys=st.sampled_from([["ra_shift", "dec_shift"], ["ra_shift", "dec_shift", "phi_rot"], ["phi_rot"], ["ra_shift"]]), delta=st.booleans(), idx=st.integers(0, 1), ops=st.tuples(st.lists(st.tuples(op, st.integers(0, 5)).map(list), min_size=1, max_size=6), st.sampled_from([[], [["psf", 1], ["var", 0]], [["psf", 1], ["like", 1]], [["psf", 0], ["data", 1], ["like", 2]]])).map(lambda o: o[0] + o[1])))


class World:
    """A configuration of an image model: objects from plain numbers, and the reference image."""

    def __init__(self, case):
        self.c = case
        self.d = 0
        self.p = 0
        f = case["f"]
        d = case["data"]
        self.pb = any(q["pb"] for q in d) and f == 1 and case["emask"] is None

    # -- data
    def mat(self):
        d = self.c["data"][self.d]
        a = d["rot"]
        return d["pix"] * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])

    def zero(self):
        m = self.mat()
        v = -m.dot([(self.c["nx"] - 1) / 2.0, (self.c["ny"] - 1) / 2.0])
        return v[0], v[1]

    def beam(self):
        d = self.c["data"][self.d]
        if not (d["pb"] and self.pb):
            return None
        yy, xx = np.mgrid[0:self.c["ny"], 0:self.c["nx"]]
        return 1.0 / (1 + 0.02 * (xx - 2) ** 2 + 0.01 * yy)

    def array(self):
        return np.random.RandomState(self.c["data"][self.d]["seed"]).normal(1.0, 2.0, (self.c["ny"], self.c["nx"]))

    def data(self):
        from lenstronomy.Data.imaging_data import ImageData

        d = self.c["data"][self.d]
        kw = dict(image_data=self.array(), transform_pix2angle=self.mat(), ra_at_xy_0=self.zero()[0], dec_at_xy_0=self.zero()[1], background_rms=d["rms"], exposure_time=d["exp"], flux_scaling=d["fs"])
        b = self.beam()
        if b is not None:
            kw.update(antenna_primary_beam=b)
        return ImageData(**kw)

    # -- psf
    def kernel(self):
        q = self.c["psf"][self.p]
        f = 1 if q["native"] else self.c["f"]
        n = (2 * q["n"] + 1) * f
        n += 1 - n % 2
        k = make_kernel(n, dict(q["k"], sig=q["k"]["sig"] * f))
        return k / k.sum(), f

    def psf(self):
        from lenstronomy.Data.psf import PSF

        q = self.c["psf"][self.p]
        if q["none"]:
            return PSF("NONE")
        k, f = self.kernel()
        kw = {}
        if q["var"]:
            m = 2 * q["n"] + 1
            kw["psf_variance_map"] = np.abs(make_kernel(m, q["k"])) * 0.01
        return PSF("PIXEL", kernel_point_source=k, point_source_supersampling_factor=f, **kw)

    def masks(self):
        c = self.c
        sh = (c["ny"], c["nx"])
        m = None if c["mask"] is None else mask_of(c["mb"], sh, c["mask"])
        e = None if c["emask"] is None else mask_of(c["mb"] + 7, sh, c["emask"])
        return m, e

    def model(self):
        from lenstronomy.ImSim.image_model import ImageModel
        from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
        from lenstronomy.LensModel.lens_model import LensModel
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.PointSource.point_source import PointSource

        c = self.c
        m, e = self.masks()
        lens = LensModel(["SIE", "SHEAR"])
        ps = None
        if c["ps"] is not None:
            typ = "UNLENSED" if c["pst"] == "UNLENSED" else "LENSED_POSITION"
            ps = PointSource([typ], fixed_magnification_list=[c["pst"] == "LENSED_FIXED"])
        kn = dict(supersampling_factor=c["f"], supersampling_convolution=c["sconv"], supersampling_kernel_size=None, flux_evaluate_indexes=e)
        return ImageModel(self.data(), self.psf(), lens_model_class=lens, source_model_class=LightModel([s[0] for s in c["src"]]) if c["src"] else None,
                          lens_light_model_class=LightModel([s[0] for s in c["ll"]]) if c["ll"] else None, point_source_class=ps,
                          extinction_class=DifferentialExtinction(["UNIFORM", "GAUSSIAN"]) if c["ext"] else None, kwargs_numerics=kn, likelihood_mask=m, image_index=c["idx"])

    # -- parameters
    def params(self, i):
        c = self.c
        p = c["par"][i % len(c["par"])]
        kl = [dict(p["lens"]), dict(gamma1=0.03, gamma2=-0.02)]

        def sc(lst):
            out = copy.deepcopy([s[1] for s in lst])
            for k in out:
                k["amp"] = np.array(k["amp"]) * p["sc"] if isinstance(k["amp"], list) else k["amp"] * p["sc"]
            return out

        kp = None
        if c["ps"] is not None:
            ra = np.array([q[0] for q in c["ps"]]) * (1 if p["ps"] == 0 else 0.9)
            dec = np.array([q[1] for q in c["ps"]]) * (1 if p["ps"] == 0 else 0.9)
            kp = [dict(ra_image=ra, dec_image=dec)]
            if c["pst"] == "LENSED_FIXED":
                kp[0]["source_amp"] = c["ps"][0][2] * p["sc"]
            else:
                kp[0]["point_amp"] = np.array([q[2] for q in c["ps"]]) * p["sc"]
        ks = {}
        if c["offs"]:
            # a parameter that is not given keeps its value, so the set of parameters is the same in every call
            ks["kwargs_offsets"] = [{k: v for k, v in o.items() if k in c["okeys"]} for o in p["sp"]["off"]]
        if c["delta"] and kp is not None:
            m = min(len(p["sp"]["dx"]), len(c["ps"]))
            ks["delta_x_image"] = np.array(p["sp"]["dx"][:m])
            ks["delta_y_image"] = -0.5 * np.array(p["sp"]["dx"][:m])
        ext = None
        if c["ext"]:
            ks["tau0_list"] = [p["sp"]["tau0"]]
            ext = [dict(amp=0.7), dict(amp=0.8 * p["sc"], sigma=0.5, center_x=0.3, center_y=-0.2)]
        return dict(kwargs_lens=kl, kwargs_source=sc(c["src"]), kwargs_lens_light=sc(c["ll"]), kwargs_ps=kp, kwargs_extinction=ext, kwargs_special=ks if ks else None)

    # -- reference
    @staticmethod
    def extinction(x, y, kw):
        """optical depth at the position in the image"""
        q = kw["kwargs_extinction"][1]
        tau = 0.7 + q["amp"] / (2 * np.pi * q["sigma"] ** 2) * np.exp(-((x - q["center_x"]) ** 2 + (y - q["center_y"]) ** 2) / 2 / q["sigma"] ** 2)
        tau0 = (kw["kwargs_special"] or {}).get("tau0_list", [1])[0]
        return np.exp(-tau0 * tau)

    def reference(self, kw, unconvolved=False, which=("source", "lens", "ps"), grid=None):
        """Expected images of the components; grid = (matrix, zero point) of the frame."""
        from lenstronomy.LensModel.lens_model import LensModel
        from lenstronomy.LightModel.light_model import LightModel
        from lenstronomy.Data.psf import PSF

        c = self.c
        f, ny, nx = c["f"], c["ny"], c["nx"]
        m, z = grid
        _, e = self.masks()
        d = c["data"][self.d]
        py, px = np.mgrid[0:ny * f, 0:nx * f]
        px, py = (px + 0.5) / f - 0.5, (py + 0.5) / f - 0.5
        x = m[0, 0] * px + m[0, 1] * py + z[0]
        y = m[1, 0] * px + m[1, 1] * py + z[1]
        lens = LensModel(["SIE", "SHEAR"])
        none = c["psf"][self.p]["none"]
        k, kf = (None, 1) if none else self.kernel()
        if not none:
            ps = PSF("PIXEL", kernel_point_source=k, point_source_supersampling_factor=kf)
            k1 = ps.kernel_point_source
            kf_ = ps.kernel_point_source_supersampled(f)
            kps = k1 if kf == 1 else k
        ev = np.ones((ny, nx)) if e is None else e.astype(float)
        box = np.ones((ny, nx))
        if e is not None:
            yy, xx = np.where(e)
            box[:] = 0
            box[yy.min():yy.max() + 1, xx.min():xx.max() + 1] = 1
        b = self.beam()
        out = []

        def finish(hi):
            hi = hi * np.kron(ev, np.ones((f, f)))
            if b is not None:
                hi = hi * b
            if unconvolved or none:
                im = bin_(hi, f)
            elif c["sconv"] and f > 1:
                im = bin_(conv(hi, kf_), f) * box
            else:
                im = conv(bin_(hi, f), k1) * box
            return im * abs(np.linalg.det(m)) * d["fs"]

        tot = np.zeros((ny, nx))
        if "source" in which and c["src"]:
            bx, by = lens.ray_shooting(x.ravel(), y.ravel(), kw["kwargs_lens"])
            s = LightModel([q[0] for q in c["src"]]).surface_brightness(bx, by, kw["kwargs_source"]).reshape(x.shape)
            if c["ext"]:
                s = s * self.extinction(x, y, kw)
            tot = tot + finish(s)
        if "lens" in which and c["ll"]:
            tot = tot + finish(LightModel([q[0] for q in c["ll"]]).surface_brightness(x.ravel(), y.ravel(), kw["kwargs_lens_light"]).reshape(x.shape))
        if "ps" in which and c["ps"] is not None:
            ra, dec = kw["kwargs_ps"][0]["ra_image"].copy(), kw["kwargs_ps"][0]["dec_image"].copy()
            if c["pst"] == "LENSED_FIXED":
                amp = np.abs(lens.magnification(ra, dec, kw["kwargs_lens"])) * kw["kwargs_ps"][0]["source_amp"]
            else:
                amp = kw["kwargs_ps"][0]["point_amp"]
            if c["delta"]:
                q = len(kw["kwargs_special"]["delta_x_image"])
                ra[:q] += kw["kwargs_special"]["delta_x_image"]
                dec[:q] += kw["kwargs_special"]["delta_y_image"]
            inv = np.linalg.inv(m)
            pf = 1 if none else kf
            im = np.zeros((ny * pf, nx * pf))
            d3 = np.zeros((3, 3))
            d3[1, 1] = 1
            ker = d3 if (unconvolved or none) else kps
            for a, dd, am in zip(ra, dec, amp):
                u, v = inv.dot([a - z[0], dd - z[1]])
                U, V = u * pf + (pf - 1) / 2.0, v * pf + (pf - 1) / 2.0
                for w in (U, V):
                    if abs((w * 2) % 1.0) < 1e-3 or abs((w * 2) % 1.0) > 1 - 1e-3:
                        return None
                if b is not None:
                    from scipy.ndimage import map_coordinates
                    am = am * float(map_coordinates(b, [[v], [u]], order=3, mode="constant", cval=0)[0])
                im += am * place(im.shape, U, V, ker)
            tot = tot + bin_(im, pf) * pf ** 2 * d["fs"]
        return tot


@PROP.facet("image-composition", img_case, quick=750, shards=2)
def composition(case, t):
    w = World(dict(case, offs=False))
    kw = w.params(0)
    kw0 = copy.deepcopy(kw)
    model = w.model()
    g0 = (w.mat(), w.zero())
    full = model.image(**kw)
    t.equal(np.shape(full), (case["ny"], case["nx"]), "image shape")
    ref = w.reference(kw, grid=g0)
    if ref is None:
        t.trivial()
        return
    sc = np.max(np.abs(ref)) + 1e-6
    t.close(full, ref, "image", rtol=1e-6, atol=1e-6 * sc)
    if case["ext"]:
        f, ny, nx = case["f"], case["ny"], case["nx"]
        py, px = np.mgrid[0:ny * f, 0:nx * f]
        px, py = (px + 0.5) / f - 0.5, (py + 0.5) / f - 0.5
        gx, gy = (g0[0][i, 0] * px + g0[0][i, 1] * py + g0[1][i] for i in (0, 1))
        e = w.masks()[1]
        ev = np.ones((ny, nx)) if e is None else e.astype(float)
        t.close(model.extinction_map(kw["kwargs_extinction"], kw["kwargs_special"]), bin_(w.extinction(gx, gy, kw), f) * ev, "extinction map", rtol=1e-6, atol=1e-9)
        only = dict(kw, kwargs_special=None)
        t.close(model.extinction_map(kw["kwargs_extinction"]), bin_(w.extinction(gx, gy, only), f) * ev, "extinction map without tau0", rtol=1e-6, atol=1e-9)
    un = model.image(unconvolved=True, **kw)
    t.close(un, w.reference(kw, unconvolved=True, grid=g0), "unconvolved image", rtol=1e-6, atol=1e-6 * sc)
    for flags in ((True, False, False), (False, True, False), (False, False, True)):
        a = model.image(source_add=flags[0], lens_light_add=flags[1], point_source_add=flags[2], **kw)
        which = [n for n, q in zip(("source", "lens", "ps"), flags) if q]
        t.close(a, w.reference(kw, which=which, grid=g0), "image of %s only" % which, rtol=1e-6, atol=1e-6 * sc)
    a = model.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kwargs_extinction=kw["kwargs_extinction"], kwargs_special=kw["kwargs_special"])
    b = model.lens_surface_brightness(kw["kwargs_lens_light"])
    c = model.point_source(kw["kwargs_ps"], kw["kwargs_lens"], kwargs_special=kw["kwargs_special"])
    t.close(a + b + c, ref, "sum of the component images", rtol=1e-6, atol=1e-6 * sc)
    # single profiles
    if case["src"]:
        s = sum(model.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kwargs_extinction=kw["kwargs_extinction"], kwargs_special=kw["kwargs_special"], k=i) for i in range(len(case["src"])))
        t.close(s, a, "sum over the source profiles", rtol=1e-6, atol=1e-6 * sc)
    if case["ll"]:
        s = sum(model.lens_surface_brightness(kw["kwargs_lens_light"], k=i) for i in range(len(case["ll"])))
        t.close(s, b, "sum over the lens-light profiles", rtol=1e-6, atol=1e-6 * sc)
    # residuals, variance and likelihood
    d = w.data()
    m = w.masks()[0]
    m = np.ones((case["ny"], case["nx"]), dtype=bool) if m is None else m
    dat = w.array()
    q = case["data"][0]
    var0 = q["rms"] ** 2 + np.maximum(ref, 0) / q["exp"]
    t.close(model.reduced_residuals(full), (dat - ref) / np.sqrt(var0) * m, "reduced residuals", rtol=1e-5, atol=1e-5)
    t.close(model.reduced_chi2(full), np.sum(((dat - ref) ** 2 / var0)[m]) / m.sum(), "reduced chi2", rtol=1e-5)
    t.equal(model.num_data_evaluate, int(m.sum()), "number of evaluated pixels")
    t.same(model.image2array_masked(dat), dat[m], "masked data")
    t.same(model.array_masked2image(dat[m]), np.where(m, dat, 0), "masked data back to an image")
    t.same(model.data_response, dat[m], "data response")
    vm = model.variance_map(**kw)
    if not (case["psf"][0]["var"] and case["ps"] is not None and not case["psf"][0]["none"]):
        t.close(vm, var0, "variance map", rtol=1e-5)
    else:
        t.true(bool(np.all(vm >= var0 * (1 - 1e-6))), "the PSF variance adds to the noise variance")
        t.label("psf variance")
    ll = model.likelihood_data_given_model(**kw)
    chi = ((dat - ref) ** 2 / vm)[m]
    t.close(ll, -0.5 * np.sum(chi), "log likelihood", rtol=1e-5, atol=1e-6)
    for n in kw:
        t.true(same(kw[n], kw0[n]), "%s is not modified" % n)
    t.nontrivial(bool(case["src"]) + bool(case["ll"]) + (case["ps"] is not None) > 1)


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if a is None or b is None:
        return a is b
    return bool(np.array_equal(np.asarray(a), np.asarray(b)))


@PROP.facet("image-history", img_case, quick=750, shards=2)
def history(case, t):
    w = World(case)
    live = w.model()
    ops = case["ops"]
    done = 0
    grid_known = not case["offs"]
    for op, i in ops:
        if op == "psf":
            w.p = i % 2
            live.update_psf(w.psf())
            continue
        if op == "data":
            w.d = i % 2
            live.update_data(w.data())
            grid_known = not case["offs"]
            continue
        kw = w.params(i)
        fresh = w.model()

        def run(m):
            if op == "image":
                return m.image(**kw)
            if op == "unconv":
                return m.image(unconvolved=True, **kw)
            if op == "source":
                return m.source_surface_brightness(kw["kwargs_source"], kw["kwargs_lens"], kwargs_extinction=kw["kwargs_extinction"], kwargs_special=kw["kwargs_special"])
            if op == "lens_light":
                m.update_pixel_grid_coordinates(kw["kwargs_special"], model_index=case["idx"])
                return m.lens_surface_brightness(kw["kwargs_lens_light"])
            if op == "ps":
                return m.point_source(kw["kwargs_ps"], kw["kwargs_lens"], kwargs_special=kw["kwargs_special"])
            if op == "like":
                return m.likelihood_data_given_model(**kw)
            if op == "var":
                return m.variance_map(**kw)
            return m.image(source_add=i % 2 == 0, lens_light_add=i % 3 == 0, **kw)

        a, b = run(live), run(fresh)
        t.close(a, b, "%s: same as a newly built model" % op, rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(b))))
        t.close(run(live), b, "%s: same when repeated" % op, rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(b))))
        done += 1
    t.nontrivial(done > 1 or len(ops) > 1)
