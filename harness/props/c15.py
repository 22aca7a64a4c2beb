"""C15: image numerics (grids, supersampling, convolution, point-source rendering)."""

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property
from harness.props.c14 import make_kernel, degrade, kpar

PROP = Property(
    "C15",
    title="Numerics averages over sub-pixels and convolves exactly as configured",
    statement=(
        "For every frame (square or not, rotated, sheared), supersampling factor, mask and compute mode, Numerics maps fluxes evaluated on its own coordinates "
        "to the pixel-averaged image, and applies the PSF as the direct convolution at the requested resolution, the same for all convolution types, split or "
        "adaptive kernels and sub-frames, and for every image of a history of calls. "
        "Point sources are rendered as the kernel placed at their sky position with their flux, also at and beyond the frame edge."
    ),
    over=("inputs", "histories"),
    quant="frame shapes and transforms, supersampling factors 1-5, masks, kernels and kernel cuts, convolution types, compute modes, call histories, source positions in and out of the frame",
    why="tests use square frames, one kernel and factor, and compare convolution types loosely; combinations of masks, shapes, factors and repeated calls are not sampled",
    files=["lenstronomy/ImSim/Numerics/numerics.py", "lenstronomy/ImSim/Numerics/grid.py", "lenstronomy/ImSim/Numerics/convolution.py", "lenstronomy/ImSim/Numerics/numba_convolution.py",
           "lenstronomy/ImSim/Numerics/adaptive_numerics.py", "lenstronomy/ImSim/Numerics/point_source_rendering.py", "lenstronomy/ImSim/Numerics/numerics_subframe.py",
           "lenstronomy/ImSim/Numerics/partial_image.py", "lenstronomy/Util/image_util.py"],
    mechanism=["RegularGrid / AdaptiveGrid indexing", "PixelKernelConvolution static FFT cache", "SubgridKernelConvolution split", "SubgridNumbaConvolution partial kernels", "add_layer2image"],
    observe=["Numerics.coordinates_evaluate", "Numerics.re_size_convolve", "Numerics.point_source_rendering", "NumericsSubFrame", "PixelKernelConvolution.convolution2d"],
    rule="non-trivial: the frame is not square, or supersampled, masked or convolved",
    assumptions=["kernels are odd-sized and finite", "at least one pixel is evaluated"],
)


def transform(p):
    a = p["rot"]
    m = p["pix"] * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    if p["flip"]:
        m = m.dot(np.diag([-1.0, 1.0]))
    return m


def frame():
    return st.fixed_dictionaries(dict(nx=st.integers(3, 12), ny=st.integers(3, 12), pix=g.logf(0.03, 0.5), rot=st.one_of(st.just(0.0), g.fl(-3.1, 3.1)), flip=st.booleans(),
                                      ra0=g.fl(-2, 2), dec0=g.fl(-2, 2)))


def mkgrid(p):
    from lenstronomy.Data.pixel_grid import PixelGrid

    return PixelGrid(nx=p["nx"], ny=p["ny"], transform_pix2angle=transform(p), ra_at_xy_0=p["ra0"], dec_at_xy_0=p["dec0"])


def sky(p, px, py):
    m = transform(p)
    return p["ra0"] + m[0, 0] * px + m[0, 1] * py, p["dec0"] + m[1, 0] * px + m[1, 1] * py


def sub_xy(p, f):
    """Sky coordinates (ny*f, nx*f) of the sub-pixel centres."""
    py, px = np.mgrid[0:p["ny"] * f, 0:p["nx"] * f]
    return sky(p, (px + 0.5) / f - 0.5, (py + 0.5) / f - 0.5)


def bin_(a, f):
    ny, nx = a.shape
    return a.reshape(ny // f, f, nx // f, f).mean(axis=(1, 3))


def conv(a, k):
    """Direct zero-padded convolution of the same shape."""
    h, w = (k.shape[0] - 1) // 2, (k.shape[1] - 1) // 2
    ny, nx = a.shape
    big = np.zeros((ny + 2 * h, nx + 2 * w))
    for i in range(k.shape[0]):
        for j in range(k.shape[1]):
            big[i:i + ny, j:j + nx] += k[i, j] * a
    return big[h:h + ny, w:w + nx]


def field(p, c, x, y):
    """Smooth surface brightness with structure on the pixel scale of the frame p; c selects one of a family."""
    q = c["q"] / p["pix"]
    u, v = x - p["ra0"], y - p["dec0"]
    return 2.0 + np.sin(q * u + c["a"]) * np.cos(0.7 * q * v + c["b"]) + 0.3 * np.cos(q * (u + v) * 0.4) * c["s"]


def fcase():
    return st.fixed_dictionaries(dict(q=g.fl(0.2, 3.0), a=g.fl(0, 6), b=g.fl(0, 6), s=g.fl(-3, 3)))


def mask_of(bits, shape, kind):
    """Boolean mask from a seed: all, random, a box or a single pixel."""
    rng = np.random.RandomState(bits)
    m = np.ones(shape, dtype=bool)
    if kind == "random":
        m = rng.uniform(size=shape) < 0.6
    elif kind == "box":
        m[:] = False
        y0, y1 = sorted(rng.randint(0, shape[0], 2))
        x0, x1 = sorted(rng.randint(0, shape[1], 2))
        m[y0:y1 + 1, x0:x1 + 1] = True
    elif kind == "hole":
        m[rng.randint(0, shape[0]), rng.randint(0, shape[1])] = False
    elif kind == "one":
        m[:] = False
        m[rng.randint(0, shape[0]), rng.randint(0, shape[1])] = True
    elif kind == "none":
        m[:] = False
    if not m.any() and kind != "none":
        m[0, 0] = True
    return m


KINDS = ["all", "random", "box", "hole", "one"]


def num_case():
    return st.fixed_dictionaries(dict(
        p=frame(), f=st.integers(1, 5), mode=st.sampled_from(["regular", "regular", "adaptive"]), mask=st.sampled_from([None] + KINDS), mbits=st.integers(0, 999),
        smask=st.sampled_from(["random", "box", "all", "one", "none"]), sbits=st.integers(0, 999), cmask=st.sampled_from([None, None, "random", "box"]), cbits=st.integers(0, 999),
        psf=st.sampled_from(["PIXEL", "PIXEL", "PIXEL", "NONE"]), k=kpar(), kn=st.integers(1, 5), sconv=st.booleans(), native=st.booleans(),
        ksize=st.sampled_from([None, 1, 3, 5]), ccut=st.sampled_from([None, None, 3, 5]), ctype=st.sampled_from(["fft", "grid", "fft_static", "fft_static"]),
        fields=st.lists(fcase(), min_size=1, max_size=3), sub=st.booleans()))


def make_psf(case, f):
    """PSF object and its kernels (native, supersampled by f)."""
    from lenstronomy.Data.psf import PSF

    if case["psf"] == "NONE":
        return PSF(psf_type="NONE"), None, None
    if case["native"] or f == 1:
        n = 2 * case["kn"] + 1
        k = make_kernel(n, case["k"])
        psf = PSF(psf_type="PIXEL", kernel_point_source=k / k.sum())
    else:
        n = (2 * case["kn"] + 1) * f
        n += 1 - n % 2
        k = make_kernel(n, dict(case["k"], sig=case["k"]["sig"] * f))
        psf = PSF(psf_type="PIXEL", kernel_point_source=k / k.sum(), point_source_supersampling_factor=f)
    ref = PSF(**{**dict(psf_type="PIXEL", kernel_point_source=k / k.sum()), "point_source_supersampling_factor": 1 if (case["native"] or f == 1) else f})
    return psf, ref.kernel_point_source, ref.kernel_point_source_supersampled(f)


def cutc(k, n):
    """Central n x n part (or the whole kernel if smaller)."""
    if n >= len(k):
        return k
    d = (len(k) - n) // 2
    return k[d:d + n, d:d + n]


def expected(case, fld, evalmask, smask, kn, ks, cmask):
    """Reference image (before multiplication with the pixel area)."""
    p, f = case["p"], case["f"]
    ny, nx = p["ny"], p["nx"]
    x, y = sub_xy(p, f)
    hi = field(p, fld, x, y) * np.kron(evalmask, np.ones((f, f)))
    low_hi = bin_(hi, f)
    if case["mode"] == "adaptive":
        x1, y1 = sub_xy(p, 1)
        low = np.where(smask, low_hi, field(p, fld, x1, y1) * evalmask)
    else:
        low = low_hi
    unconv = low
    if case["psf"] == "NONE":
        return unconv, unconv
    sconv = case["sconv"] and f > 1
    cut = case["ccut"]
    if not sconv:
        k = kn if cut is None else cutc(kn, cut)
        return unconv, conv(low, k)
    k = ks
    if cut is not None:
        n = cut * f
        n += 1 - n % 2
        k = cutc(ks, n)
    size = case["ksize"]
    if case["mode"] == "regular":
        if size is None:
            return unconv, bin_(conv(hi, k), f)
        inner, outer = split(k, size, f)
        return unconv, bin_(conv(hi, inner), f) + conv(low, outer)
    his = hi * np.kron(smask, np.ones((f, f)))
    lows = low * smask
    kd = degrade(k, f)
    n = (len(kd) if size is None else size) * f
    n += 1 - n % 2
    kc = cutc(k, n)
    part = bin_(conv(his, kc), f) - conv(lows, degrade(kc, f))
    if cmask is not None:
        part = part * cmask
    return unconv, conv(low, kd) + part


def split(k, size, f):
    n = size * f
    n += 1 - n % 2
    inner = cutc(k, n)
    rest = np.array(k)
    d = (len(k) - len(inner)) // 2
    rest[d:d + len(inner), d:d + len(inner)] = 0
    return inner, degrade(rest, f)


@PROP.facet("numerics-history", num_case, quick=1200, shards=3)
def numerics(case, t):
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.ImSim.Numerics.numerics_subframe import NumericsSubFrame

    p, f, mode = case["p"], case["f"], case["mode"]
    shape = (p["ny"], p["nx"])
    t.label(mode)
    ev = None if case["mask"] is None else mask_of(case["mbits"], shape, case["mask"])
    ss = mask_of(case["sbits"], shape, case["smask"])
    cm = None if case["cmask"] is None else mask_of(case["cbits"], shape, case["cmask"])
    psf, kn, ks = make_psf(case, f)
    sconv = case["sconv"] and f > 1
    if kn is not None and sconv and mode == "regular" and case["ksize"] is not None:
        kk = ks if case["ccut"] is None else cutc(ks, case["ccut"] * f + 1 - (case["ccut"] * f) % 2)
        if case["ksize"] * f + 1 - (case["ksize"] * f) % 2 > len(kk):
            case = dict(case, ksize=None)
    if kn is not None and sconv and mode == "adaptive":
        kk = ks if case["ccut"] is None else cutc(ks, case["ccut"] * f + 1 - (case["ccut"] * f) % 2)
        nn = (case["ksize"] or len(degrade(kk, f))) * f
        if nn + 1 - nn % 2 > len(kk):
            case = dict(case, sconv=False)
            sconv = False
    if kn is not None and case["ccut"] is not None and (case["ccut"] > len(kn) or case["ccut"] * f > len(ks)):
        case = dict(case, ccut=None)
    kw = dict(supersampling_factor=f, compute_mode=mode, supersampling_convolution=case["sconv"], supersampling_kernel_size=case["ksize"], flux_evaluate_indexes=ev,
              supersampled_indexes=ss if mode == "adaptive" else None, compute_indexes=cm if mode == "adaptive" else None,
              convolution_kernel_size=case["ccut"], convolution_type=case["ctype"])
    num = Numerics(mkgrid(p), psf, **kw)
    evm = np.ones(shape, dtype=bool) if ev is None else ev
    x, y = num.coordinates_evaluate
    t.equal(len(x), int(np.sum(evm) * f * f) if mode == "regular" else int(np.sum(evm & ss) * f * f + np.sum(evm & ~ss)), "number of evaluated coordinates")
    area = num_area = p["pix"] ** 2
    outs = []
    subn = None
    for fld in case["fields"]:
        flux = field(p, fld, x, y)
        f0 = flux.copy()
        eu, ec = expected(case, fld, evm, ss, kn, ks, cm if mode == "adaptive" else None)
        iu = num.re_size_convolve(flux, unconvolved=True)
        t.equal(np.shape(iu), shape, "image shape")
        t.close(iu, eu * area, "unconvolved image is the mean over the sub-pixels", rtol=1e-7, atol=1e-9 * num_area)
        ic = num.re_size_convolve(flux)
        t.close(ic, ec * area, "convolved image (factor %d, supersampled convolution %s, kernel split %s)" % (f, sconv, case["ksize"]), rtol=1e-6, atol=1e-7 * num_area)
        t.same(flux, f0, "the flux array is not modified")
        outs.append((flux, ic))
    for flux, ic in outs:
        t.close(num.re_size_convolve(flux), ic, "same image when asked again after other images", rtol=1e-9, atol=1e-12)
    if case["sub"] and ev is not None:
        sub = NumericsSubFrame(mkgrid(p), psf, **kw)
        xs, ys = sub.coordinates_evaluate
        t.close(np.sort(xs), np.sort(x), "sub-frame evaluates the same coordinates", rtol=1e-9, atol=1e-9)
        yy, xx = np.where(ev)
        box = np.zeros(shape, dtype=bool)
        box[yy.min():yy.max() + 1, xx.min():xx.max() + 1] = True
        # the sub-frame is only computed within its box
        eu, ec = expected(case, case["fields"][0], evm, ss, kn, ks, cm if mode == "adaptive" else None)
        flux = field(p, case["fields"][0], xs, ys)
        t.close(sub.re_size_convolve(flux, unconvolved=True), eu * area, "sub-frame, unconvolved", rtol=1e-7, atol=1e-9 * area)
        out = sub.re_size_convolve(flux)
        t.close(out, np.where(box, ec, 0) * area, "sub-frame, convolved", rtol=1e-6, atol=1e-7 * area)
    t.nontrivial(p["nx"] != p["ny"] or f > 1 or ev is not None or kn is not None)


# ---------------------------------------------------------------- convolution classes
def conv_case():
    return st.fixed_dictionaries(dict(n=st.tuples(st.integers(4, 16), st.integers(4, 16)).map(list), k=kpar(), kn=st.integers(1, 6), f=st.integers(1, 4), seeds=st.lists(st.integers(0, 999), min_size=1, max_size=3),
                                      sig=st.lists(g.fl(0.3, 1.2), min_size=1, max_size=3), frac=st.lists(g.fl(0.1, 3), min_size=3, max_size=3), pix=g.logf(0.03, 2), trunc=st.sampled_from([2.0, 3.0, 5.0]),
                                      mk=st.sampled_from(KINDS), mb=st.integers(0, 99), mk2=st.sampled_from([None] + KINDS), mb2=st.integers(0, 99)))


def gauss1d(sigma, trunc):
    r = int(trunc * sigma + 0.5)
    x = np.arange(-r, r + 1)
    k = np.exp(-x ** 2 / (2 * sigma ** 2))
    return k / k.sum()


@PROP.facet("convolution-classes", conv_case, quick=900, shards=2)
def convolution(case, t):
    from lenstronomy.ImSim.Numerics.convolution import PixelKernelConvolution, SubgridKernelConvolution, MultiGaussianConvolution
    from lenstronomy.ImSim.Numerics.numba_convolution import NumbaConvolution
    from lenstronomy.ImSim.Numerics.partial_image import PartialImage

    ny, nx = case["n"]
    k = make_kernel(2 * case["kn"] + 1, case["k"])
    k = k / k.sum() * 1.3
    k0 = k.copy()
    imgs = [np.random.RandomState(s).normal(size=(ny, nx)) for s in case["seeds"]]
    objs = {c: PixelKernelConvolution(k, convolution_type=c) for c in ("fft", "grid", "fft_static")}
    for im in imgs:
        i0 = im.copy()
        ref = conv(im, k0)
        for c, o in objs.items():
            t.close(o.convolution2d(im), ref, "convolution type %s" % c, rtol=1e-7, atol=1e-9)
            t.close(o.copy_transpose().convolution2d(im), conv(im, k0.T), "transposed kernel, type %s" % c, rtol=1e-7, atol=1e-9)
        t.same(im, i0, "image not modified")
    # the same object on an image of another size, and back
    for im in (np.random.RandomState(case["seeds"][0] + 1).normal(size=(nx + 1, ny)), imgs[0]):
        for c, o in objs.items():
            t.close(o.convolution2d(im), conv(im, k0), "convolution type %s of an image of another size" % c, rtol=1e-7, atol=1e-9)
    t.same(k, k0, "kernel not modified")
    # masked convolution
    cp = mask_of(case["mb"], (ny, nx), case["mk"])
    op = None if case["mk2"] is None else mask_of(case["mb2"], (ny, nx), case["mk2"])
    nb = NumbaConvolution(k, cp, compute_pixels=op)
    for im in imgs:
        ref = conv(im * cp, k0)
        if op is not None:
            ref = ref * op
        t.close(nb.convolve2d(im), ref, "masked convolution", rtol=1e-7, atol=1e-9)
    pi = PartialImage(cp)
    arr = pi.partial_array(imgs[0])
    t.same(arr, imgs[0][cp], "partial array is in row order")
    t.equal(pi.num_partial, int(cp.sum()), "number of partial pixels")
    t.same(pi.image_from_partial(arr), np.where(cp, imgs[0], 0), "partial array back to the image")
    ia = pi.index_array
    t.equal([int(v) for v in ia[cp]], list(range(int(cp.sum()))), "index array")
    t.true(bool(np.all(ia[~cp] == -1)), "index array outside the mask")
    # supersampled
    f = case["f"]
    n = (2 * case["kn"] + 1) * f
    n += 1 - n % 2
    kb = make_kernel(n, dict(case["k"], sig=case["k"]["sig"] * f))
    kb = kb / kb.sum()
    hi = [np.random.RandomState(s).normal(size=(ny * f, nx * f)) for s in case["seeds"]]
    for size in (None, 1, 2 * case["kn"] - 1) if f > 1 else (None,):
        for ct in ("fft_static", "grid"):
            o = SubgridKernelConvolution(kb, f, supersampling_kernel_size=size, convolution_type=ct)
            for h in hi:
                if size is None:
                    ref = bin_(conv(h, kb), f)
                else:
                    inner, outer = split(kb, size, f)
                    ref = bin_(conv(h, inner), f) + conv(bin_(h, f), outer)
                t.close(o.convolution2d(h), ref, "supersampled convolution (split %s, %s)" % (size, ct), rtol=1e-6, atol=1e-8)
                t.close(o.re_size_convolve(bin_(h, f), h), ref, "re_size_convolve (split %s, %s)" % (size, ct), rtol=1e-6, atol=1e-8)
    # Gaussian mixtures on an image that vanishes near the edge
    m = len(case["sig"])
    fr = np.array(case["frac"][:m])
    mg = MultiGaussianConvolution([s * case["pix"] for s in case["sig"]], list(fr), case["pix"], truncation=case["trunc"])
    big = np.pad(imgs[0], 8)
    ref = 0
    for s, w in zip(case["sig"], fr / fr.sum()):
        k1 = gauss1d(s, case["trunc"])
        ref = ref + w * conv(big, np.outer(k1, k1))
    t.close(mg.convolution2d(big), ref, "Gaussian mixture", rtol=1e-7, atol=1e-9)
    t.close(mg.re_size_convolve(big, None), ref, "Gaussian mixture, re_size_convolve", rtol=1e-7, atol=1e-9)
    if f > 1:
        ms = MultiGaussianConvolution([s * case["pix"] for s in case["sig"]], list(fr), case["pix"], supersampling_factor=f, supersampling_convolution=True, truncation=case["trunc"])
        bigh = np.pad(hi[0], 8 * f)
        ref = 0
        for s, w in zip(case["sig"], fr / fr.sum()):
            k1 = gauss1d(s * f, case["trunc"])
            ref = ref + w * conv(bigh, np.outer(k1, k1))
        t.close(ms.re_size_convolve(bin_(bigh, f), bigh), bin_(ref, f), "Gaussian mixture, supersampled", rtol=1e-7, atol=1e-9)
    kk = mg.pixel_kernel(11)
    yy, xx = np.mgrid[0:11, 0:11] - 5.0
    e = sum(w / (2 * np.pi * s ** 2) * np.exp(-(xx ** 2 + yy ** 2) / (2 * s ** 2)) for s, w in zip(case["sig"], fr))
    t.close(kk, e / e.sum(), "pixel kernel of the Gaussian mixture", rtol=1e-7, atol=1e-12)
    t.nontrivial(nx != ny)


# ---------------------------------------------------------------- point sources
def ps_case():
    return st.fixed_dictionaries(dict(p=frame(), k=kpar(), kn=st.integers(1, 5), f=st.integers(1, 5), fp=st.sampled_from([None, 1, 2, 3, 5]), native=st.booleans(),
                                      pos=st.lists(st.tuples(g.fl(-0.3, 1.3), g.fl(-0.3, 1.3), g.sgn_logf(0.1, 1e3)).map(list), min_size=0, max_size=5), psf=st.just("PIXEL")))


def place(shape, px, py, k):
    """Kernel shifted by linear interpolation (zero outside its frame) and added around the nearest pixel."""
    ix, iy = int(np.round(px)), int(np.round(py))
    dx, dy = px - ix, py - iy
    n = len(k)
    w = (n - 1) // 2

    def sh1(a, d):
        # value at j is a(j - d), defined where 0 <= j - d <= n - 1
        out = np.zeros_like(a)
        for j in range(n):
            q = j - d
            if q < 0 or q > n - 1:
                continue
            lo = int(np.floor(q))
            hi = min(lo + 1, n - 1)
            out[j] = a[lo] * (1 - (q - lo)) + a[hi] * (q - lo)
        return out

    ks = sh1(sh1(k, dy).T, dx).T
    out = np.zeros(shape)
    for j in range(n):
        y = iy + j - w
        if 0 <= y < shape[0]:
            for i in range(n):
                x = ix + i - w
                if 0 <= x < shape[1]:
                    out[y, x] += ks[j, i]
    return out


def off_tie(q, fe):
    for f in (fe, 1) * 3:
        w = ((q * f + (f - 1) / 2.0) * 2) % 1.0
        if min(w, 1 - w) < 1e-4:
            q += 0.00137
    return q


@PROP.facet("point-source-rendering", ps_case, quick=900, shards=2)
def point_sources(case, t):
    from lenstronomy.ImSim.Numerics.numerics import Numerics
    from lenstronomy.ImSim.Numerics.numerics_subframe import NumericsSubFrame
    from lenstronomy.Data.psf import PSF

    p, f = case["p"], case["f"]
    psf, kn, ks = make_psf(case, f)
    fp = case["fp"]
    fe = fp if fp is not None else psf.point_source_supersampling_factor
    kref = kn if fe == 1 else PSF(psf_type="PIXEL", kernel_point_source=psf.kernel_point_source_supersampled(f) if False else (kn if case["native"] or f == 1 else ks),
                                  point_source_supersampling_factor=1 if (case["native"] or f == 1) else f).kernel_point_source_supersampled(fe)
    shape = (p["ny"], p["nx"])
    pos = []
    for u, v, amp in case["pos"]:
        px, py = u * p["nx"] - 0.5, v * p["ny"] - 0.5
        # half-integer sub-pixel positions are ties between two equally near pixels; at integer ones rounding decides about the last kernel row
        pos.append((off_tie(px, fe), off_tie(py, fe), amp))
    ra = np.array([sky(p, a, b)[0] for a, b, _ in pos])
    dec = np.array([sky(p, a, b)[1] for a, b, _ in pos])
    amp = np.array([c for _, _, c in pos])
    keep = (ra.copy(), dec.copy(), amp.copy())
    ref = np.zeros((shape[0] * fe, shape[1] * fe))
    refu = np.zeros_like(ref)
    d3 = np.zeros((3, 3))
    d3[1, 1] = 1
    for a, b, c in pos:
        X, Y = a * fe + (fe - 1) / 2.0, b * fe + (fe - 1) / 2.0
        ref += c * place(ref.shape, X, Y, kref)
        refu += c * place(ref.shape, X, Y, d3)
    sc = max(1.0, np.max(np.abs(amp))) if len(amp) else 1.0
    for cls, kw in ((Numerics, {}), (NumericsSubFrame, dict(flux_evaluate_indexes=mask_of(3, shape, "box")))):
        num = cls(mkgrid(p), psf, point_source_supersampling_factor=fp, **kw)
        out = num.point_source_rendering(ra, dec, amp)
        t.equal(np.shape(out), shape, "image shape")
        t.close(out, bin_(ref, fe) * fe ** 2, "point sources rendered at factor %d" % fe, rtol=1e-6, atol=1e-8 * sc)
        t.close(num.point_source_rendering(ra, dec, amp, unconvolved=True), bin_(refu, fe) * fe ** 2, "unconvolved point sources", rtol=1e-6, atol=1e-8 * sc)
        t.close(num.point_source_rendering(ra, dec, amp), out, "same image when repeated", rtol=1e-10, atol=1e-12)
        if fe == 1:
            t.close(num.point_source_rendering_unconvolved_for_interferometry(ra, dec, amp), refu, "unconvolved point sources for interferometry", rtol=1e-6, atol=1e-8 * sc)
    t.same(ra, keep[0], "positions not modified")
    t.same(amp, keep[2], "amplitudes not modified")
    # flux of a source well inside a large frame
    big = dict(p, nx=41, ny=37)
    num = Numerics(mkgrid(big), psf, point_source_supersampling_factor=fp)
    for a, b, c in pos[:2]:
        px, py = 20 + (a % 1), 18 + (b % 1)
        x, y = sky(big, px, py)
        un = num.point_source_rendering(np.array([x]), np.array([y]), np.array([c]), unconvolved=True)
        t.close(np.sum(un), c, "unconvolved point source has the flux of its amplitude", rtol=1e-6)
        yy, xx = np.mgrid[0:37, 0:41]
        if fe == 1:
            t.close([np.sum(un * xx) / c, np.sum(un * yy) / c], [px, py], "centroid of the unconvolved point source", rtol=1e-6)
    # variance map of the PSF model
    v = np.abs(make_kernel(2 * case["kn"] + 1, case["k"])) * 0.01
    psfv = PSF(psf_type="PIXEL", kernel_point_source=kn, psf_variance_map=v)
    numv = Numerics(mkgrid(p), psfv)
    if len(pos) and all(min(abs(q % 1.0 - 0.5) for q in (a, b)) > 1e-6 for a, b, _ in pos):
        e = np.zeros(shape)
        vv = psfv.psf_variance_map
        for a, b, c in pos:
            e += place(shape, a, b, vv) * c ** 2
        m = numv.psf_variance_map(ra, dec, amp, data=np.zeros(shape), fix_psf_variance_map=True)
        t.close(m, e, "PSF variance map with the given amplitudes", rtol=1e-6, atol=1e-9 * sc ** 2)
    t.nontrivial(len(pos) > 0 and (fe > 1 or p["nx"] != p["ny"]))


@PROP.facet("gaussian-approximations", lambda: st.fixed_dictionaries(dict(sig=g.fl(1.9, 3.0), n=st.integers(11, 24), ny=st.integers(4, 12), nx=st.integers(4, 12), pix=g.logf(0.03, 2), seed=st.integers(0, 999), scale=g.logf(0.2, 5.0))), quick=200, thorough=4000, shards=2)
def gaussian_approximations(case, t):
    """a kernel that is a Gaussian: its FWHM and multi-Gaussian approximations convolve as the kernel does"""
    from lenstronomy.ImSim.Numerics.convolution import FWHMGaussianConvolution, MGEConvolution

    h = case["n"]
    y, x = np.mgrid[-h : h + 1, -h : h + 1]
    k = np.exp(-(x**2 + y**2) / 2 / case["sig"] ** 2)
    k = k / k.sum()
    k0 = k.copy()
    im = np.pad(np.random.RandomState(case["seed"]).uniform(0.5, 1, size=(case["ny"], case["nx"])), 12) * case["scale"]
    ref = conv(im, k0)
    o = FWHMGaussianConvolution(k)
    t.close(o.convolution2d(im), ref, "convolution with the Gaussian of the same FWHM", rtol=0, atol=0.05 * ref.max())
    t.close(o.convolution2d(im).sum(), im.sum(), "flux kept", rtol=1e-3)
    m = MGEConvolution(k, case["pix"], order=8)
    t.close(m.convolution2d(im), conv(im, k0 - m.kernel_difference()), "convolution with the multi-Gaussian approximation of the kernel", rtol=0, atol=0.03 * ref.max())
    t.close(m.kernel_difference(), np.zeros_like(k), "kernel minus its approximation", atol=0.5 * k.max())
    t.same(k, k0, "kernel not modified")
    t.nontrivial(True)
