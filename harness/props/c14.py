"""C14: PSF kernels."""

import numpy as np
from hypothesis import strategies as st

from harness import gen as g
from harness.core import Property

PROP = Property(
    "C14",
    title="PSF kernels keep flux, centre and normalisation on every pixel scale",
    statement=(
        "A PSF object provides the same kernel at native and supersampled resolution in whatever order resolutions, pixel sizes and products are requested: "
        "kernels are normalised (or keep the given normalisation), centred, of odd size, and averaging a supersampled kernel back gives the native one. "
        "The kernel utilities (normalise, centre, make odd, supersample, degrade, split, crop, resize, cut out a source) conserve flux and position as "
        "documented and never modify the arrays they are given."
    ),
    over=("inputs", "histories"),
    quant="kernel shapes and sizes, supersampling factors 1-6 (odd and even), normalisations, request histories, non-square cut-outs",
    why="tests use a few Gaussian kernels of convenient sizes and query one factor; size/parity combinations and request histories are sampled nowhere",
    files=["lenstronomy/Data/psf.py", "lenstronomy/Util/kernel_util.py"],
    mechanism=["PSF caches (_kernel_point_source*, _point_source_supersampling_factor)", "kernel_util.degrade_kernel / averaging_even_kernel", "subgrid_kernel", "split_kernel"],
    observe=["PSF.kernel_point_source", "PSF.kernel_point_source_supersampled", "PSF.kernel_pixel", "PSF.psf_variance_map", "kernel_util functions"],
    rule="non-trivial: supersampling factor above 1 or more than one request in the history",
    assumptions=["kernels are positive with their peak near the centre, as PSFs are"],
)


def make_kernel(n, p, delta=1.0):
    """A smooth, slightly asymmetric positive kernel with odd or even axis n."""
    c = (n - 1) / 2.0
    y, x = np.mgrid[0:n, 0:n]
    x = (x - c - p["dx"]) * delta
    y = (y - c - p["dy"]) * delta
    s = p["sig"]
    k = np.exp(-(x ** 2 * (1 + p["e"]) + y ** 2 * (1 - p["e"]) + p["e"] * x * y) / (2 * s ** 2)) + 0.05 * np.exp(-np.hypot(x, y) / (2 * s)) + 1e-4
    return k


def kpar():
    return st.fixed_dictionaries(dict(sig=g.fl(0.7, 3.0), e=g.fl(-0.3, 0.3, special=(0.0,)), dx=g.fl(-0.3, 0.3, special=(0.0,)), dy=g.fl(-0.3, 0.3, special=(0.0,))))


def degrade(k, f):
    """Reference: bin an odd-sized supersampled kernel onto native pixels sharing its centre."""
    n = len(k)
    c = (n - 1) // 2
    # half width in native pixels
    h = int(np.ceil((c / float(f)) - 0.5 + 1e-9)) if f > 1 else c
    h = max(h, 0)
    m = 2 * h + 1
    out = np.zeros((m, m))
    w = np.zeros((m, n))
    for i in range(n):
        lo, hi = (i - c - 0.5) / f + 0.5 + h, (i - c + 0.5) / f + 0.5 + h  # pixel j covers [j, j+1]
        for j in range(m):
            w[j, i] = max(0.0, min(hi, j + 1) - max(lo, j)) * f
    return w.dot(k).dot(w.T)


def same_centre(t, a, b, what, rtol=1e-7, atol=1e-10):
    """Compare two odd kernels that may differ in zero padding."""
    n = max(len(a), len(b))

    def pad(k):
        d = (n - len(k)) // 2
        return np.pad(k, d)

    t.close(pad(np.asarray(a)), pad(np.asarray(b)), what, rtol=rtol, atol=atol)


# ---------------------------------------------------------------- PSF histories
def psf_case():
    req = st.one_of(st.tuples(st.just("super"), st.integers(1, 6), st.booleans()), st.tuples(st.just("native"), st.just(0), st.just(True)),
                    st.tuples(st.just("pixel"), st.just(0), st.just(True)), st.tuples(st.just("var"), st.just(0), st.just(True)),
                    st.tuples(st.just("size"), st.integers(1, 4), st.just(True))).map(list)
    return st.fixed_dictionaries(dict(
        type=st.sampled_from(["PIXEL", "PIXEL", "PIXEL", "GAUSSIAN", "NONE"]), k=kpar(), n=st.integers(1, 9).map(lambda v: 2 * v + 1), even=st.integers(0, 9),
        f=st.integers(1, 5), norm=st.sampled_from([1.0, 1.0, 0.3, 7.0]), normalise=st.sampled_from([True, True, False]), fwhm=g.logf(0.05, 0.4),
        trunc=st.sampled_from([3.0, 5.0]), var=st.one_of(st.none(), st.integers(1, 6)), reqs=st.lists(req, min_size=1, max_size=6)))


@PROP.facet("psf-history", psf_case, quick=400, shards=2)
def psf_history(case, t):
    from lenstronomy.Data.psf import PSF

    typ = case["type"]
    t.label(typ)
    kw = dict(psf_type=typ)
    f0 = 1
    raw = None
    if typ == "PIXEL":
        f0 = case["f"]
        n = case["n"]
        if f0 > 1 and n < 2 * f0 + 1:
            n = 2 * f0 + 1
        if case["even"] == 0 and n > 5:
            n = n - 1
        raw = make_kernel(n, case["k"])
        raw = raw / raw.sum() * case["norm"]
        kw.update(kernel_point_source=raw.copy(), point_source_supersampling_factor=f0, kernel_point_source_normalisation=case["normalise"])
    elif typ == "GAUSSIAN":
        kw.update(fwhm=case["fwhm"], truncation=case["trunc"], pixel_size=0.1)
    if case["var"] is not None:
        v = 2 * case["var"] + 1
        vm = np.random.RandomState(1).uniform(0.1, 1, (v, v))
        kw.update(psf_variance_map=vm.copy())
    psf = PSF(**kw)
    norm = case["norm"] if (typ == "PIXEL" and not case["normalise"]) else 1.0

    def fresh(pix):
        p = PSF(**kw)
        if pix is not None:
            p.set_pixel_size(pix)
        return p

    pix = None
    for r in case["reqs"]:
        what = r[0]
        if what == "size":
            pix = 0.05 * r[1]
            psf.set_pixel_size(pix)
            continue
        ref = fresh(pix)
        if what == "super":
            a = psf.kernel_point_source_supersampled(r[1], updata_cache=r[2])
            b = ref.kernel_point_source_supersampled(r[1])
            t.equal(len(a) % 2, 1, "supersampled kernel has odd size")
        elif what == "native":
            a, b = psf.kernel_point_source, ref.kernel_point_source
            t.equal(len(a) % 2, 1, "kernel has odd size")
        elif what == "pixel":
            a, b = psf.kernel_pixel, ref.kernel_pixel
        else:
            a, b = psf.psf_variance_map, ref.psf_variance_map
            t.equal(np.shape(a), np.shape(ref.kernel_point_source) if (typ != "GAUSSIAN" or case["var"] is None) else np.shape(b), "variance map has kernel size")
            if case["var"] is not None and typ == "PIXEL":
                c = (len(a) - 1) // 2
                t.close(a[c, c], vm[(v - 1) // 2, (v - 1) // 2] / (1.0 if not case["normalise"] else case["norm"] ** 2), "central variance", rtol=1e-8)
            elif case["var"] is None:
                t.close(np.sum(np.abs(a)), 0.0, "no variance map: zero")
        t.close(a, b, "%s %s: same as the first request of a new PSF" % (what, r[1]), rtol=1e-9, atol=1e-12)
        if what != "var":
            t.close(np.sum(a), norm, "%s: normalisation" % what, rtol=1e-7)
    # content
    nat = psf.kernel_point_source
    ref = fresh(pix)
    if typ == "PIXEL":
        t.same(kw["kernel_point_source"], raw, "kernel passed in is not modified")
        k = raw / raw.sum() * norm
        if len(raw) % 2 == 1:
            same_centre(t, nat, degrade(k, f0), "native kernel is the binned input kernel", rtol=1e-7, atol=1e-9 * norm)
            if f0 > 1:
                t.close(ref.kernel_point_source_supersampled(f0), k, "supersampled kernel at the input resolution is the input kernel", rtol=1e-8)
                t.close(psf.kernel_point_source_supersampled(f0), k, "supersampled kernel at the input resolution, after other requests", rtol=1e-8)
        for f in (3, 5):
            if f != f0:
                s = ref.kernel_point_source_supersampled(f)
                same_centre(t, degrade(s, f), nat, "binning the kernel supersampled by %d gives the native kernel" % f, rtol=1e-5, atol=1e-7 * norm)
    elif typ == "GAUSSIAN":
        dp = pix if pix is not None else 0.1
        sg = case["fwhm"] / (2 * np.sqrt(2 * np.log(2)))
        for f, k in ((1, nat), (2, psf.kernel_point_source_supersampled(2)), (3, psf.kernel_point_source_supersampled(3))):
            n = len(k)
            t.equal(n, int(2 * max(round(case["trunc"] * sg / dp * f), 1) + 1), "size of the Gaussian kernel")
            y, x = (np.mgrid[0:n, 0:n] - (n - 1) / 2.0) * dp / f
            e = np.exp(-(x ** 2 + y ** 2) / (2 * sg ** 2))
            t.close(k, e / e.sum(), "Gaussian kernel with factor %d" % f, rtol=1e-7, atol=1e-12)
        t.close(psf.fwhm, case["fwhm"], "fwhm", rtol=1e-10)
    t.nontrivial(len(case["reqs"]) > 1)


# ---------------------------------------------------------------- kernel utilities
def util_case():
    return st.fixed_dictionaries(dict(k=kpar(), n=st.integers(2, 12).map(lambda v: 2 * v + 1), f=st.integers(2, 6), norm=st.sampled_from([1.0, 0.4, 12.0]), sub=st.integers(1, 5),
                                      size=st.integers(1, 20)))


@PROP.facet("kernel-utilities", util_case, quick=300, shards=2)
def kernel_utilities(case, t):
    from lenstronomy.Util import kernel_util as ku

    n, f, nm = case["n"], case["f"], case["norm"]
    k = make_kernel(n, case["k"])
    k = k / k.sum() * nm
    k0 = k.copy()
    t.close(ku.kernel_norm(k), k0 / nm, "kernel_norm", rtol=1e-9)
    t.same(k, k0, "kernel_norm does not modify its input")
    d = ku.degrade_kernel(k, f)
    t.equal(len(d) % 2, 1, "degraded kernel is odd")
    same_centre(t, d, degrade(k0, f), "degrade_kernel (factor %d, size %d)" % (f, n), atol=1e-9 * nm)
    t.same(k, k0, "degrade_kernel does not modify its input")
    s = ku.subgrid_kernel(k, f, odd=True, num_iter=5)
    t.same(k, k0, "subgrid_kernel does not modify its input")
    t.close(np.sum(s), nm, "subgrid_kernel keeps the normalisation", rtol=1e-7)
    t.equal(len(s) % 2, 1, "subgrid_kernel with odd=True has odd size")
    s1 = ku.subgrid_kernel(k / nm, f, odd=True, num_iter=5)
    t.close(s, s1 * nm, "subgrid_kernel scales with the kernel", rtol=1e-6, atol=1e-9 * nm)
    if f % 2 == 1:
        same_centre(t, degrade(s, f), k0, "binning the sub-sampled kernel", rtol=1e-6, atol=1e-8 * nm)
    # the sub-grid kernel of the transposed / mirrored kernel is transposed / mirrored
    t.close(ku.subgrid_kernel(k.T, f, odd=True, num_iter=5), s.T, "subgrid_kernel of the transposed kernel", rtol=1e-6, atol=1e-8 * nm)
    t.close(ku.subgrid_kernel(k[:, ::-1], f, odd=True, num_iter=5), s[:, ::-1], "subgrid_kernel of the mirrored kernel", rtol=1e-6, atol=1e-8 * nm)
    # split: coarse outer part + fine inner part add up to the kernel
    big = make_kernel(f * 7 if (f * 7) % 2 else f * 7 + 1, dict(case["k"], sig=case["k"]["sig"] * f))
    big = big / big.sum()
    b0 = big.copy()
    nsub = 2 * (case["sub"] % 3) + 1
    lo, hi = ku.split_kernel(big, supersampling_kernel_size=nsub, supersampling_factor=f, normalized=True)
    t.same(big, b0, "split_kernel does not modify its input")
    same_centre(t, lo + 0.0, degrade(b0, f) - _padto(degrade(_embed(hi, len(big)), f), len(degrade(b0, f))), "split_kernel: outer part", atol=1e-9)
    m = len(hi)
    i0 = (len(big) - m) // 2
    t.same(hi, b0[i0:i0 + m, i0:i0 + m], "split_kernel: inner part")
    lo2, hi2 = ku.split_kernel(big, supersampling_kernel_size=nsub, supersampling_factor=f, normalized=False)
    t.close(lo2, lo / f ** 2, "split_kernel, surface-brightness units", rtol=1e-8, atol=1e-12)
    # cropping
    cut = 2 * min(case["sub"], (n - 1) // 2) + 1
    c = ku.cut_psf(k, cut)
    j = (n - cut) // 2
    ref = k0[j:j + cut, j:j + cut]
    t.close(c, ref / ref.sum(), "cut_psf", rtol=1e-8)
    t.same(ku.cut_psf(k, cut, normalisation=False), ref, "cut_psf without normalisation")
    t.same(k, k0, "cut_psf does not modify its input")
    # size matching keeps the centre
    z = 2 * case["size"] + 1
    mk = ku.match_kernel_size(k, z)
    t.equal(np.shape(mk), (z, z), "match_kernel_size")
    w = min(z, n)
    a = (z - w) // 2
    b = (n - w) // 2
    t.same(mk[a:a + w, a:a + w], k0[b:b + w, b:b + w], "match_kernel_size keeps the centre")
    t.close(np.sum(mk), np.sum(k0[b:b + w, b:b + w]), "match_kernel_size pads with zeros", rtol=1e-9)
    # pixel-size change of a well-sampled kernel
    g2 = ku.kernel_gaussian(31, 0.1, 0.8)
    out = ku.kernel_pixelsize_change(g2, 0.1, 0.1 * f / 2.0 if f > 2 else 0.05)
    t.close(np.sum(out), 1.0, "kernel_pixelsize_change normalisation", rtol=1e-8)
    t.close(out, out[::-1, ::-1], "kernel_pixelsize_change keeps the symmetry", rtol=1e-6, atol=1e-10)
    t.nontrivial(True)


def _embed(h, n):
    out = np.zeros((n, n))
    i = (n - len(h)) // 2
    out[i:i + len(h), i:i + len(h)] = h
    return out


def _padto(k, n):
    d = (n - len(k)) // 2
    return np.pad(k, d) if d > 0 else k


def centre_case():
    return st.fixed_dictionaries(dict(sig=g.fl(1.5, 2.2), sh=st.tuples(g.fl(-0.49, 0.49), g.fl(-0.49, 0.49)).map(list), n=st.integers(7, 12).map(lambda v: 2 * v + 1),
                                      im=st.tuples(st.integers(16, 40), st.integers(16, 40)).map(list), pos=st.tuples(g.fl(0.0, 1.0), g.fl(0.0, 1.0)).map(list),
                                      ks=st.integers(1, 6).map(lambda v: 2 * v + 1), e=g.fl(1.5, 3)))


def moments(k):
    n = len(k)
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2.0
    return np.sum(k * x) / np.sum(k), np.sum(k * y) / np.sum(k)


@PROP.facet("centring-and-cutouts", centre_case, quick=250)
def centring(case, t):
    from lenstronomy.Util import kernel_util as ku

    n, s = case["n"], case["sig"]
    dx, dy = case["sh"]
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2.0
    true = np.exp(-(x ** 2 + y ** 2) / (2 * s ** 2))
    true /= true.sum()
    k = np.exp(-((x - dx) ** 2 + (y - dy) ** 2) / (2 * s ** 2))
    k /= k.sum()
    k0 = k.copy()
    c = ku.center_kernel(k, iterations=20)
    t.same(k, k0, "center_kernel does not modify its input")
    t.close(np.sum(c), 1.0, "center_kernel normalisation", rtol=1e-8)
    mx, my = moments(c)
    t.close([mx, my], [0, 0], "centroid after center_kernel", atol=0.1)
    # de-shifting a shifted kernel: linear interpolation is inverted, so the result reproduces it when shifted again
    d = ku.de_shift_kernel(k, shift_x=-dx, shift_y=-dy, iterations=20)
    m0 = moments(d)
    t.close(m0, [0, 0], "centroid after de_shift_kernel", atol=0.1)
    # even kernels
    ev = make_kernel(2 * (n // 2), dict(sig=s, e=0.0, dx=0.0, dy=0.0))
    ev = ev / ev.sum()
    od = ku.kernel_make_odd(ev)
    t.equal(len(od) % 2, 1, "kernel_make_odd has odd size")
    t.close(moments(od), [0, 0], "kernel_make_odd keeps the centre", atol=0.02)
    # cut-outs of a (non-square) image
    ny, nx = case["im"]
    rng = np.random.RandomState(3)
    im = rng.normal(size=(ny, nx))
    i0 = im.copy()
    ks = case["ks"]
    px, py = case["pos"][0] * (nx - 1), case["pos"][1] * (ny - 1)
    ix, iy = int(round(px)), int(round(py))
    cut = ku.cutout_source(px, py, im, ks, shift=False)
    h = (ks - 1) // 2
    pad = np.pad(im, h)
    t.same(cut, pad[iy:iy + ks, ix:ix + ks], "cutout_source")
    t.same(im, i0, "cutout_source does not modify the image")
    # amplitude estimate of an isolated source
    if ks >= 5:
        yy, xx = np.mgrid[0:ny, 0:nx]
        amp = 5.0
        img = amp * np.exp(-((xx - ix) ** 2 + (yy - iy) ** 2) / (2 * s ** 2))
        ker = np.exp(-(x ** 2 + y ** 2) / (2 * s ** 2))
        norm = ker.sum()
        est = ku.estimate_amp(img, ix, iy, ker / norm)
        jx, jy = int(round(ix - 0.49999)), int(round(iy - 0.49999))
        if 3 < jx < nx - 4 and 3 < jy < ny - 4:
            t.close(est, amp * norm, "estimate_amp of an isolated source", rtol=1e-6)
    t.nontrivial(nx != ny)
