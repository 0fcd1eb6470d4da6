"""P27: Fresnel and double-wedge filters are their documented operators."""
import numpy as np
import algotom.prep.conversion as conv
import algotom.prep.filtering as filt
from vlib import noise, smooth, digest

RULE = ("a class is one (filter, shape parity, dtype, option) combination "
        "compared with an independent frequency-domain formula and with the "
        "outputs for transformed inputs")
ASSUMPTIONS = ["intensities are positive when the logarithm is applied"]


def freq(num):
    """Integer frequencies in the order of the FFT."""
    return np.rint(np.fft.fftfreq(num) * num)


def held(num, pad):
    """Frequencies of a padded axis, held at the range of the image."""
    return np.clip(freq(num + 2 * pad), -(num // 2), (num - 1) // 2) / num


def image(case, shape):
    kind = case.choice([np.float64, np.float32, np.uint16], "dtype")
    if kind is np.uint16:
        return case.rng.integers(1, 60000, shape).astype(kind)
    mat = noise(case.rng, shape, 0.2, 2.0)
    return mat.astype(kind)


def fresnel_ref(mat, ratio, dim, pad, log, window=None):
    mat = mat.astype(np.float64)
    mat = -np.log(mat) if log else mat
    h, w = mat.shape
    side = ((pad, pad), (pad, pad)) if dim == 2 else ((0, 0), (pad, pad))
    big = np.pad(mat, side, mode="edge")
    if window is not None:
        gain = np.fft.ifftshift(np.pad(window, side, mode="edge"),
                                axes=(0, 1) if dim == 2 else 1)
    else:
        gain = 1 + ratio * (held(w, pad)[None] ** 2 +
                            (held(h, pad)[:, None] ** 2 if dim == 2 else 0))
    if dim == 2:
        out = np.fft.ifft2(np.fft.fft2(big) / gain)[pad:pad + h, pad:pad + w]
    else:
        out = np.fft.ifft(np.fft.fft(big, axis=1) / gain,
                          axis=1)[:, pad:pad + w]
    return np.exp(-np.real(out)) if log else np.real(out)


def fresnel(case):
    shape = case.integer(1, 40), case.integer(1, 40)
    mat = image(case, shape)
    dim = case.cycle([1, 2], "dim")
    ratio = case.choice([0.0, 1, 10, 300.0], "ratio")
    pad = case.choice([0, 1, 20, 150], "pad")
    log = case.choice([True, False], "log")
    window = None
    if case.choice([0, 0, 1], "window"):
        window = noise(case.rng, shape, 1, 3)
    before = digest(mat)
    kw = dict(dim=dim, window=window, pad=pad, apply_log=log)
    got = filt.fresnel_filter(mat, ratio, **kw)
    case.check(digest(mat) == before, "mutated", "input changed")
    case.check(got.dtype == np.float32, "dtype", str(got.dtype))
    top = float(np.abs(mat).max())
    want = fresnel_ref(mat, ratio, dim, pad, log, window)
    case.near(got, want, "formula", "filtered image", rtol=1e-4, scale=top)
    tiny = 1e-4 * top
    # linear (without the logarithm), multiplicative (with it)
    other = image(case, shape)
    if log:
        one = filt.fresnel_filter(mat * 1.0 * other, ratio, **kw)
        two = np.float64(got) * filt.fresnel_filter(other, ratio, **kw)
        case.near(one, two, "multiplicative", "product of images", rtol=1e-3,
                  scale=float(np.abs(two).max()))
    else:
        one = filt.fresnel_filter(2.0 * mat - 3.0 * other, ratio, **kw)
        two = 2.0 * got - 3.0 * filt.fresnel_filter(other, ratio, **kw)
        case.near(one, two, "linear", "combination", atol=tiny * 1e1,
                  scale=float(max(top, other.max())))
    if window is None:
        flat = np.full(shape, 0.7)
        case.near(filt.fresnel_filter(flat, ratio, **kw), flat, "constant",
                  "constant image", rtol=1e-5)
        if ratio == 0:
            case.near(got, mat, "identity", "ratio of zero", rtol=1e-4)
        if dim == 1:
            i = case.integer(0, shape[0] - 1)
            row = filt.fresnel_filter(mat[i:i + 1], ratio, **kw)
            case.near(row[0], got[i], "rows", "single row", rtol=1e-5,
                      scale=top)
            perm = case.rng.permutation(shape[0])
            case.near(filt.fresnel_filter(mat[perm], ratio, **kw), got[perm],
                      "row-order", "permuted rows", rtol=1e-5, scale=top)
        else:
            case.near(filt.fresnel_filter(mat.T, ratio, **kw).T, got,
                      "transpose", "transposed image", rtol=1e-4, scale=top)
        if not log and pad == 0:
            case.check(got.std() <= mat.std() * (1 + 1e-4) + 1e-6 * top,
                       "smoothing", "variance grew")
    case.seen("fresnel", dim, log, pad, shape[0] % 2, shape[1] % 2,
              window is None, str(mat.dtype))


def fresnel_window(case):
    h, w = case.integer(1, 50), case.integer(1, 50)
    ratio = case.uniform(0, 100)
    dim = case.cycle([1, 2], "dim")
    u = np.fft.fftshift(np.fft.fftfreq(w))[None]
    v = np.fft.fftshift(np.fft.fftfreq(h))[:, None]
    want = 1 + ratio * (u ** 2 + (v ** 2 if dim == 2 else 0 * v))
    got = filt.make_fresnel_window(h, w, ratio, dim)
    case.near(got, want, "window", "Fresnel window", rtol=1e-9)
    case.seen("window", dim, h % 2, w % 2)


def wedge_mask(case):
    h, w = case.integer(3, 120, "h"), case.integer(3, 120, "w")
    if case.index % 20 == 0:
        h, w = case.integer(2000, 4000, "h"), case.integer(2000, 3000, "w")
    radius = case.choice([case.uniform(0.5, 5), case.uniform(5, 80)],
                         "radius")
    got = filt.make_double_wedge_mask(h, w, radius)
    case.require(got.shape == (h, w), "shape", "{}".format(got.shape))
    case.check(np.all((got == 0) | (got == 1)), "binary", "values")
    v = np.abs(np.arange(h) - h // 2)[:, None] * (h - 1) / (2 * np.pi * h)
    edge = v / radius * w
    u = np.abs(np.arange(w) - w // 2)[None]
    mid = np.abs(np.arange(h) - h // 2)[:, None] <= 1
    case.check(np.all(got[np.broadcast_to(mid, (h, w))] == 1), "centre",
               "rows of low frequency")
    case.check(np.all(got[(u <= edge - 1) & ~mid] == 0), "outside",
               "frequencies no object of this radius has")
    case.check(np.all(got[(u >= edge + 1) & ~mid] == 1), "inside",
               "frequencies of an object of this radius")
    case.seen("mask", h % 2, w % 2, h > 1000, radius < 5)


def wedge_ref(sino, mask, iteration, pad):
    out = np.array(sino, dtype=np.float64)
    w = sino.shape[1]
    gain = np.fft.ifftshift(mask)
    for _ in range(iteration):
        big = np.pad(out, ((0, 0), (pad, pad)), mode="edge")
        out = np.real(np.fft.ifft2(np.fft.fft2(big) * gain))[:, pad:pad + w]
    return out


def wedge(case):
    h, w = case.integer(8, 60), case.integer(8, 60)
    kind = case.cycle(["360", "180"], "type")
    mat = image(case, (h, w))
    if kind == "180":
        # the conversion to 360 degrees rounds integers
        mat = mat.astype(np.result_type(mat, np.float32))
    center = case.uniform(0.3, 0.7) * w
    pad = case.choice([0, 5, 40, 250], "pad")
    num = case.choice([0, 1, 2, 5], "iteration")
    ratio = case.choice([0.5, 1.0, 2.0], "ratio")
    full = mat if kind == "360" else conv.convert_sinogram_180_to_360(
        mat, center)
    rows = full.shape[0]
    own = case.choice([False, False, True], "own mask")
    mask = None
    if own:
        mask = (case.rng.random((rows, w + 2 * pad)) < 0.6) * 1.0
        mask[rows // 2 - 1:rows // 2 + 2] = 1.0
    kw = dict(sino_type=kind, iteration=num, ratio=ratio, pad=pad)
    if kind == "180":
        kw["center"] = center
    before = digest(mat)
    hold = None if mask is None else digest(mask)
    got = filt.double_wedge_filter(mat, mask=mask, **kw)
    case.check(digest(mat) == before, "mutated", "sinogram changed")
    case.check(mask is None or digest(mask) == hold, "mutated-mask", "mask")
    case.require(got.shape == (h, w), "shape", "{}".format(got.shape))
    use = filt.make_double_wedge_mask(rows, w + 2 * pad, ratio * w / 2) \
        if mask is None else mask
    top = float(np.abs(mat).max())
    case.near(got, wedge_ref(full, use, num, pad)[:h], "formula",
              "filtered sinogram", rtol=1e-5, scale=top)
    other = image(case, (h, w)) * 1.0
    one = filt.double_wedge_filter(2.0 * mat - 3.0 * other, mask=mask, **kw)
    two = 2.0 * got - 3.0 * filt.double_wedge_filter(other, mask=mask, **kw)
    case.near(one, two, "linear", "combination", rtol=1e-4,
              scale=float(max(top, other.max())))
    flat = np.full((h, w), 1.5)
    case.near(filt.double_wedge_filter(flat, mask=mask, **kw), flat,
              "constant", "constant sinogram", rtol=1e-5)
    func = filt.double_wedge_filter
    case.raises(ValueError, "type", "sinogram type", func, mat, center,
                sino_type="90")
    case.raises(ValueError, "no-center", "no centre", func, mat)
    case.raises(ValueError, "mask-shape", "mask of another shape", func, mat,
                center, sino_type=kind, pad=pad,
                mask=np.ones((rows, w + 2 * pad + 1)))
    case.seen("wedge", kind, pad, num, own, rows % 2, w % 2, str(mat.dtype))


def consistent(case):
    """A full sinogram of a small object passes; an outer object does not."""
    w = case.integer(60, 110, "w")
    n = 2 * case.integer(40, 70) + 1
    c = (w - 1) / 2.0
    kind = case.cycle(["360", "180"], "type")
    ang = np.linspace(0, 2 * np.pi, n)
    u = np.arange(w) - c

    def blob(dist, phase, sigma):
        pos = dist * np.cos(ang - phase)[:, None]
        return np.exp(-(u[None] - pos) ** 2 / 2 / sigma ** 2)
    sino = np.zeros((n, w))
    for _ in range(3):
        sino += case.uniform(.3, 1) * blob(
            case.uniform(0, .25) * w, case.uniform(0, 6.28),
            case.uniform(.03, .06) * w)
    far = blob(case.uniform(1.0, 1.6) * w, case.uniform(0, 6.28), .05 * w)
    rows = n if kind == "360" else n // 2 + 1
    kw = dict(sino_type=kind, iteration=case.choice([1, 3, 5], "iteration"))
    if kind == "180":
        kw["center"] = c
    got = filt.double_wedge_filter(sino[:rows], **kw)
    err = np.sqrt(np.mean((got - sino[:rows]) ** 2)) / sino.std()
    case.check(err < LIMIT, "consistent", "consistent sinogram changed by "
               "{:.3f}".format(err))
    mix = filt.double_wedge_filter((sino + far)[:rows], **kw)
    left = mix - got
    keep = left - left.mean()
    ratio = keep.std() / far[:rows].std()
    case.check(ratio < FAR, "far", "{:.2f} of the outer object remains"
               .format(ratio))
    case.seen("consistent", kind, kw["iteration"], w % 2)


LIMIT, FAR = 0.1, 0.2


def register(ctx):
    ctx.family("fresnel", 360, 8000, fresnel)
    ctx.family("fresnel_window", 60, 1200, fresnel_window)
    ctx.family("wedge_mask", 120, 2000, wedge_mask)
    ctx.family("wedge", 200, 4000, wedge)
    ctx.family("consistent", 40, 800, consistent)
    ctx.expect_tags("fresnel", 60)
    ctx.expect_tags("wedge", 40)
    ctx.expect_tags("wedge_mask", 8)
