"""P12: conversions between 180/360-degree sinograms keep the geometry."""
import numpy as np
import algotom.prep.conversion as conv
import algotom.prep.correction as corr
from vlib import gaussian_sino, noise

RULE = ("a class is one (conversion, side of the rotation axis, integer or "
        "fractional centre, normalization, log, container dtype) combination "
        "compared with the analytic sinogram in the converted geometry")
ASSUMPTIONS = ["a 360-degree scan includes both end angles (odd number of "
               "rows)", "objects vary slowly compared with a pixel"]


def full_sino(case, ncol, center, nrow, radius, smin=3.0, smax=6.0):
    sino, angles, blobs = gaussian_sino(
        case.rng, ncol, nrow, center=center, sweep=2 * np.pi, num=5,
        limit=radius / ncol, smin=smin, smax=smax)
    return sino, angles, blobs


def evaluate(blobs, angles, ncol, center):
    """Sinogram of the same blobs on another detector."""
    u = np.arange(ncol) - center
    out = np.zeros((len(angles), ncol))
    for (x, y, sig, amp) in blobs:
        s = x * np.cos(angles) - y * np.sin(angles)
        out += amp * sig * np.sqrt(2 * np.pi) * np.exp(
            -(u[None, :] - s[:, None]) ** 2 / (2 * sig ** 2))
    return out


def geometry(case):
    """Detector with the axis near one side; overlap may be fractional."""
    ncol = case.integer(60, 90, "ncol")
    side = case.choice([0, 1], "side")
    overlap = case.integer(16, 36)
    frac = case.cycle([0.0, 0.5, -0.5, 0.25, -0.3, 0.4], "frac")
    overlap = overlap + frac
    center = (overlap - 1) / 2.0 if side == 0 else ncol - (overlap + 1) / 2.0
    half = ncol - overlap / 2.0
    n = case.integer(20, 40)
    case.note(overlap=overlap, center=center, rows=2 * n + 1)
    sino, angles, blobs = full_sino(case, ncol, center, 2 * n + 1,
                                    max(half - 22.0, 3.0))
    form = case.choice(["center", "tuple"], "form")
    cor = center if form == "center" else (overlap, side)
    return ncol, side, overlap, frac, n, sino, angles, blobs, cor, form


def to_180(case):
    ncol, side, overlap, frac, n, sino, angles, blobs, cor, form = \
        geometry(case)
    norm = case.choice([True, False], "norm")
    dtype = case.choice([np.float32, np.float64, np.uint16], "dtype")
    level = 40.0
    data = sino + level
    scale = 1.0
    if dtype == np.uint16:
        scale = 400.0
    data = np.round(data * scale) if dtype == np.uint16 else data
    kw = {"norm": norm}
    weights = case.choice(["ramp", "ramp", "cut", "own"], "weights")
    if weights != "ramp":
        # the caller's own weights: adding up to one over the overlap
        num = int(np.round(overlap + 1.0e-3))
        prof = np.float64(np.arange(num) < num // 2) if weights == "cut" \
            else case.rng.uniform(0, 1, (n + 1, num))
        prof = prof * np.ones((n + 1, 1))
        # border columns of a shifted image are not interpolated
        prof[:, :4], prof[:, -4:] = 1, 0
        w1, w2 = np.ones((2, n + 1, ncol))
        if side == 1:
            w1[:, -num:], w2[:, :num] = prof, 1 - prof
        else:
            w1[:, :num], w2[:, -num:] = 1 - prof, prof
        kw.update(wei_mat1=w1, wei_mat2=w2)
    got, new_cor = conv.convert_sinogram_360_to_180(data.astype(dtype), cor,
                                                    **kw)
    width = 2 * ncol - int(np.round(overlap + 1.0e-3))
    case.require(got.shape == (n + 1, width), "to180-shape",
                 "{} instead of {}".format(got.shape, (n + 1, width)))
    want = evaluate(blobs, angles[:n + 1], width, new_cor) + level
    cols = slice(6, width - 6)
    # slope of the sinogram is below amp*sig*2.5/sig*0.6 per pixel; cubic
    # interpolation is good to a few thousandths of the peak
    case.near(got[:, cols] / scale, want[:, cols], "to180",
              "converted sinogram at the returned centre {}".format(new_cor),
              rtol=0, atol=0.06)
    case.near(new_cor, (width - 1) / 2.0, "to180-centre",
              "axis in the middle of the converted sinogram", rtol=0,
              atol=1e-6)
    extra = width + case.integer(1, 9)
    wide, cor2 = conv.convert_sinogram_360_to_180(
        data.astype(dtype), cor, total_width=extra, **kw)
    case.require(wide.shape == (n + 1, extra), "to180-total", "total width")
    case.near(wide[:, :width], got, "to180-total", "padded on the right")
    case.near(cor2, new_cor, "to180-total", "axis unchanged", rtol=0,
              atol=1e-9)
    case.seen("to180", side, frac, norm, form, np.dtype(dtype).name, weights)


def to_360(case):
    ncol = case.integer(60, 110, "ncol")
    offset = case.choice([0.0, 0.5, -0.5, case.uniform(-9, 9),
                          float(case.integer(-8, 8))], "offset")
    center = (ncol - 1) / 2.0 + offset
    radius = max(ncol / 2.0 - 2 * abs(offset) - 24.0, 1.0)
    n = case.integer(10, 40, "n")
    sino, angles, blobs = full_sino(case, ncol, center, 2 * n + 1, radius,
                                    3.0, 5.0)
    half = sino[:n + 1].astype(case.choice([np.float32, np.float64]))
    case.note(center=center)
    got = conv.convert_sinogram_180_to_360(half, center)
    case.require(got.shape == (2 * n + 1, ncol), "to360-shape",
                 "{}".format(got.shape))
    case.equal(got[:n + 1], half, "to360-first", "given rows are kept")
    cols = slice(3, ncol - 3)
    case.near(got[:, cols], sino[:, cols], "to360",
              "mirrored half of the scan", rtol=0, atol=0.04)
    case.near(got[-1, cols], got[0, cols], "to360-end",
              "0 and 360 degrees agree", rtol=0, atol=0.04)
    case.seen("to360", offset == 0, abs(offset) % 1 == 0, np.sign(offset))


def extend(case):
    ncol, side, overlap, frac, n, sino, angles, blobs, cor, form = \
        geometry(case)
    log = case.choice([True, False], "apply_log")
    sino = sino * 0.1
    data = np.exp(-sino) if log else sino
    scale = 1.0
    dtype = case.choice([np.float32, np.float64], "dtype")
    if not log and case.choice([True, False], "integer"):
        dtype, scale = np.int32, 5000.0
        data = np.round(data * scale)
    got, new_cor = conv.extend_sinogram(data.astype(dtype), cor,
                                        apply_log=log)
    width = 2 * ncol - int(np.round(overlap + 1.0e-3))
    case.require(got.shape == (2 * n + 1, width), "extend-shape",
                 "{} instead of {}".format(got.shape, (2 * n + 1, width)))
    case.near(new_cor, (width - 1) / 2.0, "extend-centre", "axis", rtol=0,
              atol=1e-6)
    # opposite views add up to twice the full projection, which is what
    # makes back-projection over 360 degrees right
    want = evaluate(blobs, angles, width, new_cor) * 0.1
    total = got[:n + 1] + np.fliplr(got[n:])
    cols = slice(6, width - 6)
    case.near(0.5 * total[:, cols] / scale, want[:n + 1, cols],
              "extend-sum", "opposite extended views", rtol=0, atol=0.006)
    blind = slice(ncol, width) if side == 1 else slice(0, width - ncol)
    case.near(got[:, blind] / scale, np.zeros_like(want[:, blind]),
              "extend-blind", "columns outside the detector", rtol=0,
              atol=1e-5)
    case.seen("extend", side, frac, log, form, np.dtype(dtype).name)


def upsample(case):
    ncol = case.integer(40, 60, "ncol")
    n = case.integer(50, 70, "n")
    kind = case.cycle(["180", "360"], "type")
    center = (ncol - 1) / 2.0
    if kind == "180":
        center += case.choice([0.0, 0.5, -1.0])
    scale = case.choice([2, 2, 4], "scale")
    num = int(scale / 2)
    rows = (2 * n) * 2 ** num + 1
    sino, angles, blobs = full_sino(case, ncol, center, rows, ncol * 0.16,
                                    3.0, 5.0)
    step = 2 ** num
    coarse = sino[::step]
    kw = case.cycle([{}, {"pad": 20}, {"iteration": 2}, {"pad": 31},
                     {"iteration": 3, "pad": 70}], "options")
    if kind == "180":
        got = corr.upsample_sinogram(coarse[:n + 1], scale, center=center,
                                     sino_type="180", **kw)
        want = sino[:n * step + 1]
    else:
        got = corr.upsample_sinogram(coarse, scale, sino_type="360", **kw)
        want = sino
    case.require(got.shape == want.shape, "upsample-shape",
                 "{} instead of {}".format(got.shape, want.shape))
    peak = want.max()
    err = np.abs(got - want)[:, 4:-4]
    case.note(rel=float(err.max() / peak))
    case.check(err.max() <= 0.10 * peak and err.mean() <= 0.015 * peak,
               "upsample", "interpolated views: max {:.3g}, mean {:.3g} of "
               "the peak".format(err.max() / peak, err.mean() / peak))
    case.seen("upsample", kind, scale, *sorted(kw))
    case.raises(ValueError, "upsample-odd", "odd scale",
                corr.upsample_sinogram, coarse, 3, sino_type="360")
    case.raises(ValueError, "upsample-centre", "no centre for 180 degrees",
                corr.upsample_sinogram, coarse, 2, sino_type="180")


def register(ctx):
    ctx.family("to_180", 90, 1800, to_180)
    ctx.family("to_360", 90, 1800, to_360)
    ctx.family("extend", 90, 1800, extend)
    ctx.family("upsample", 30, 300, upsample)
    ctx.expect_tags("to_180", 25)
    ctx.expect_tags("to_360", 5)
    ctx.expect_tags("extend", 25)
    ctx.expect_tags("upsample", 2)
