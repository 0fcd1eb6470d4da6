"""P26: calibration returns the geometry the test image was made with."""
import warnings
import numpy as np
import scipy.ndimage as ndi
import algotom.util.calibration as calib
from vlib import noise, smooth, digest

RULE = ("a class is one (function, polarity, option, size parity, "
        "geometry range) combination measured against the geometry used to "
        "make the image or the points")
ASSUMPTIONS = ["dots cover less than half of the image and do not touch",
               "the tilt is below 10 degrees, the roll away from 90 degrees"]


def disk(shape, cy, cx, rad, soft=None):
    y, x = np.ogrid[:shape[0], :shape[1]]
    dist = np.hypot(y - cy, x - cx)
    if soft is None:
        return (dist <= rad) * 1.0
    return np.clip((rad - dist) / soft + 0.5, 0, 1)


# --------------------------------------------------------- backgrounds

def med(mat, size):
    pad = np.pad(mat, ((size // 2, (size - 1) // 2),) * 2, mode="symmetric")
    win = np.lib.stride_tricks.sliding_window_view(pad, (size, size))
    win = np.sort(win.reshape(mat.shape + (-1,)), axis=-1)
    return win[..., win.shape[-1] // 2]


def background(case):
    shape = case.integer(20, 60), case.integer(20, 60)
    kind = case.choice([np.float64, np.float32, np.uint16], "dtype")
    mat = (2000 * noise(case.rng, shape, 0.5, 1.5)).astype(kind)
    which = case.cycle(["median", "fft"], "which")
    before = digest(mat)
    if which == "median":
        size = case.choice([3, 5, 9, 15], "size")
        if case.choice([0, 1], "zeros"):
            mat[:12, :12] = 0
            before = digest(mat)
        got = calib.normalize_background(mat, size)
        back = med(mat.astype(np.float64), size)
        mean = back.mean()
        fill = np.float64(kind(mean))
        back[back == 0] = fill
        want = mean * mat / back
        tol = 1e-4
    else:
        sigma = case.choice([3, 5, 9], "sigma")
        pad = case.choice([None, 0, 10], "pad")
        got = calib.normalize_background_based_fft(mat, sigma, pad)
        h, w = shape
        sx = sigma if h > w else int(np.ceil(sigma / (1.0 * h / w)))
        sy = sigma if h <= w else int(np.ceil(sigma / (1.0 * w / h)))
        p = int(0.1 * min(shape)) if pad is None else pad
        big = np.pad(mat.astype(np.float64), p, mode="reflect")

        def gauss(n, s):
            return np.exp(-(np.fft.fftfreq(n) * n) ** 2 / 2 / s ** 2)
        back = np.real(np.fft.ifft2(
            np.fft.fft2(big) * gauss(big.shape[0], sy)[:, None]
            * gauss(big.shape[1], sx)))[p:p + h, p:p + w]
        want = back.mean() * mat / back
        tol = 1e-4
    case.check(digest(mat) == before, "mutated", "input changed")
    case.near(got, want, which, "corrected image", rtol=tol)
    func = calib.normalize_background_based_fft
    if which == "median":
        def func(image, size=5):
            return calib.normalize_background(image, size)
    flat = np.full(shape, 7.0)
    case.near(func(flat), flat, "flat", "flat image", rtol=1e-9)
    # a smooth background disappears
    h, w = shape
    y, x = np.mgrid[:h, :w]
    ramp = 100.0 * (1 + 0.3 * x / w + 0.2 * y / h)
    out = func(ramp, 3 if which == "median" else 9)
    inner = out[h // 4:3 * h // 4, w // 4:3 * w // 4]
    case.check(np.std(inner) / inner.mean() < 0.5 * np.std(
        ramp[h // 4:3 * h // 4, w // 4:3 * w // 4]) / 125, "ramp",
        "background of {:.3f} remains".format(np.std(inner) / inner.mean()))
    case.near(func(mat * 4.0), 4.0 * func(mat * 1.0), "scale", "4 times",
              rtol=1e-5)
    case.seen(which, str(mat.dtype), h % 2, w % 2, h > w)


# ------------------------------------------------------------ binarize

def scene(case, shape, num, small=False):
    """Separate dots; returns the soft image and the list of (y, x, r)."""
    dots, tries = [], 0
    lo = 4
    hi = max(5, min(shape) // 8)
    while len(dots) < num and tries < 400:
        tries += 1
        r = case.integer(lo, hi)
        cy = case.uniform(r + 4, shape[0] - r - 5)
        cx = case.uniform(r + 4, shape[1] - r - 5)
        if all(np.hypot(cy - a, cx - b) > r + c + 6 for a, b, c in dots):
            dots.append((cy, cx, r))
    soft = np.zeros(shape)
    for cy, cx, r in dots:
        soft = np.maximum(soft, disk(shape, cy, cx, r, 1.0))
    return soft, dots


def binarize(case):
    shape = case.integer(60, 120), case.integer(60, 120)
    bgr = case.cycle(["bright", "dark"], "bgr")
    soft, dots = scene(case, shape, case.integer(1, 4))
    level = case.uniform(0.5, 3)
    mat = level * (1 + (-0.6 if bgr == "bright" else 0.9) * soft)
    mat = mat + 0.01 * level * case.rng.standard_normal(shape)
    if case.choice([0, 1], "integers"):
        mat = np.clip(mat * 5000, 0, 65535).astype(np.uint16)
        level = level * 5000
    before = digest(mat)
    auto = case.choice([True, False], "auto")
    kw = dict(bgr=bgr, norm=False,
              denoise=case.choice([True, False], "denoise"))
    if not auto:
        mid = level * (0.7 if bgr == "bright" else 1.45)
        kw["threshold"] = mid
    else:
        work = ndi.median_filter(mat, 3) if kw["denoise"] else mat
        value = calib.calculate_threshold(work, bgr) / level
        if not (0.5 < value < 0.9 if bgr == "bright" else 1.1 < value < 1.75):
            # the extrapolated threshold is not between the two levels
            return
    got = calib.binarize_image(mat, **kw)
    case.check(digest(mat) == before, "mutated", "input changed")
    case.require(got.shape == shape and got.dtype.kind in "iu", "type",
                 "{} {}".format(got.shape, got.dtype))
    case.check(np.all((got == 0) | (got == 1)), "binary", "values")
    core = soft > 0.99
    core = ndi.binary_erosion(core, iterations=1)
    far = ~ndi.binary_dilation(soft > 0, iterations=2)
    case.check(np.all(got[core] == 1), "core",
               "{} pixels of the dots missed".format((got[core] == 0).sum()))
    case.check(np.all(got[far] == 0), "background",
               "{} background pixels selected".format(got[far].sum()))
    if not auto:
        work = ndi.median_filter(np.abs(mat), 3) if kw["denoise"] else mat
        raw = (work > kw["threshold"]) * 1
        if raw.mean() > 0.5:
            raw = 1 - raw
        case.equal(got, ndi.binary_fill_holes(raw) * 1, "threshold",
                   "given threshold")
        for bad in (float(work.min()) - 1, float(work.max()) + 1):
            case.raises(ValueError, "range", "threshold out of range",
                        calib.binarize_image, mat, bad)
    keep = calib.binarize_image(mat, invert=False, **kw)
    if bgr == "bright":
        case.check(keep[far].mean() > 0.99, "no-invert", "bright background")
    else:
        case.equal(keep, got, "no-invert", "dark background")
    # a hole in a dot is filled
    cy, cx, r = dots[0]
    if r >= 7:
        hole = mat.copy()
        hole[disk(shape, cy, cx, 2) > 0] = level
        kw["denoise"] = False
        kw["threshold"] = level * (0.7 if bgr == "bright" else 1.45)
        out = calib.binarize_image(hole, **kw)
        case.check(np.all(out[core] == 1), "hole", "hole is not filled")
    case.seen("binarize", bgr, auto, kw["denoise"], str(mat.dtype))


def threshold(case):
    shape = case.integer(40, 90), case.integer(40, 90)
    bgr = case.cycle(["bright", "dark"], "bgr")
    soft, _ = scene(case, shape, case.integer(1, 3))
    sign = -0.7 if bgr == "bright" else 0.7
    mat = 2.0 * (1 + sign * soft) + 0.02 * case.rng.standard_normal(shape)
    before = digest(mat)
    got = calib.calculate_threshold(mat, bgr)
    case.check(digest(mat) == before, "mutated", "input changed")
    # end of a cubic through the ordered values
    num = max(shape)
    line = ndi.zoom(np.sort(mat.ravel()), num / mat.size, mode="nearest")
    size = 2 * (len(line) // 2) - 1
    pos = np.arange(size) / size
    if bgr == "bright":
        want = np.polyval(np.polyfit(pos, line[:size], 3), pos[0])
    else:
        want = np.polyval(np.polyfit(pos, line[-size:], 3), pos[-1])
    case.near(got, want, "formula", "threshold", rtol=1e-6)
    flip = case.rng.permutation(mat.ravel()).reshape(shape)
    case.near(calib.calculate_threshold(flip, bgr), got, "order",
              "permuted pixels", rtol=1e-9)
    case.near(calib.calculate_threshold(3.0 * mat + 1.0, bgr),
              3.0 * got + 1.0, "scale", "rescaled image", rtol=1e-9)
    other = "dark" if bgr == "bright" else "bright"
    case.near(calib.calculate_threshold(-mat, other), -got, "negative",
              "negative image", rtol=1e-9)
    case.seen("threshold", bgr)


# ---------------------------------------------------------------- dots

def dots(case):
    shape = case.integer(60, 120), case.integer(60, 120)
    mask = np.zeros(shape, case.choice([np.int16, np.uint8, np.float32,
                                        bool, np.int64], "dtype"))
    owner = np.zeros(shape, int)
    sizes = []
    for _ in range(case.integer(1, 7)):
        r = case.integer(1, 9)
        cy = case.integer(r + 1, shape[0] - r - 2)
        cx = case.integer(r + 1, shape[1] - r - 2)
        new = disk(shape, cy, cx, r) > 0
        if case.choice([0, 1]) and r > 4:
            # an L shape: its box holds foreign pixels
            new[cy - r + 3:cy + r + 1, cx - r + 3:cx + r + 1] = False
        if (ndi.binary_dilation(new, np.ones((3, 3))) & (owner > 0)).any():
            continue
        if not new.any() or ndi.label(new)[1] > 1:
            continue
        sizes.append(int(new.sum()))
        owner[new] = len(sizes)
    for _ in range(case.integer(0, 3)):
        # specks close to the dots
        cy, cx = case.integer(1, shape[0] - 2), case.integer(1, shape[1] - 2)
        if owner[cy - 1:cy + 2, cx - 1:cx + 2].any():
            continue
        sizes.append(1)
        owner[cy, cx] = len(sizes)
    if not sizes:
        return
    mask[owner > 0] = 1
    before = digest(mask)
    opts = {"max": np.max(sizes), "min": np.min(sizes),
            "mean": np.mean(sizes), "median": np.median(sizes)}
    for name, want in opts.items():
        case.near(calib.get_dot_size(mask, size_opt=name), want, "size-"
                  + name, "{} of {}".format(name, sizes), rtol=1e-12)
    case.near(calib.get_dot_size(mask), max(sizes), "size-default", "default",
              rtol=1e-12)
    ratio = case.choice([0.01, 0.1, 0.3], "ratio")
    size = float(case.choice(sizes))
    got = calib.select_dot_based_size(mask, size, ratio)
    case.check(digest(mask) == before, "mutated", "input changed")
    lo, hi = max(int(size - ratio * size), 1), max(int(size + ratio * size),
                                                   1)
    want = np.zeros(shape)
    for i, num in enumerate(sizes):
        if lo <= num <= hi:
            want[owner == i + 1] = 1
    case.equal(got, want, "select", "dots of {} in {}".format(size, sizes))
    case.seen("dots", len(sizes), ratio, str(mask.dtype))


def distance(case):
    shape = case.integer(70, 120), case.integer(70, 120)
    bgr = case.cycle(["bright", "dark"], "bgr")
    sign = -0.6 if bgr == "bright" else 0.9
    rad = case.integer(8, 12)
    opt = case.choice(["max", "min"], "size_opt")
    pos, mats = [], []
    for _ in range(2):
        cy = case.uniform(rad + 12, shape[0] - rad - 13)
        cx = case.uniform(rad + 12, shape[1] - rad - 13)
        soft = disk(shape, cy, cx, rad, 1.0)
        # a distractor, as close as the corner of the bounding box
        other = 3 if opt == "max" else 16
        a = case.choice([-1, 1]), case.choice([-1, 1])
        if opt == "max" and case.choice([0, 1], "distractor"):
            gap = (rad + other + case.uniform(2.5, 5)) / np.sqrt(2)
            soft = np.maximum(soft, disk(shape, cy + a[0] * gap,
                                         cx + a[1] * gap, other, 1.0))
        pos.append((cy, cx))
        mat = 2.0 * (1 + sign * soft) + \
            0.01 * case.rng.standard_normal(shape)
        mats.append(mat)
    truth = np.hypot(pos[0][0] - pos[1][0], pos[0][1] - pos[1][1])
    kw = dict(bgr=bgr, size_opt=opt, norm=case.choice([False, False, True],
                                                      "norm"))
    if kw["norm"]:
        kw["threshold"] = None
    if case.choice([0, 1], "given") and not kw["norm"]:
        kw["threshold"] = 1.4 if bgr == "bright" else 2.9
    if kw.get("threshold") is None:
        for mat in mats:
            work = ndi.median_filter(mat, 3)
            if kw["norm"]:
                work = calib.normalize_background_based_fft(work)
            value = calib.calculate_threshold(work, bgr)
            if not (1.0 < value < 1.8 if bgr == "bright" else
                    2.2 < value < 3.4):
                # the extrapolated threshold is not between the two levels
                return
    before = digest(mats[0]), digest(mats[1])
    got = calib.calculate_distance(mats[0], mats[1], **kw)
    case.check((digest(mats[0]), digest(mats[1])) == before, "mutated",
               "input changed")
    tol = 0.35 if not kw["norm"] else 1.5
    case.check(abs(got - truth) < tol, "distance",
               "{:.3f} instead of {:.3f}".format(got, truth))
    case.near(calib.calculate_distance(mats[1], mats[0], **kw), got, "swap",
              "images swapped", rtol=1e-9)
    case.check(calib.calculate_distance(mats[0], mats[0], **kw) == 0, "zero",
               "image against itself")
    dy, dx = case.integer(-6, 6), case.integer(-6, 6)
    clean = 2.0 * (1 + sign * disk(shape, 40, 40, rad, 1.0))
    clean += 0.01 * case.rng.standard_normal(shape)
    clean = clean.astype(case.choice([np.float32, np.float64], "dtype"))
    move = np.roll(clean, (dy, dx), axis=(0, 1))
    kw = dict(bgr=bgr, threshold=1.4 if bgr == "bright" else 2.9)
    case.near(calib.calculate_distance(clean, move, **kw), np.hypot(dy, dx),
              "roll", "rolled image", atol=1e-6)
    case.seen("distance", bgr, opt, kw.get("norm"))


# -------------------------------------------------------------- ellipse

def points(case, tilt, roll, num, noisy=0.0):
    big = case.uniform(40, 1000, "radius")
    small = big * np.sin(np.deg2rad(tilt))
    xc, yc = case.uniform(0, 2500, "xc"), case.uniform(0, 2500, "yc")
    t = np.linspace(0, 2 * np.pi, num) + case.uniform(0, 6.28)
    if case.choice([0, 1], "clockwise"):
        t = t[::-1]
    r = np.deg2rad(roll)
    x = xc + big * np.cos(t) * np.cos(r) - small * np.sin(t) * np.sin(r)
    y = yc + big * np.cos(t) * np.sin(r) + small * np.sin(t) * np.cos(r)
    x = x + noisy * case.rng.standard_normal(num)
    y = y + noisy * case.rng.standard_normal(num)
    return x, y, big, small, xc, yc


def turn(a, b):
    """Difference of two axis directions, in degrees."""
    dif = (a - b) % 180.0
    return min(dif, 180.0 - dif)


def ellipse(case):
    tilt = case.uniform(0.5, 60, "tilt")
    roll = case.uniform(-89.9, 89.9, "roll")
    if case.index % 8 == 0:
        roll = case.choice([0.0, 90.0, -90.0, 45.0, -45.0])
    num = case.integer(8, 120, "num")
    x, y, big, small, xc, yc = points(case, tilt, roll, num)
    before = digest(x), digest(y)
    got = calib.fit_points_to_ellipse(x, y)
    case.check((digest(x), digest(y)) == before, "mutated", "input changed")
    case.check(turn(got[0], roll) < 0.01, "roll", "{} instead of {}".format(
        got[0], roll))
    case.check(-90.01 <= got[0] <= 90.01, "roll-range", "{}".format(got[0]))
    case.near(got[1:3], [2 * big, 2 * small], "axes", "axes", rtol=1e-3)
    case.near(got[3:], [xc, yc], "centre", "centre", atol=0.01 * big)
    perm = case.rng.permutation(num)
    again = calib.fit_points_to_ellipse(x[perm], y[perm])
    case.near(again[1:], got[1:], "order", "permuted points", rtol=1e-3)
    case.raises(ValueError, "length", "lengths differ",
                calib.fit_points_to_ellipse, x[1:], y)
    t = np.linspace(-1, 1, num)
    hyper = 500 + 100 * np.cosh(t), 500 + 50 * np.sinh(t)
    case.raises(ValueError, "hyperbola", "points of a hyperbola",
                calib.fit_points_to_ellipse, *hyper)
    case.seen("ellipse", tilt < 5, roll > 0, abs(roll) > 45, num < 20)


def tilt_roll(case):
    method = case.cycle(["ellipse", "linear"], "method")
    tilt = case.uniform(0.5, 8, "tilt")
    roll = case.uniform(-60, 60, "roll")
    if method == "linear":
        roll = case.uniform(-15, 15, "roll")
        tilt = case.uniform(0.5, 4, "tilt")
    num = case.integer(37, 181, "num")
    x, y, big, small, _, _ = points(case, tilt, roll, num,
                                    case.choice([0.0, 0.02], "noise"))
    before = digest(x), digest(y)
    with warnings.catch_warnings(record=True) as found:
        warnings.simplefilter("always")
        got = calib.find_tilt_roll(x, y, method=method)
    case.check((digest(x), digest(y)) == before, "mutated", "input changed")
    spread = 1.2 / big * 57.3 * 2
    weak = any("linear-fit" in str(w.message) for w in found)
    if method == "ellipse" and small > 2.0:
        case.check(not weak, "fallback", "linear fit used for a minor axis "
                   "of {:.1f}".format(small))
        case.check(abs(got[0] - tilt) < 0.02 * tilt + 0.1, "tilt",
                   "{:.3f} instead of {:.3f}".format(got[0], tilt))
        case.check(abs(got[1] - roll) < 0.1, "roll",
                   "{:.3f} instead of {:.3f}".format(got[1], roll))
    else:
        case.check(abs(got[0] - tilt) < 0.12 * tilt + spread, "tilt-linear",
                   "{:.3f} instead of {:.3f}".format(got[0], tilt))
        case.check(abs(got[1] - roll) < 0.3 + spread, "roll-linear",
                   "{:.3f} instead of {:.3f}".format(got[1], roll))
    if method == "linear" and weak:
        case.fail("warning", "warning of the ellipse fit")
    # mirrored data: opposite roll, same tilt
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mirror = calib.find_tilt_roll(x, -y, method=method)
        case.near(mirror, [got[0], -got[1]], "mirror", "mirrored points",
                  atol=0.02)
        moved = calib.find_tilt_roll(x + 31.0, y - 17.0, method=method)
        case.near(moved, got, "moved", "shifted points", atol=0.02)
        scaled = calib.find_tilt_roll(3.0 * x, 3.0 * y, method=method)
        if not weak:
            case.near(scaled, got, "scaled", "scaled points", atol=0.02)
    case.raises(ValueError, "length", "lengths differ", calib.find_tilt_roll,
                x[1:], y)
    case.raises(ValueError, "method", "unknown method", calib.find_tilt_roll,
                x, y, "circle")
    # a straight line has no tilt
    line = np.linspace(0, 900, num)
    slope = np.tan(np.deg2rad(roll))
    with warnings.catch_warnings(record=True) as found:
        warnings.simplefilter("always")
        flat = calib.find_tilt_roll(line, 5 + slope * line, method=method)
    case.check(abs(flat[0]) < 0.01 and abs(flat[1] - roll) < 0.01, "line",
               "straight line: {}".format(flat))
    if method == "ellipse":
        case.check(any("linear-fit" in str(w.message) for w in found),
                   "line-warning", "no warning for a straight line")
    case.seen("tilt", method, weak, roll > 0, abs(roll) > 30)


def register(ctx):
    ctx.family("background", 160, 3000, background)
    ctx.family("binarize", 160, 3000, binarize)
    ctx.family("threshold", 80, 1600, threshold)
    ctx.family("dots", 240, 6000, dots)
    ctx.family("distance", 120, 2400, distance)
    ctx.family("ellipse", 240, 8000, ellipse)
    ctx.family("tilt_roll", 160, 4000, tilt_roll)
    ctx.expect_tags("background", 10)
    ctx.expect_tags("binarize", 10)
    ctx.expect_tags("dots", 20)
    ctx.expect_tags("distance", 4)
    ctx.expect_tags("ellipse", 8)
    ctx.expect_tags("tilt_roll", 6)
