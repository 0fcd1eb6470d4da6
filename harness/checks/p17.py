"""P17: transforms undo one another, windows and masks follow their formula."""
import os
import warnings
import numpy as np
import pywt
import scipy.ndimage as ndi
import scipy.signal.windows as win
import algotom.util.utility as util
import algotom.io.loadersaver as losa
from vlib import noise, smooth, digest

RULE = ("a class is one (function, shape parity, dtype, option) combination "
        "whose output was compared with the inverse transform or with an "
        "independent closed form")
ASSUMPTIONS = ["values are finite; tied values are only used where their "
               "order cannot be observed",
               "wavelet images are at least 32 pixels wide"]
KINDS = [np.float64, np.float32, np.uint16, np.int32, np.uint8]


def image(case, shape, dtype=None):
    dtype = dtype or case.choice(KINDS, "dtype")
    if np.dtype(dtype).kind in "iu":
        top = min(np.iinfo(dtype).max, 60000)
        out = case.rng.integers(0, top, shape).astype(dtype)
    else:
        out = noise(case.rng, shape, -1.0, 1.0).astype(dtype)
    if case.choice([0, 1], "layout"):
        out = np.asfortranarray(out)
    return out


def shape2(case, lo, hi):
    return case.integer(lo, hi), case.integer(lo, hi)


# ------------------------------------------------------------- sorting

def sorting(case):
    shape = shape2(case, 1, 40)
    mat = image(case, shape)
    axis = case.cycle([0, 1], "axis")
    before = digest(mat)
    got, index = util.sort_forward(mat, axis=axis)
    case.check(digest(mat) == before, "mutated", "input changed")
    case.equal(got, np.sort(mat, axis=axis), "sorted", "sorted columns")
    pos = index.astype(int)
    case.equal(np.sort(pos, axis=axis),
               np.sort(np.argsort(np.zeros(shape), axis=axis), axis=axis),
               "permutation", "index is a permutation")
    case.equal(np.take_along_axis(mat, pos, axis), got, "index",
               "index gives the sorted image")
    hold = digest(got), digest(index)
    case.equal(util.sort_backward(got, index, axis=axis), mat, "round",
               "forward then backward")
    case.check((digest(got), digest(index)) == hold, "mutated-back",
               "input changed")
    # scatter anything else by the same index
    other = noise(case.rng, shape, 0, 1)
    want = np.zeros(shape)
    np.put_along_axis(want, pos, other, axis)
    case.equal(util.sort_backward(other, index, axis=axis), want, "scatter",
               "another image sorted backward")
    again, _ = util.sort_forward(got, axis=axis)
    case.equal(again, got, "idempotent", "sorting twice")
    trans, itrans = util.sort_forward(mat.T, axis=1 - axis)
    case.equal(trans.T, got, "transpose", "other axis of the transpose")
    case.seen("sort", axis, str(mat.dtype), shape[0] % 2, shape[1] % 2)


# --------------------------------------------------------------- polar

def bilinear(mat, x, y):
    """Inside the image only."""
    h, w = mat.shape
    x0 = np.clip(np.floor(x).astype(int), 0, w - 2)
    y0 = np.clip(np.floor(y).astype(int), 0, h - 2)
    fx, fy = x - x0, y - y0
    m = mat.astype(np.float64)
    return (m[y0, x0] * (1 - fy) * (1 - fx) + m[y0, x0 + 1] * (1 - fy) * fx
            + m[y0 + 1, x0] * fy * (1 - fx) + m[y0 + 1, x0 + 1] * fy * fx)


def polar(case):
    w, h = case.integer(12, 60, "w"), case.integer(12, 60, "h")
    wp, hp = case.integer(10, 80, "wp"), case.integer(10, 80, "hp")
    xc, yc = (w - 1) / 2, (h - 1) / 2
    rmax = np.floor(max(xc, yc))
    r = np.arange(wp) * rmax / (wp - 1)
    t = np.arange(hp) * 2 * np.pi / (hp - 1)
    x, y = util.rectangular_from_polar(w, h, wp, hp)
    case.require(x.shape == y.shape == (hp, wp), "shape", "coordinates")
    case.near(x, np.clip(xc + r[None] * np.cos(t)[:, None], 0, w - 1), "x",
              "x of (r, theta)", rtol=1e-6)
    case.near(y, np.clip(yc + r[None] * np.sin(t)[:, None], 0, h - 1), "y",
              "y of (r, theta)", rtol=1e-6)
    pr, pt = util.polar_from_rectangular(wp, hp, w, h)
    case.require(pr.shape == pt.shape == (h, w), "shape2", "coordinates")
    dx, dy = np.arange(w)[None] - xc, np.arange(h)[:, None] - yc
    dx, dy = np.broadcast_arrays(dx, dy)
    case.near(pr, np.clip(np.hypot(dx, dy) * (wp - 1) / rmax, 0, wp - 1),
              "r", "radius of (x, y)", rtol=2e-6)
    angle = np.mod(np.arctan2(dy, dx), 2 * np.pi) * (hp - 1) / (2 * np.pi)
    dif = np.abs(pt - angle)
    dif = np.minimum(dif, hp - 1 - dif)
    dif[np.hypot(dx, dy) < 1e-6] = 0
    case.check(dif.max() < 1e-4, "theta", "angle off by {:.2g}".format(
        dif.max()))
    # one inverts the other inside the circle and the image
    rr = pr * rmax / (wp - 1)
    tt = pt * 2 * np.pi / (hp - 1)
    ok = np.hypot(dx, dy) < rmax - 1e-3
    case.near((rr * np.cos(tt))[ok], dx[ok], "back-x", "round trip of x",
              rtol=1e-4)
    case.near((rr * np.sin(tt))[ok], dy[ok], "back-y", "round trip of y",
              rtol=1e-4)
    case.seen("coords", w % 2, h % 2, w > h, wp > w, hp > h)


def polar_image(case):
    w = case.integer(24, 70, "w")
    c = (w - 1) / 2
    y, x = np.mgrid[:w, :w] - c
    rad = np.hypot(x, y)
    mat = np.zeros((w, w))
    for _ in range(3):
        a, b = case.rng.uniform(-.25, .25, 2) * w
        mat += case.uniform(.5, 1) * np.exp(
            -((x - a) ** 2 + (y - b) ** 2) / 2 / (.15 * w) ** 2)
    mat = mat.astype(case.choice([np.float64, np.float32], "dtype"))
    before = digest(mat)
    got = util.transform_slice_forward(mat)
    case.check(digest(mat) == before, "mutated", "input changed")
    r = np.arange(w) * np.floor(c) / (w - 1)
    t = np.arange(w) * 2 * np.pi / (w - 1)
    px = np.clip(c + r[None] * np.cos(t)[:, None], 0, w - 1)
    py = np.clip(c + r[None] * np.sin(t)[:, None], 0, w - 1)
    case.near(got, bilinear(mat, px, py), "forward", "polar image",
              rtol=1e-4)
    back = util.transform_slice_backward(got)
    inside = rad < np.floor(c) - 1
    err = np.abs(back - mat)[inside].max() / mat.max()
    case.check(err < 0.06, "round", "round trip off by {:.3f}".format(err))
    # a radial image has identical rows; rows back give a radial image
    line = noise(case.rng, (w,), 0, 1)
    line = ndi.gaussian_filter1d(line, 2)
    ring = util.transform_slice_backward(np.tile(line, (w, 1)))
    want = np.interp(rad * (w - 1) / np.floor(c), np.arange(w), line)
    case.near(ring[inside], want[inside], "rings", "columns become rings",
              rtol=1e-3)
    coords = util.rectangular_from_polar(w, w, w, w)
    case.equal(util.transform_slice_forward(mat, coords), got, "given",
               "coordinates given")
    coords = util.polar_from_rectangular(w, w, w, w)
    case.equal(util.transform_slice_backward(got, coords), back, "given-back",
               "coordinates given")
    for func in (util.transform_slice_forward, util.transform_slice_backward):
        case.raises(ValueError, "square", "oblong image", func, mat[:-1])
        case.raises(ValueError, "coords", "coordinates of another size", func,
                    mat, util.rectangular_from_polar(w, w, w - 1, w))
    case.seen("polar", w % 2, str(mat.dtype))


def mapping(case):
    shape = shape2(case, 6, 40)
    mat = image(case, shape, case.choice([np.float64, np.float32], "dtype"))
    out = shape2(case, 1, 30)
    x = case.rng.uniform(0, shape[1] - 1, out)
    y = case.rng.uniform(0, shape[0] - 1, out)
    mode = case.choice(["reflect", "nearest", "mirror", "constant"], "mode")
    got = util.mapping(mat, x, y, order=1, mode=mode)
    case.require(got.shape == out, "shape", "{}".format(got.shape))
    case.near(got, bilinear(mat, x, y), "bilinear", "inside", rtol=1e-5)
    near = util.mapping(mat, x, y, order=0, mode=mode)
    xi, yi = np.floor(x + .5).astype(int), np.floor(y + .5).astype(int)
    safe = (np.abs(x - np.floor(x) - .5) > 1e-6) & \
        (np.abs(y - np.floor(y) - .5) > 1e-6)
    case.equal(near[safe], mat[yi, xi][safe], "nearest", "order 0")
    gy, gx = np.mgrid[:shape[0], :shape[1]]
    order = case.choice([0, 1, 2, 3, 4, 5], "order")
    case.near(util.mapping(mat, gx, gy, order=order, mode="mirror"), mat,
              "identity", "identity map", rtol=1e-5)
    dx, dy = case.integer(-9, 9), case.integer(-9, 9)
    got = util.mapping(mat, gx + dx, gy + dy, mode="nearest")
    case.near(got, mat[np.clip(gy + dy, 0, shape[0] - 1),
                       np.clip(gx + dx, 0, shape[1] - 1)], "outside",
              "edge extension", rtol=1e-6)
    got = util.mapping(mat, gx + dx, gy + dy)
    pad = np.pad(mat, 9, mode="symmetric") if min(shape) >= 9 else None
    if pad is not None:
        case.near(got, pad[9 + dy:9 + dy + shape[0], 9 + dx:9 + dx
                           + shape[1]], "reflect", "reflection by default",
                  rtol=1e-6)
    case.seen("mapping", mode, order, str(mat.dtype))


# -------------------------------------------------------------- wavelet

def is_same(data1, data2):
    if len(data1) != len(data2):
        return False
    for a, b in zip(data1, data2):
        if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
            return False
        pairs = [(a, b)] if isinstance(a, np.ndarray) else list(zip(a, b))
        if not all(np.array_equal(p, q) for p, q in pairs):
            return False
    return True


def clone(data):
    return [data[0].copy()] + [tuple(v.copy() for v in d) for d in data[1:]]


def wavelet(case):
    shape = shape2(case, 32, 150)
    mat = noise(case.rng, shape, -1, 1).astype(
        case.choice([np.float64, np.float32], "dtype"))
    name = case.cycle(["db5", "haar", "sym4", "db2"], "wavelet")
    most = int(np.floor(np.log2(min(shape) / 16)))
    level = case.choice([None, 0, 1, 2, 3, 9, -1], "level")
    before = digest(mat)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = util.apply_wavelet_decomposition(mat, name, level)
        use = level if level is not None and 1 <= level <= most else most
        case.require(len(data) == use + 1, "levels", "{} for {}".format(
            len(data) - 1, use))
        case.check(min(data[0].shape) >= 16, "small", "approximation below "
                   "16 pixels")
        want = pywt.wavedec2(mat, name, level=use)
        case.check(is_same(data, want), "parts", "coefficients")
    case.check(digest(mat) == before, "mutated", "input changed")
    kind = case.choice(["list", "tuple"], "container")
    given = list(data) if kind == "list" else tuple(data)
    saved = clone(data)
    tol = 1e-10 if mat.dtype == np.float64 else 1e-4
    back = util.apply_wavelet_reconstruction(given, name)
    case.check(all(0 <= b - s <= 1 and b % 2 == 0
                   for b, s in zip(back.shape, shape)), "even",
               "size {} of {}".format(back.shape, shape))
    case.near(back[:shape[0], :shape[1]], mat, "round",
              "decomposed and reconstructed", rtol=tol)
    for skip in range(-1, use + 2):
        got = util.apply_wavelet_reconstruction(given, name,
                                                ignore_level=skip)
        part = clone(saved)
        if 1 <= skip <= use:
            part[-skip] = tuple(np.zeros_like(v) for v in part[-skip])
        case.near(got, pywt.waverec2(part, name), "ignore",
                  "level {} of {} ignored".format(skip, use), rtol=tol)
        case.require(is_same(given, saved), "mutated-data",
                     "decomposition changed by ignoring a level")
    case.seen("wavelet", name, use, kind, shape[0] % 2, shape[1] % 2)


def wavelet_filter(case):
    shape = shape2(case, 64, 140)
    mat = noise(case.rng, shape, -1, 1).astype(np.float64)
    data = util.apply_wavelet_decomposition(mat, "db2",
                                            case.integer(1, 3, "n_level"))
    n = len(data) - 1
    level = case.choice([None, "int", "list", "tuple"], "level")
    picked = sorted(case.rng.choice(np.arange(1, n + 1),
                                    case.integer(1, n), replace=False))
    picked = [int(i) for i in picked]
    if level is None:
        given, picked = None, list(range(1, n + 1))
    elif level == "int":
        given = picked[0]
        picked = [given]
    else:
        given = picked if level == "list" else tuple(picked)
    order = case.cycle([0, 1, 2], "order")
    which = case.choice(["default", "gaussian_filter", "median_filter",
                         "apply_gaussian_filter", "scalar"], "filter")
    if which == "default":
        kw = {}
        func = lambda v: ndi.gaussian_filter(v, (1, 11))
    elif which == "gaussian_filter":
        kw = dict(method=which, para=[(2, 3)])
        func = lambda v: ndi.gaussian_filter(v, (2, 3))
    elif which == "median_filter":
        kw = dict(method=which, para=[(1, 3)])
        func = lambda v: ndi.median_filter(v, (1, 3))
    elif which == "scalar":
        kw = dict(method="gaussian_filter", para=3)
        func = lambda v: ndi.gaussian_filter(v, 3)
    else:
        kw = dict(method=which, para=[4, 6])
        func = lambda v: util.apply_gaussian_filter(v, 4, 6)
    saved = clone(data)
    box = case.choice(["list", "tuple"], "container")
    arg = list(data) if box == "list" else tuple(data)
    got = util.apply_filter_to_wavelet_component(arg, given, order, **kw)
    case.require(is_same(arg, saved), "mutated", "decomposition changed")
    want = clone(saved)
    for i in picked:
        part = list(want[i])
        part[order] = func(part[order])
        want[i] = tuple(part)
    case.require(len(got) == n + 1, "length", "levels")
    case.equal(got[0], want[0], "approximation", "untouched part")
    for i in range(1, n + 1):
        for j in range(3):
            case.near(got[i][j], want[i][j],
                      "touched" if i in picked and j == order else "rest",
                      "level {} component {}".format(i, j), rtol=1e-12)
    back = util.apply_wavelet_reconstruction(got, "db2")
    case.near(back, pywt.waverec2(want, "db2"), "rebuild", "filtered image",
              rtol=1e-10)
    func = util.apply_filter_to_wavelet_component
    for bad in (0, n + 1, -1, [1, n + 1], (0,), "1", 1.5):
        case.raises(ValueError, "level-check", "level {!r}".format(bad), func,
                    arg, bad)
    case.raises(ValueError, "method-check", "unknown filter", func, arg, 1, 1,
                "no_such_filter", [1])
    case.check(is_same(arg, saved), "mutated-bad", "decomposition changed")
    case.seen("component", level, order, which, box)


# ------------------------------------------------------- windows, masks

def windows(case):
    w, h = case.integer(1, 90, "w"), case.integer(1, 90, "h")
    u, n, v = case.choice([1, 5, 20, 30]), case.choice([1, 2, 8]), \
        case.choice([0, 1, 2, 7, 60])
    case.note(u=u, n=n, v=v)
    fx = np.rint(np.fft.fftshift(np.fft.fftfreq(w)) * w)
    fy = np.rint(np.fft.fftshift(np.fft.fftfreq(h)) * h)
    want = np.ones((h, w))
    want[np.abs(fy) <= v] = 1 / (1 + (fx / u) ** (2 * n))
    case.near(util.make_2d_butterworth_window(w, h, u, v, n), want, "butter",
              "Butterworth rows", rtol=1e-6)
    size = case.choice([1, 2, 10], "size")
    for name in ("gaussian", "butter"):
        if name == "gaussian":
            want = 1 - np.exp(-fx ** 2 / 2 / size ** 2)
        else:
            want = 1 - 1 / (1 + (fx / size) ** 2)
        case.near(util.make_2d_damping_window(w, h, size, name),
                  np.tile(want, (h, 1)), "damping", name, rtol=1e-9)
    sx, sy = case.uniform(.5, 40), case.uniform(.5, 40)
    x, y = np.arange(w) - (w - 1) / 2, np.arange(h) - (h - 1) / 2
    case.near(util.make_2d_gaussian_window(h, w, sx, sy),
              np.exp(-y[:, None] ** 2 / 2 / sy ** 2)
              * np.exp(-x[None] ** 2 / 2 / sx ** 2), "gaussian",
              "Gaussian window", rtol=1e-9)
    # circle mask
    ratio = case.choice([0.0, 0.3, 0.77, 1.0, 1.2, 1.6], "ratio")
    mask = util.make_circle_mask(w, ratio)
    case.require(mask.shape == (w, w), "mask-shape", "{}".format(mask.shape))
    case.check(np.all((mask == 0) | (mask == 1)), "mask-binary", "values")
    case.equal(mask, mask.T, "mask-transpose", "transposed mask")
    pos = np.arange(w) - w // 2
    rad = np.hypot(pos[None], pos[:, None])
    edge = ratio * (w // 2)
    case.check(np.all(mask[rad < edge - 1e-6] == 1), "mask-in", "inside")
    case.check(np.all(mask[rad > edge + 1e-6] == 0), "mask-out", "outside")
    if w % 2:
        case.equal(mask, mask[::-1, ::-1], "mask-turn", "turned mask")
    case.seen("windows", w % 2, h % 2, ratio, u, v)


def window_2d(case):
    n = case.integer(5, 61, "n")
    kind = case.cycle(["symmetric", "general"], "kind")
    c = n // 2
    pos = np.arange(n)
    line = ndi.gaussian_filter1d(noise(case.rng, (n,), 0, 1), 1.5)
    if kind == "symmetric":
        line = line[c + np.minimum(np.abs(pos - c), n - 1 - c)]
    line = line.astype(case.choice([np.float64, np.float32], "dtype"))
    before = digest(line)
    got = util.transform_1d_window_to_2d(line)
    case.check(digest(line) == before, "mutated", "input changed")
    case.require(got.shape == (n, n), "shape", "{}".format(got.shape))
    y, x = np.mgrid[:n, :n] - c
    r = np.minimum(np.hypot(x, y), c)
    r = np.where(y < 0, -r, r) + c
    inside = r <= n - 1
    want = np.interp(r, pos, line)
    case.near(got[inside], want[inside], "radial", "window along the radius",
              rtol=1e-4)
    case.near(got[c:, c][:n - c], line[c:], "down", "profile below the centre",
              rtol=1e-5)
    case.near(got[:c, c], line[:c], "up", "profile above the centre",
              rtol=1e-5)
    if kind == "symmetric" and n % 2:
        case.near(got, got[::-1], "flip", "vertical symmetry", rtol=1e-5)
        case.near(got, got.T, "transpose", "rotation symmetry", rtol=1e-5)
    case.seen("window2d", kind, n % 2, str(line.dtype))


# -------------------------------------------------------------- filters

def gauss(num, sigma):
    return np.exp(-(np.fft.fftfreq(num) * num) ** 2 / 2 / sigma ** 2)


def filters(case):
    shape = shape2(case, 11, 60)
    mat = image(case, shape)
    top = float(np.abs(mat).max())
    which = case.cycle(["separate", "separate-window", "gaussian", "regular",
                        "fitted"], "which")
    axis = case.choice([0, 1], "axis")
    before = digest(mat)
    flat = mat.astype(np.float64)
    if which.startswith("separate"):
        n = shape[axis]
        pad = int(0.1 * n)
        full = n + 2 * pad
        if which == "separate":
            sigma = case.choice([5, 1, 20], "sigma")
            arg = {} if sigma == 5 and case.choice([0, 1]) else {
                "window": {"name": "gaussian", "sigma": sigma}}
            gain = gauss(full, sigma)
        else:
            line = win.gaussian(n + 1 - n % 2, 4)[:n]
            line = line * case.rng.uniform(.5, 1)
            arg = {"window": line}
            gain = np.fft.ifftshift(np.pad(line, pad, constant_values=1.0))
            hold = digest(line)
        one, two = util.separate_frequency_component(mat, axis=axis, **arg)
        if which != "separate":
            case.check(digest(line) == hold, "window-mutated", "window")
            case.raises(ValueError, "window-length", "shorter window",
                        util.separate_frequency_component, mat, axis,
                        line[:-1])
        work = np.moveaxis(flat, axis, 1)
        work = np.pad(work, ((0, 0), (pad, pad)), mode="reflect")
        want = np.fft.ifft(np.fft.fft(work, axis=1) * gain, axis=1)
        want = np.real(np.moveaxis(want[:, pad:pad + n], 1, axis))
        case.near(one, want, "low", "low-frequency part", rtol=2e-6,
                  scale=top)
        case.near(np.asarray(one, float) + two, flat, "sum",
                  "low + high is the image", rtol=1e-6, scale=top)
        const = np.full(shape, 3.0)
        if which == "separate":
            low, high = util.separate_frequency_component(const, axis)
            case.near(low, const, "constant", "constant image", rtol=1e-6)
            case.near(high, 0 * const, "constant-high", "constant image")
    elif which == "gaussian":
        sx, sy = case.uniform(1, 30), case.uniform(1, 30)
        pad = case.choice([None, 0, 7], "pad")
        mode = case.choice([None, "reflect", ("edge", "wrap"),
                            ["mean", "reflect"]], "mode")
        m1, m2 = ("edge", "mean") if mode is None else (mode, mode) \
            if isinstance(mode, str) else mode
        p = int(0.1 * min(shape)) if pad is None else pad
        # means of integers are rounded by numpy
        if mat.dtype.kind in "iu":
            mat = mat.astype(np.float64)
            before = digest(mat)
        got = util.apply_gaussian_filter(mat, sx, sy, pad=pad, mode=mode)
        big = np.pad(np.pad(flat, ((0, 0), (p, p)), mode=m1),
                     ((p, p), (0, 0)), mode=m2)
        want = np.fft.ifft2(np.fft.fft2(big) * gauss(big.shape[0], sy)[:, None]
                            * gauss(big.shape[1], sx))
        case.near(got, np.real(want)[p:p + shape[0], p:p + shape[1]],
                  "gaussian", "Gaussian filter", rtol=1e-5, scale=top)
        case.near(util.apply_gaussian_filter(np.full(shape, 2.5), sx, sy),
                  np.full(shape, 2.5), "gaussian-constant", "constant image",
                  rtol=1e-9)
    elif which == "regular":
        alpha = case.choice([0.0001, 0.01, 0.5, 3.0], "alpha")
        if mat.dtype == np.float32:
            mat = mat.astype(np.float64)
        before = digest(mat)
        got = util.apply_regularization_filter(mat, alpha, axis=axis,
                                               ncore=case.choice([1, 2]))
        n = shape[axis]
        dif = np.diff(np.eye(n), axis=0)
        lap = dif.T @ dif
        # minimizes |x'|^2 + alpha |x - data|^2
        work = flat if axis == 0 else flat.T
        want = np.linalg.solve(lap / alpha + np.eye(n), work)
        want = want if axis == 0 else want.T
        case.near(got, want, "regular", "regularized image",
                  rtol=3e-5 + 1e-7 / alpha,
                  scale=top)
        coe = util.calculate_regularization_coefficient(n, alpha)
        case.near(coe @ (lap + alpha * np.eye(n)), -np.eye(n), "inverse",
                  "coefficients are the inverse", rtol=1e-7,
                  scale=max(1, 1 / alpha))
    else:
        order = case.choice([1, 2, 3], "order")
        chunk = case.choice([1, 2], "chunk")
        n = shape[axis]
        length = n // chunk
        length -= 1 - length % 2
        if length <= order:
            return
        got = util.generate_fitted_image(mat, order, axis=axis,
                                         num_chunk=chunk)
        half = length // 2
        vand = np.vander(np.arange(-half, half + 1.0) / max(half, 1),
                         order + 1)
        row = np.linalg.pinv(vand)[-1]
        work = np.moveaxis(flat, axis, 0)
        big = np.pad(work, ((half, half), (0, 0)), mode="reflect")
        want = np.asarray([row @ big[i:i + length] for i in range(n)])
        case.near(got, np.moveaxis(want, 0, axis), "fitted", "local fits",
                  rtol=1e-5, scale=top)
    case.check(digest(mat) == before, "mutated", "input changed")
    case.seen(which, axis, str(mat.dtype), shape[0] % 2, shape[1] % 2)


def stripes(case):
    shape = case.integer(5, 40), case.integer(14, 60)
    mat = image(case, shape, case.choice([np.float64, np.float32], "dtype"))
    mask = np.zeros(shape[1], case.choice([np.float32, bool, int, float],
                                          "mask"))
    for _ in range(case.integer(0, 3)):
        p = case.integer(0, shape[1] - 1)
        mask[p:p + case.integer(1, 4)] = 1
    if mask[2:-2].sum() > shape[1] - 10:
        return
    kind = case.cycle(["linear", "cubic", "quintic"], "kind")
    before = digest(mat), digest(mask)
    got = util.interpolate_inside_stripe(mat, mask, kind=kind)
    case.check((digest(mat), digest(mask)) == before, "mutated", "arguments")
    use = mask.astype(bool)
    use[:2] = use[-2:] = False
    case.equal(got[:, ~use], mat[:, ~use], "good", "columns outside stripes")
    if kind == "linear":
        good = np.flatnonzero(~use)
        want = mat.astype(np.float64)
        for i in range(shape[0]):
            want[i, use] = np.interp(np.flatnonzero(use), good, mat[i, good])
        case.near(got, want, "linear", "interpolated columns", rtol=1e-6)
    y, x = np.mgrid[:shape[0], :shape[1]] * 1.0
    plane = 1 + .3 * x - .2 * y + (0.01 * x * y if kind == "linear" else
                                   0.01 * x * x + 0.02 * y * y - 0.01 * x * y)
    case.near(util.interpolate_inside_stripe(plane, mask, kind=kind), plane,
              "exact", "polynomial image", rtol=1e-6)
    case.raises(ValueError, "length", "mask of another length",
                util.interpolate_inside_stripe, mat, mask[1:])
    case.seen("stripe", kind, bool(use.any()), str(mask.dtype))


# --------------------------------------------------------------- visual

def visual(case):
    n, w = case.integer(20, 40), case.integer(40, 70)
    sino = smooth(case.rng, (n, w), 3)
    start = float(case.integer(w // 2 - 8, w // 2))
    stop = start + case.integer(0, 4)
    step = case.choice([1, 0.5, 2], "step")
    zoom = case.choice([1.0, 0.5], "zoom")
    before = digest(sino)
    base = os.path.join(case.dir, "out")
    folder = util.find_center_visual_sinograms(sino, base, start, stop,
                                               step=step, zoom=zoom)
    case.check(digest(sino) == before, "mutated", "input changed")
    case.check(os.path.dirname(os.path.abspath(folder)) ==
               os.path.abspath(base), "folder", folder)
    found = losa.find_file(folder + "/*.tif*")
    got = sorted(float(os.path.basename(f)[7:-4]) for f in found)
    want = np.arange(start, stop + step - 1e-6, step)
    case.require(len(got) == len(want) and np.allclose(got, want),
                 "centres", "{} of {}".format(got, want))
    for name in found:
        cen = float(os.path.basename(name)[7:-4])
        img = losa.load_image(name)
        if zoom != 1.0:
            case.check(img.shape == (int(round(2 * n * zoom)),
                                     int(round(w * zoom))), "zoomed",
                       "{} of {}".format(img.shape, (2 * n, w)))
            continue
        case.require(img.shape == (2 * n, w), "shape", "{}".format(img.shape))
        case.near(img[:n], sino, "upper", "upper half", rtol=1e-6)
        pos = 2 * cen - np.arange(w)
        ok = (pos > 3) & (pos < w - 4)
        flip = np.asarray([np.interp(pos, np.arange(w), row) for row in sino])
        dif = np.abs(img[n:] - flip)[:, ok].max() / np.ptp(sino)
        case.check(dif < 0.12, "flipped", "lower half off by {:.2f} for {}"
                   .format(dif, cen))
    second = util.find_center_visual_sinograms(sino, base, start, start)
    case.check(os.path.abspath(second) != os.path.abspath(folder), "reuse",
               "folder used twice")
    case.seen("visual", step, zoom, w % 2)


def sample(case):
    shape = case.integer(60, 160), case.integer(60, 160)
    mat = noise(case.rng, shape, 0, 1).astype(np.float64)
    mat += smooth(case.rng, shape, 4) * case.choice([0, 30, 300], "smooth")
    before = digest(mat)
    got = util.detect_sample(mat)
    case.check(got is True or got is False, "bool", repr(got))
    case.check(digest(mat) == before, "mutated", "input changed")
    case.check(util.detect_sample(4.0 * mat) == got, "scale", "4 times")
    case.check(util.detect_sample(np.vstack((mat, np.fliplr(mat))), "360")
               == got, "stack", "180 degrees against 360 degrees")
    case.check(util.detect_sample(mat.astype(np.float64) - 0.0) == got,
               "repeat", "same input")
    case.raises(ValueError, "type", "type", util.detect_sample, mat, "90")
    case.raises(ImportError, "moved", "moved function",
                util.find_center_visual_slices)
    case.raises(NotImplementedError, "removed", "removed function",
                util.apply_method_to_multiple_sinograms)
    case.seen("sample", got, shape[0] % 2)


def register(ctx):
    ctx.family("sorting", 160, 4000, sorting)
    ctx.family("polar", 120, 3000, polar)
    ctx.family("polar_image", 80, 1600, polar_image)
    ctx.family("mapping", 120, 3000, mapping)
    ctx.family("wavelet", 120, 2400, wavelet)
    ctx.family("wavelet_filter", 120, 2400, wavelet_filter)
    ctx.family("windows", 240, 6000, windows)
    ctx.family("window_2d", 120, 3000, window_2d)
    ctx.family("filters", 300, 6000, filters)
    ctx.family("stripes", 120, 3000, stripes)
    ctx.family("visual", 24, 400, visual)
    ctx.family("sample", 40, 800, sample)
    ctx.expect_tags("sorting", 10)
    ctx.expect_tags("wavelet", 20)
    ctx.expect_tags("filters", 25)
    ctx.expect_tags("windows", 30)
    ctx.expect_tags("visual", 3)
