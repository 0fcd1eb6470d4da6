"""P18: reconstruction returns the object that produced the data."""
import os
import numpy as np
import scipy.ndimage as ndi
import algotom.rec.reconstruction as rec
import algotom.io.loadersaver as losa
from vlib import gaussian_sino, blob_image, corr, noise, smooth

RULE = ("a class is one (method, centre offset, angle set, width parity, "
        "filter, mask ratio, padding, logarithm, batch layout, workers) "
        "combination whose output was compared with the analytic object or "
        "with an independent float64 reference")
ASSUMPTIONS = ["CPU code paths; no GPU, astra or tomopy in the sandbox",
               "object inside the part of the field of view seen by every "
               "projection"]
FILTERS = [None, "hann", "bartlett", "blackman", "hamming", "nuttall",
           "parzen", "triang"]


# ---- independent references ------------------------------------------------
def smooth_win(name, width):
    k = np.arange(width)
    m = width - 1.0
    c = 2 * np.pi * k / m
    if name == "hann":
        return 0.5 - 0.5 * np.cos(c)
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(c)
    if name == "blackman":
        return 0.42 - 0.5 * np.cos(c) + 0.08 * np.cos(2 * c)
    if name == "bartlett":
        return 1.0 - np.abs(2.0 * k / m - 1.0)
    if name == "nuttall":
        a = [0.3635819, 0.4891775, 0.1365995, 0.0106411]
        return a[0] - a[1] * np.cos(c) + a[2] * np.cos(2 * c) \
            - a[3] * np.cos(3 * c)
    if name == "triang":
        n = np.arange(1, (width + 1) // 2 + 1)
        if width % 2 == 0:
            w = (2 * n - 1.0) / width
            return np.concatenate([w, w[::-1]])
        w = 2 * n / (width + 1.0)
        return np.concatenate([w, w[-2::-1]])
    if name == "parzen":
        n = np.abs(k - m / 2.0) / (width / 2.0)
        return np.where(n <= 0.5, 1 - 6 * n ** 2 * (1 - n),
                        2 * (1 - n) ** 3)
    return np.ones(width)


def ref_filter(sino, name, pad, mode):
    """Ramp filtering as a circular convolution with the sampled kernel."""
    nrow, ncol = sino.shape
    ext = np.pad(np.float64(sino), ((0, 0), (pad, pad)), mode=mode)
    width = ext.shape[1]
    dist = np.arange(width) - int(np.ceil((width - 1) / 2))
    odd = dist % 2 != 0
    kern = np.zeros(width)
    kern[odd] = -1.0 / (np.pi * dist[odd]) ** 2
    kern[dist == 0] = 0.25
    kern = np.roll(kern, -int(np.ceil((width - 1) / 2)))
    ramp = np.fft.fft(kern) * np.fft.ifftshift(smooth_win(name, width))
    return np.real(np.fft.ifft(np.fft.fft(ext, axis=1) * ramp, axis=1))[
        :, pad:pad + ncol]


def ref_backproject(sino, angles, center, edge):
    """Also marks pixels whose ray ends within rounding of the detector."""
    nrow, ncol = sino.shape
    sino = np.float64(sino)
    grid = np.arange(ncol) - (ncol - 1) / 2.0
    out = np.zeros((ncol, ncol))
    unsure = np.zeros((ncol, ncol), bool)
    xs = np.arange(ncol)
    for i in range(nrow):
        pos = grid[None, :] * np.cos(angles[i]) - \
            grid[:, None] * np.sin(angles[i]) + center
        val = np.interp(pos, xs, sino[i])
        if not edge:
            unsure |= (np.abs(pos) < 1e-4) | (np.abs(pos - ncol + 1) < 1e-4)
            val[(pos < 0) | (pos > ncol - 1)] = 0.0
        out += val
    return out, ~unsure


def blob_scene(case, ncol, center, angles, nz=1):
    """Sinogram(s), sampled images and the radius seen everywhere."""
    radius = min(center, ncol - 1 - center)
    res = []
    for _ in range(nz):
        sig = case.uniform(4.0, 5.5)
        lim = max(radius - 4.0 * sig, 2.0) / ncol
        sino, _, blobs = gaussian_sino(case.rng, ncol, len(angles),
                                       center=center, num=5, angles=angles,
                                       limit=lim, smin=sig, smax=sig + 0.01)
        res.append((sino, blobs))
    return res, radius


def inside(ncol, mid, rad):
    y, x = np.mgrid[:ncol, :ncol] - mid
    return x ** 2 + y ** 2 <= rad ** 2


def angle_set(case, allow_full=True):
    """(name, list for the caller or None, true angles)."""
    kinds = ["default", "explicit", "offset", "descending", "negative"]
    if allow_full:
        kinds += ["full"]
    kind = case.cycle(kinds, "angles")
    num = case.integer(121, 200, "nrow")
    base = np.linspace(0, np.pi, num)
    if kind == "default":
        return kind, None, base
    if kind == "explicit":
        return kind, base, base
    if kind == "offset":
        ang = base + case.uniform(0.1, 2.9, "start")
        return kind, ang, ang
    if kind == "descending":
        ang = base[::-1].copy()
        return kind, ang, ang
    if kind == "negative":
        ang = base - case.uniform(0.2, 2.0, "start")
        return kind, ang, ang
    num = 2 * num - 1
    ang = np.linspace(0, 2 * np.pi, num)
    return kind, ang, ang


def analytic(case):
    """FBP, BPF and DFI against the object itself."""
    method = case.choice(["fbp", "dfi", "fbp", "bpf"], "method")
    kind, given, angles = angle_set(case)
    ncol = case.integer(90, 131, "ncol")
    center = (ncol - 1) / 2.0 + case.choice([0.0, 0.5, 1, -1], "coff") * \
        case.uniform(0.0, 0.18 * ncol, "cabs")
    (sino, blobs), radius = blob_scene(case, ncol, center, angles)[0][0], \
        min(center, ncol - 1 - center)
    name = case.choice([None, "hann", "hamming"], "filter")
    log = case.choice([True, False], "log")
    data = np.exp(-0.02 * sino) if log else 0.02 * sino
    ratio = case.choice([None, 1.0, 0.0], "ratio")
    opt = dict(angles=given, ratio=ratio, filter_name=name, apply_log=log,
               ncore=case.choice([1, 2, None], "ncore"))
    dtype = case.choice([np.float32, np.float64], "dtype")
    data = data.astype(dtype)
    if method == "dfi":
        got = rec.dfi_reconstruction(data, center, **opt)
        mid = (ncol - 1) / 2.0 + (0.5 if ncol % 2 == 0 else 0.0)
    else:
        func = getattr(rec, method + "_reconstruction")
        got = func(data, center, gpu=False, **opt)
        mid = (ncol - 1) / 2.0
    case.require(np.shape(got) == (ncol, ncol), "shape",
                 "shape {}".format(np.shape(got)))
    case.require(bool(np.all(np.isfinite(got))), "finite", "invalid values")
    want = 0.02 * blob_image(blobs, ncol, center=mid)
    rad = radius - 1.5 if ratio in (None, 0.0) else min(radius, mid) - 1.5
    sel = inside(ncol, mid, rad)
    top = want[sel].max()
    err = np.abs(got - want)[sel].max() / top
    r = corr(got[sel], want[sel])
    # fitted scale, level removed: magnitude of the object
    w = want[sel] - want[sel].mean()
    slope = float((w * (got[sel] - got[sel].mean())).sum() / (w * w).sum())
    tol = {"fbp": 0.04, "dfi": 0.10, "bpf": 0.5}[method]
    stol = {"fbp": 0.02, "dfi": 0.03, "bpf": 0.06}[method]
    if name is not None:
        tol, stol = tol + 0.03, stol + 0.03
    case.check(r > {"fbp": 0.998, "dfi": 0.99, "bpf": 0.985}[method],
               method + "-pattern", "correlation {:.4f}".format(r))
    case.check(abs(slope - 1) < stol, method + "-scale",
               "scale {:.4f}".format(slope))
    case.check(err < tol, method + "-error",
               "worst error {:.3f} of the maximum".format(err))
    case.note(err=err, slope=slope, r=r)
    case.seen("analytic", method, kind, ncol % 2, np.sign(center - mid), name,
              log, ratio)


def reference(case):
    """FBP against an independent float64 implementation."""
    ncol = case.integer(24, 48, "ncol")
    nrow = case.integer(9, 40, "nrow")
    center = case.uniform(0.0, ncol - 0.01, "center")
    if case.index % 5 == 0:
        center = float(case.integer(0, ncol - 1, "center"))
    angles = None if case.choice([0, 1]) else \
        np.sort(case.rng.uniform(-1, 5, nrow))
    true = np.linspace(0, np.pi, nrow) if angles is None else angles
    name = case.cycle(FILTERS, "filter")
    pad = case.choice([None, 0, 1, 7], "pad")
    mode = case.choice(["edge", "reflect", "constant"], "mode")
    npad = min(int(0.15 * ncol), 150) if pad is None else pad
    sino = noise(case.rng, (nrow, ncol), 0.1, 1.0)
    log = case.choice([True, False], "log")
    if log and case.choice([0, 1]):
        sino[case.rng.random(sino.shape) < 0.05] = case.choice([0, -0.3])
        case.note(nonpositive=1)
    lin = -np.log(np.where(sino <= 0, 1.0, np.float64(sino))) if log else sino
    ratio = case.choice([None, 1.0, 0.5, 0.0], "ratio")
    filt = ref_filter(lin, name, npad, mode)
    want, sure = ref_backproject(filt, true, center, False)
    want = want * np.pi / (nrow - 1)
    got = rec.fbp_reconstruction(sino, center, angles=angles, ratio=ratio,
                                 filter_name=name, pad=pad, pad_mode=mode,
                                 apply_log=log, gpu=False)
    case.require(np.shape(got) == (ncol, ncol), "shape", str(np.shape(got)))
    if ratio is None:
        sel = np.ones((ncol, ncol), bool)
    else:
        eff = ratio if ratio else min(center, ncol - center) / (0.5 * ncol)
        rad = eff * ncol / 2.0
        y, x = np.mgrid[:ncol, :ncol] - (ncol - 1) / 2.0
        dist = np.sqrt(x ** 2 + y ** 2)
        sel = dist <= rad - 1.5
        out = dist >= rad + 1.5
        case.check(not np.any(got[out]), "mask", "values outside the mask")
    sel &= sure
    scale = np.abs(want).max() + 1e-9
    case.check(np.abs(got - want)[sel].max(initial=0) < 2e-3 * scale,
               "fbp-reference", "differs by {:.3g} of {:.3g}".format(
                   np.abs(got - want)[sel].max(initial=0), scale))
    # the two building blocks
    for edge in (False, True):
        bwant, sure = ref_backproject(lin, true, center, edge)
        bgot = rec.back_projection_cpu(
            np.float32(lin), np.float32(true), np.float32(center),
            edge_pad=edge)
        case.near(np.where(sure, bgot, 0), np.where(sure, bwant, 0),
                  "back-projection", "edge_pad={}".format(edge), rtol=2e-3)
    case.near(rec.apply_ramp_filter(lin, None, name, pad, mode), filt,
              "ramp-filter", "ramp filtering", rtol=1e-5)
    win = rec.make_2d_ramp_window(nrow, ncol + 2 * npad, name)
    case.near(rec.apply_ramp_filter(lin, win, name, pad, mode), filt,
              "ramp-filter-window", "ramp filtering, given window", rtol=1e-5)
    case.near(rec.make_smoothing_window(name, ncol), smooth_win(name, ncol),
              "window", str(name), rtol=1e-6, scale=1.0)
    got2 = rec.fbp_reconstruction(sino, center, angles=angles, ratio=ratio,
                                  ramp_win=win, filter_name="blackman",
                                  pad=pad, pad_mode=mode, apply_log=log,
                                  gpu=False, ncore=1)
    case.near(got2, got, "fbp-window", "precomputed window", rtol=1e-4)
    case.seen("reference", name, pad, mode, log, ratio, angles is None)


def batch(case):
    """A stack gives what its slices give one by one."""
    method = case.cycle(["fbp", "bpf", "dfi"], "method")
    func = getattr(rec, method + "_reconstruction")
    ncol, nrow = case.integer(30, 50, "ncol"), case.integer(31, 50, "nrow")
    num = case.choice([1, 2, 3, 7], "num")
    center = ncol / 2.0 + case.uniform(-5, 5)
    kind = case.choice(["f4", "f8", "u2", "i4"], "dtype")
    log = case.choice([True, False], "log")
    if kind in ("u2", "i4"):
        data = case.rng.integers(1, 60, (nrow, num, ncol)).astype(kind)
    else:
        data = case.rng.uniform(0.1, 1.0, (nrow, num, ncol)).astype(kind)
    layout = case.choice(["C", "view", "F"], "layout")
    if layout == "view":
        big = np.zeros((nrow, 2 * num, ncol), data.dtype)
        big[:, ::2] = data
        data = big[:, ::2]
    elif layout == "F":
        data = np.asfortranarray(data)
    angles = None if case.choice([0, 1]) else \
        np.linspace(0, np.pi, nrow) + 0.3
    opt = dict(angles=angles, ratio=case.choice([None, 1.0, 0.0], "ratio"),
               filter_name=case.choice([None, "hann", "parzen"], "filter"),
               apply_log=log, pad_mode=case.choice(["edge", "reflect"]))
    if method != "dfi":
        opt.update(gpu=False, pad=case.choice([None, 0, 5], "pad"))
    ncore = case.choice([1, 2, None, 100], "ncore")
    got = func(data, center, ncore=ncore, **opt)
    case.require(np.shape(got) == (ncol, num, ncol), "shape",
                 "{}: {}".format(method, np.shape(got)))
    for i in range(num):
        one = func(np.ascontiguousarray(data[:, i, :]), center, ncore=1,
                   **opt)
        case.near(got[:, i, :], one, method + "-batch",
                  "slice {} of {}".format(i, num), rtol=2e-4, atol=1e-7)
    if log:
        # dead pixels are no obstacle
        dead = np.array(data, order="C")
        dead[case.rng.random(dead.shape) < 0.02] = 0
        img = func(dead, center, ncore=ncore, **opt)
        case.check(np.all(np.isfinite(img)), method + "-dead",
                   "infinities in slices of data with dead pixels")
    case.seen("batch", method, num > 1, kind, layout, log, ncore)
    case.raises(ValueError, "center-range", "centre outside", func, data,
                case.choice([-0.5, ncol, ncol + 3.0]), ncore=1, **opt)
    opt["angles"] = np.linspace(0, 3, nrow + case.choice([-1, 1]))
    case.raises(ValueError, "angle-number", "wrong number of angles", func,
                data, center, ncore=1, **opt)


def metric_center(case):
    """Best slice metric at the true centre."""
    method = case.cycle(["fbp", "dfi", "bpf"], "method")
    ncol = case.integer(64, 90, "ncol")
    nrow = case.integer(91, 121, "nrow")
    center = (ncol - 1) / 2.0 + case.uniform(-6, 6, "offset")
    radius = min(center, ncol - 1 - center)
    angles = np.linspace(0, np.pi, nrow)
    # hard-edged discs: a wrong centre visibly smears the grey levels
    u = np.arange(ncol) - center
    sino = np.zeros((nrow, ncol))
    for _ in range(6):
        rad = case.uniform(0.08, 0.2) * radius
        dist = case.uniform(0.2, 0.95) * (radius - rad)
        ang = case.uniform(0, 2 * np.pi)
        s = dist * np.cos(angles + ang)
        sino += 2 * np.sqrt(np.maximum(
            rad ** 2 - (u[None] - s[:, None]) ** 2, 0)) * \
            case.uniform(0.7, 1.0)
    data = np.float32(np.exp(-0.02 * sino))
    step = case.choice([0.25, 0.5, 1.0], "step")
    zoom = case.choice([1.0, 1.0, 0.5], "zoom") if method == "fbp" else 1.0
    lo = center - case.uniform(4, 8)
    hi = center + case.uniform(4, 8)
    given = case.choice([None, angles], "angles")
    opt = dict(method=method, gpu=False, angles=given, ratio=1.0,
               sigma=case.choice([0, 2], "sigma"))
    got = rec.find_center_based_slice_metric(
        data, lo, hi, step=step, radius=2, zoom=zoom, metric="entropy",
        ncore=case.choice([1, 4, None], "ncore"), **opt)
    if method == "fbp" and not opt["sigma"]:
        case.check(abs(got - center) <= max(step, 0.5) + 0.5,
                   method + "-center",
                   "found {} instead of {:.3f}".format(got, center))
    else:
        case.check(lo - 3 <= got <= hi + 3, method + "-center-range",
                   "found {} for [{}, {}]".format(got, lo, hi))
    case.seen("metric", method, step, zoom, given is None, opt["sigma"])
    # a custom metric is minimized over exactly the requested list
    calls = []

    def metric(img, **kwargs):
        calls.append(kwargs)
        return float(np.mean(np.abs(img)) * kwargs["a"])

    lst, val = rec._find_center_based_slice_metric(
        data, lo, hi, step=1.0, metric_function=metric, return_metric=True,
        ncore=1, a=2.0, **opt)
    case.near(lst, np.arange(lo, hi, 1.0), "candidates", "searched centres")
    best = rec._find_center_based_slice_metric(
        data, lo, hi, step=1.0, metric_function=metric, return_metric=False,
        ncore=1, a=2.0, **opt)
    case.equal(best, lst[int(np.argmin(val))], "minimum", "minimum")
    inv = rec._find_center_based_slice_metric(
        data, lo, hi, step=1.0, metric_function=metric, return_metric=False,
        invert_metric=True, ncore=1, a=2.0, **opt)
    case.equal(inv, lst[int(np.argmax(val))], "inverted", "inverted metric")
    case.check(len(calls) == 3 * len(lst) and all(
        k == {"a": 2.0} for k in calls), "metric-calls", "metric calls")
    k = int(case.rng.integers(len(lst)))
    src = ndi.gaussian_filter1d(data, opt["sigma"], axis=1) \
        if opt["sigma"] else data
    func = getattr(rec, method + "_reconstruction")
    extra = {} if method == "dfi" else {"gpu": False}
    img = func(src, lst[k], angles=given, ratio=1.0, ncore=1, **extra)
    case.near(val[k], metric(img, a=2.0), "metric-value", "metric of slice",
              rtol=1e-4)
    # metrics chosen by name
    imgs = []
    rec._find_center_based_slice_metric(
        data, lo, hi, step=1.0, return_metric=True, ncore=1,
        metric_function=lambda img: imgs.append(np.array(img)) or 0.0, **opt)
    middle = func(src, np.mean(lst), angles=given, ratio=1.0, ncore=1,
                  filter_name="hann", **extra)
    for name, ref in (("entropy", spread(middle.min(), middle.max())),
                      ("sharpness", edges)):
        _, val = rec._find_center_based_slice_metric(
            data, lo, hi, step=1.0, metric=name, return_metric=True,
            ncore=case.choice([1, 3]), **opt)
        follows(case, "named-metric", val, [ref(img) for img in imgs], name)


def energy(img):
    """Mean over rows of the peak of the autocorrelation."""
    return float(np.mean(np.sum(np.float64(img) ** 2, axis=-1)))


def edges(img):
    grad = np.gradient(np.float64(img))
    return float(np.mean(np.hypot(grad[0], grad[1])))


def spread(low, high):
    """Entropy of the smoothed histogram of grey levels."""
    def func(img):
        lev = np.clip((np.float64(img) - low) / (high - low), 0, 1)
        hist = 1.0 + np.bincount((lev * 255).astype(int).ravel(),
                                 minlength=256)
        hist = np.convolve(hist, np.ones(7), "valid")
        return float(-np.sum(hist * np.log2(hist)))
    return func


def follows(case, key, val, want, text):
    """Two lists of metrics agree up to scale and rounding."""
    val, want = np.float64(val), np.float64(want)
    span = np.ptp(want)
    if span < 1e-4 * np.max(np.abs(want)):
        return
    case.check(np.corrcoef(val, want)[0, 1] > 0.97, key, "{}: metrics {} "
               "do not follow {}".format(text, np.round(val, 4).tolist()[:8],
                                         np.round(want, 4).tolist()[:8]))


def metric_chain(case):
    """A metric which recognises the slice at one centre leads to it."""
    method = case.cycle(["fbp", "dfi", "bpf"], "method")
    ncol = case.integer(40, 56, "ncol")
    nrow = 2 * case.integer(25, 30, "nrow") + 1
    zoom = case.choice([1.0, 1.0, 0.5], "zoom") if method == "fbp" else 1.0
    step = case.choice([0.25, 0.5], "step")
    radius = case.choice([0, 0, 1, 2.5], "radius")
    sigma = case.choice([0, 1, 3], "sigma")
    lo = case.integer(ncol // 2 - 6, ncol // 2 - 3, "lo")
    size = case.integer(3, 8, "size")
    whole = case.integer(0, size, "whole")
    if zoom == 0.5:
        lo, size, whole = 2 * (lo // 2), 2 * (size // 2), 2 * (whole // 2)
    target = float(lo + whole)
    if radius:
        target += case.choice([-step, 0, step], "part")
        # the coarse result is one of the candidates around the target
        target = min(max(target, lo), lo + size)
    elif zoom == 0.5:
        radius = 0
    # strongly uneven angles
    angles = np.pi * np.linspace(0, 1, nrow) ** 1.4
    if method == "dfi":
        angles = np.linspace(0, np.pi, nrow)[::-1].copy()
    sino = smooth(case.rng, (nrow, ncol), 3.0, 0.2, 1.0)
    opt = dict(method=method, gpu=False, ratio=1.0, sigma=sigma,
               filter_name=case.choice([None, "hann", "cosine"], "filter"),
               apply_log=case.choice([True, False], "log"))
    func = getattr(rec, method + "_reconstruction")
    extra = {} if method == "dfi" else {"gpu": False}

    def image(data, cen, ang):
        data = ndi.gaussian_filter1d(data, sigma, axis=1) if sigma else data
        return func(data, cen, angles=ang, ratio=1.0, ncore=1,
                    filter_name=opt["filter_name"],
                    apply_log=opt["apply_log"], **extra)

    refs = {}
    ref = image(sino, target, angles)
    refs[ref.shape] = ref
    if zoom != 1.0:
        small = ndi.zoom(sino, zoom, order=1, mode="nearest")
        ang = np.interp(np.linspace(0, nrow - 1, small.shape[0]),
                        np.arange(nrow), angles)
        near = lo + 2 * round((target - lo) / 2) if radius else target
        ref = image(small, near * zoom, ang)
        refs[ref.shape] = ref
    values = {key: [] for key in refs}

    def metric(img, **kwargs):
        if img.shape not in refs:
            case.fail("chain-shape", "slice of shape {}".format(img.shape))
            return 0.0
        one = refs[img.shape]
        diff = float(np.linalg.norm(img - one) / np.linalg.norm(one))
        values[img.shape].append(diff)
        return -diff if kwargs["upside"] else diff

    upside = case.choice([True, False], "upside")
    got = rec.find_center_based_slice_metric(
        sino, lo, lo + size, step=step, radius=radius, zoom=zoom,
        angles=angles, metric_function=metric, invert_metric=upside,
        upside=upside, ncore=case.choice([1, 4]), **opt)
    case.near(got, target, "chain-centre", "centre of the known slice",
              rtol=0, atol=1e-6)
    tops = {}
    for shape, vals in values.items():
        if shape == (ncol, ncol):
            tops[shape] = 1e-2 if radius or zoom == 1.0 else np.inf
        else:
            tops[shape] = 0.1
    for shape, top in tops.items():
        if np.isfinite(top):
            case.check(bool(values[shape]) and min(values[shape]) < top,
                       "chain-slice", "known slice of {} is not among the "
                       "{} slices of the search, best {:.3g}".format(
                           shape, len(values[shape]),
                           min(values[shape], default=np.inf)))
    case.seen("chain", method, zoom, bool(radius), bool(sigma), upside)


def visual(case):
    """Saved slices are the reconstructions at the centres they name."""
    ncol, nrow = case.integer(40, 60, "ncol"), case.integer(41, 61, "nrow")
    sino = smooth(case.rng, (nrow, ncol), 3.0, 0.3, 1.0)
    method = case.cycle(["fbp", "dfi", "bpf"], "method")
    zoom = case.choice([1.0, 0.5], "zoom")
    start = case.integer(15, 20, "start")
    stop = start + case.integer(0, 4, "len")
    step = case.choice([1, 0.5, 2], "step")
    opt = dict(ratio=case.choice([None, 1.0], "ratio"),
               filter_name=case.choice([None, "hann"], "filter"))
    angles = case.choice([None, np.linspace(0.2, np.pi + 0.2, nrow)])
    folder = rec.find_center_visual_slices(
        sino, case.dir, start, stop, step, zoom=zoom, method=method,
        gpu=False, angles=angles, apply_log=True, ncore=2, **opt)
    names = sorted(os.listdir(folder))
    want = {"center_{:.2f}.tif".format(c): c
            for c in np.arange(start, stop + step / 2.0, step)}
    case.check(set(want) <= set(names) <= set(want) |
               {"center_{:.2f}.tif".format(max(want.values()) + step)},
               "files", "{} instead of {}".format(names, sorted(want)))
    case.check(os.path.dirname(os.path.abspath(folder)) ==
               os.path.abspath(case.dir) and os.path.basename(
                   os.path.normpath(folder)).startswith("Find_center"),
               "folder", folder)
    src, ang = sino, angles
    if zoom != 1.0:
        src = ndi.zoom(sino, zoom, order=1, mode="nearest")
        if ang is not None:
            ang = np.interp(np.linspace(0, nrow - 1, src.shape[0]),
                            np.arange(nrow), ang)
    func = getattr(rec, method + "_reconstruction")
    extra = {} if method == "dfi" else {"gpu": False}
    for name in set(want) & set(names):
        ref = func(src, want[name] * zoom, angles=ang, ncore=1, **opt,
                   **extra)
        case.near(losa.load_image(os.path.join(folder, name)), ref,
                  "slice", name, rtol=2e-2 if ang is not None else 1e-3)
    case.seen("visual", method, zoom, step, angles is None)


def register(ctx):
    ctx.family("analytic", 60, 1500, analytic)
    ctx.family("reference", 64, 2000, reference)
    ctx.family("batch", 48, 1500, batch)
    ctx.family("metric_center", 12, 200, metric_center)
    ctx.family("metric_chain", 18, 400, metric_chain)
    ctx.family("visual", 9, 150, visual)
    ctx.expect_tags("analytic", 30)
    ctx.expect_tags("reference", 30)
    ctx.expect_tags("batch", 20)
    ctx.expect_tags("metric_center", 5)
    ctx.expect_tags("metric_chain", 8)
    ctx.expect_tags("visual", 5)
