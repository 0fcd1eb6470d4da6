"""P15: stripe removal cleans stripes and leaves clean data alone."""
import numpy as np
import pywt
import scipy.ndimage as ndi
import algotom.prep.removal as rem
import algotom.post.postprocessing as post
import algotom.util.utility as util
from vlib import noise, smooth, digest
from checks.p16 import detected

RULE = ("a class is one (method, option set, stripe type, shape parity) "
        "combination; every output is measured against the stripe-free "
        "sinogram, an independent implementation of the published formula "
        "and the outputs for transformed inputs")
ASSUMPTIONS = ["median sizes are odd; columns have no tied values where "
               "sorting is compared",
               "inputs within rounding of a detection threshold are skipped"]


# ---------------------------------------------------------------- inputs

def body(case, shape):
    """Low-contrast sinogram of wide blobs plus pixel and gain noise."""
    n, w = shape
    rng = case.rng
    ang = np.linspace(0, np.pi, n)
    u = np.arange(w) - (w - 1) / 2
    s = np.zeros(shape)
    for _ in range(3):
        d, a = rng.uniform(0, .1) * w, rng.uniform(0, 2 * np.pi)
        sg = rng.uniform(.2, .3) * w
        s += np.exp(-(u[None] - d * np.cos(ang + a)[:, None]) ** 2
                    / 2 / sg ** 2)
    s = 1 + 0.2 * s / s.max()
    return s * (1 + 0.003 * rng.standard_normal(w)) + \
        0.004 * rng.standard_normal(shape)


def stripes(case, shape, kind):
    prof = np.zeros(shape)
    num = 4 if kind == "full" else 1
    wid = {"full": 1, "wide": case.choice([3, 5, 7]), "dead": 2}[kind]
    spots = 10 + 10 * case.rng.choice((shape[1] - 22) // 10, num,
                                      replace=False)
    spots = np.sort(spots + case.integer(0, 2))
    for p in spots:
        if kind == "dead":
            prof[:, p:p + wid] = 0.3 * case.rng.standard_normal((shape[0], 1))
        else:
            prof[:, p:p + wid] = case.choice([-1, 1]) * case.uniform(.04, .1)
    return prof, spots, wid


METHODS = {
    "sorting": rem.remove_stripe_based_sorting,
    "filtering": rem.remove_stripe_based_filtering,
    "fitting": rem.remove_stripe_based_fitting,
    "large": rem.remove_large_stripe,
    "dead": rem.remove_dead_stripe,
    "all": rem.remove_all_stripe,
    "2d": rem.remove_stripe_based_2d_filtering_sorting,
    "norm": rem.remove_stripe_based_normalization,
    "reg": rem.remove_stripe_based_regularization,
    "fft": rem.remove_stripe_based_fft,
    "wavelet": rem.remove_stripe_based_wavelet_fft,
    "interp": rem.remove_stripe_based_interpolation,
}
NAMES = sorted(METHODS)
DETECTING = ("large", "dead", "all", "interp")

# remaining stripe: full, wide, unresponsive (None: not designed for it)
LIMIT = {
    "sorting": (.35, .4, .2), "filtering": (.35, .4, None),
    "fitting": (.4, None, None), "large": (.35, .4, None),
    "dead": (.35, .4, .2), "all": (.35, .4, .2), "2d": (.35, .4, .3),
    "norm": (.35, .35, None), "reg": (.35, .35, None),
    "fft": (.5, None, None), "wavelet": (.4, None, None),
    "interp": (.35, .35, None)}
CLEAN = {"sorting": .2, "filtering": .2, "fitting": .2, "large": .35,
         "dead": .35, "all": .35, "2d": .2, "norm": .4, "reg": None,
         "fft": .2, "wavelet": .2, "interp": .4}


def contrast(mat, spots, wid):
    return np.asarray([mat[:, c:c + wid].mean() - 0.5 * mat[:, c - 4].mean()
                       - 0.5 * mat[:, c + wid + 3].mean() for c in spots])


def quality(case):
    name = case.cycle(NAMES, "method")
    kind = ("full", "wide", "dead")[(case.index // len(NAMES)) % 3]
    shape = (case.integer(140, 200), case.integer(140, 180))
    case.note(kind=kind, shape=shape)
    clean = body(case, shape)
    prof, spots, wid = stripes(case, shape, kind)
    func = METHODS[name]
    out0, out1 = func(clean.copy()), func(clean + prof)
    for out in (out0, out1):
        case.require(out.shape == shape, "shape", "{}".format(out.shape))
        case.require(np.isfinite(out).all(), "finite", "not finite")
    limit = LIMIT[name][("full", "wide", "dead").index(kind)]
    if kind == "dead":
        p = spots[0]
        ratio = np.sqrt(np.mean((out1 - clean)[:, p] ** 2)
                        / np.mean(prof[:, p] ** 2))
    else:
        a = contrast(out1, spots, wid) - contrast(clean, spots, wid)
        b = contrast(clean + prof, spots, wid) - contrast(clean, spots, wid)
        ratio = np.sqrt(np.mean(a ** 2) / np.mean(b ** 2))
    if limit is not None:
        case.check(ratio < limit, "stripe-" + name,
                   "{} stripes of {:.2f} remain".format(kind, ratio))
    else:
        case.check(ratio < 1.4, "worse-" + name,
                   "{} stripes grew to {:.2f}".format(kind, ratio))
    if CLEAN[name] is not None:
        bad = np.sqrt(np.mean((out0 - clean) ** 2)) / clean.std()
        case.check(bad < CLEAN[name], "clean-" + name,
                   "clean data changed by {:.2f}".format(bad))
    case.seen(name, kind, shape[0] % 2, shape[1] % 2)


# ------------------------------------------------- reference formulas

def by_rank(sino, func):
    """Apply func to the image of ranked columns, then rank back."""
    order = np.argsort(sino, axis=0, kind="stable")
    ranked = np.take_along_axis(sino, order, axis=0)
    ranked = func(ranked)
    out = np.zeros(sino.shape)
    np.put_along_axis(out, order, ranked, axis=0)
    return out


def med(mat, size, dim=1):
    half = size // 2
    top = half if dim == 2 else 0
    pad = np.pad(mat, ((top, top), (half, half)), mode="symmetric")
    win = np.lib.stride_tricks.sliding_window_view(
        pad, (2 * top + 1, size))
    return np.median(win.reshape(mat.shape + (-1,)), axis=-1)


def gauss_window(num, sigma):
    """Weights in the order of the FFT."""
    return np.exp(-(np.fft.fftfreq(num) * num) ** 2 / (2.0 * sigma ** 2))


def low_columns(sino, sigma):
    n = sino.shape[0]
    pad = min(150, int(0.1 * n))
    mat = np.pad(sino, ((pad, pad), (0, 0)), mode="reflect")
    win = gauss_window(n + 2 * pad, sigma)
    return np.real(np.fft.ifft(np.fft.fft(mat, axis=0) * win[:, None],
                               axis=0))[pad:n + pad]


def gauss_2d(mat, sx, sy, pad):
    big = np.pad(mat, ((0, 0), (pad, pad)), mode="edge")
    big = np.pad(big, ((pad, pad), (0, 0)), mode="mean")
    win = np.outer(gauss_window(big.shape[0], sy),
                   gauss_window(big.shape[1], sx))
    out = np.real(np.fft.ifft2(np.fft.fft2(big) * win))
    return out[pad:pad + mat.shape[0], pad:pad + mat.shape[1]]


def local_fit(sino, order, chunk):
    n = sino.shape[0]
    length = n // chunk
    length -= 1 - length % 2
    half = length // 2
    vand = np.vander(np.arange(-half, half + 1.0) / max(half, 1), order + 1)
    row = np.linalg.pinv(vand)[-1]
    pad = np.pad(sino, ((half, half), (0, 0)), mode="reflect")
    return np.asarray([row @ pad[i:i + length] for i in range(n)])


def bounds(n, num_chunk):
    return np.array_split(np.arange(n), num_chunk)


def ranked_or_not(sino, sort, func):
    return by_rank(sino, func) if sort else func(sino)


def ref_fitting(sino, order, sigma, sort, num_chunk):
    def work(mat):
        pad = min(150, int(0.1 * mat.shape[0]))
        sy = int(np.clip(min(60, int(0.1 * mat.shape[1])), 10, None))
        fit = local_fit(mat, order, num_chunk)
        filt = gauss_2d(fit, sigma, sy, pad)
        filt = filt * np.mean(np.abs(fit)) / np.mean(np.abs(filt))
        return mat / fit * filt
    return ranked_or_not(sino, sort, work)


def ref_normalization(sino, sigma, num_chunk, sort):
    def work(mat):
        mat = mat.copy()
        for pos in bounds(len(mat), num_chunk):
            mean = mat[pos].mean(axis=0)
            mat[pos] += ndi.gaussian_filter1d(mean, sigma) - mean
        return mat
    return ranked_or_not(sino, sort, work)


def ref_regularization(sino, alpha, num_chunk, apply_log, sort):
    def work(mat):
        mat = mat.copy()
        if apply_log:
            mat = np.where(mat <= 0, np.abs(mat).mean(), mat)
            mat = -np.log(mat)
        w = mat.shape[1]
        diff = np.diff(np.eye(w), axis=0)
        lap = diff.T @ diff
        for pos in bounds(len(mat), num_chunk):
            mean = mat[pos].mean(axis=0)
            mat[pos] -= np.linalg.solve(lap + alpha * np.eye(w), lap @ mean)
        return mat
    out = ranked_or_not(sino, sort, work)
    return np.exp(-out) if apply_log else out


def ref_fft(sino, u, n, v, sort):
    def work(mat):
        pad = min(150, int(0.1 * min(mat.shape)))
        big = np.pad(mat, ((pad, pad), (0, 0)), mode="mean")
        big = np.pad(big, ((0, 0), (pad, pad)), mode="edge")
        fy = np.rint(np.fft.fftfreq(big.shape[0]) * big.shape[0])
        fx = np.rint(np.fft.fftfreq(big.shape[1]) * big.shape[1])
        gain = np.ones(big.shape)
        gain[np.abs(fy) <= v] = 1.0 / (1.0 + (fx / u) ** (2 * n))
        out = np.real(np.fft.ifft2(np.fft.fft2(big) * gain))
        return out[pad:pad + mat.shape[0], pad:pad + mat.shape[1]]
    return ranked_or_not(sino, sort, work)


def ref_wavelet(sino, level, size, wavelet, window, sort):
    def work(mat):
        pad = min(150, int(0.1 * min(mat.shape)))
        big = np.pad(mat, ((pad, pad), (0, 0)), mode="mean")
        big = np.pad(big, ((0, 0), (pad, pad)), mode="edge")
        most = int(min(np.floor(np.log2(k / 16.0)) for k in big.shape))
        data = pywt.wavedec2(big, wavelet,
                             level=level if 1 <= level <= most else most)
        for i in range(1, len(data)):
            ch, cv, cd = data[i]
            fy = np.rint(np.fft.fftfreq(cv.shape[0]) * cv.shape[0])
            if window == "butter":
                gain = 1 - 1 / (1 + (fy / size) ** 2)
            else:
                gain = 1 - np.exp(-fy ** 2 / (2.0 * size ** 2))
            cv = np.real(np.fft.ifft(np.fft.fft(cv, axis=0) * gain[:, None],
                                     axis=0))
            data[i] = (ch, cv, cd)
        out = pywt.waverec2(data, wavelet)
        return out[pad:pad + mat.shape[0], pad:pad + mat.shape[1]]
    return ranked_or_not(sino, sort, work)


def grow(mask):
    out = mask.copy()
    out[1:] |= mask[:-1]
    out[:-1] |= mask[1:]
    return out


def factors(sino, size, drop):
    """Column brightness relative to the neighbours, by rank."""
    n = sino.shape[0]
    ranked = np.sort(sino, axis=0)
    flat = med(ranked, size)
    cut = int(0.5 * np.clip(drop, 0, 0.8) * n)
    one = ranked[cut:n - cut].mean(axis=0)
    two = flat[cut:n - cut].mean(axis=0)
    return one, two


def ref_large(sino, snr, size, drop, norm):
    sino = sino.astype(np.float32).astype(np.float64)
    one, two = factors(sino, size, drop)
    fact = np.where(two != 0, one / np.where(two != 0, two, 1), 1.0)
    mask = detected(fact, snr)
    if mask is None or isinstance(mask, str):
        return mask
    flat = by_rank(sino, lambda m: med(m, size))
    out = sino / fact if norm else sino.copy()
    mask = grow(mask)
    out[:, mask] = flat[:, mask]
    return out


def fill(sino, mask):
    out = sino.copy()
    good = np.flatnonzero(~mask)
    for i in range(len(out)):
        out[i, mask] = np.interp(np.flatnonzero(mask), good, sino[i, good])
    return out


def ref_dead(sino, snr, size, strength):
    flat = ndi.uniform_filter1d(sino, strength, axis=0)
    diff = np.abs(sino - flat).sum(axis=0)
    base = med(diff[None], size)[0]
    base = np.where(base == 0, np.abs(base).mean(), base)
    mask = detected(diff / base, snr)
    if mask is None or isinstance(mask, str):
        return mask
    mask = grow(mask)
    mask[:2] = mask[-2:] = False
    if sino.shape[1] // 3 > mask.sum() > 0:
        return fill(sino, mask)
    return sino


def ref_interp(sino, snr, size, drop, norm):
    one, two = factors(sino, size, drop)
    one = np.where(one == 0, 1.0, one)
    fact = np.where(two != 0, one / np.where(two != 0, two, 1), 1.0)
    mask = detected(fact, snr)
    if mask is None or isinstance(mask, str):
        return mask
    mask = grow(mask)
    mask[:2] = mask[-2:] = False
    out = sino / fact if norm else sino.copy()
    return fill(out, mask)


def formula(case):
    name = case.cycle(NAMES, "method")
    if name == "all":
        return combined(case)
    big = name == "wavelet"
    shape = (case.integer(40 if big else 24, 72),
             case.integer(40 if big else 24, 72))
    case.note(shape=shape)
    sino = body(case, shape)
    if case.choice([0, 1], "rough"):
        sino = noise(case.rng, shape, 0.5, 1.5).astype(np.float64)
    kind = case.choice(["none", "full", "wide", "dead"], "kind")
    if kind != "none":
        col = case.integer(0, shape[1] - 4)
        if kind == "dead":
            sino[:, col:col + 2] = 1.0 + 0.3 * case.rng.standard_normal(
                (shape[0], 1))
            sino[:, col:col + 2] = np.clip(sino[:, col:col + 2], 0.01, None)
        else:
            sino[:, col:col + (1 if kind == "full" else 4)] *= case.choice(
                [0.5, 0.9, 1.2, 2.0])
    sino = sino.astype(np.float32).astype(np.float64)
    if case.choice([0, 1], "signed") and name in (
            "sorting", "filtering", "2d", "norm", "fft", "wavelet"):
        sino = (sino - 1.1).astype(np.float32).astype(np.float64)
    if np.diff(np.sort(sino, axis=0), axis=0).min() == 0:
        # the order of tied values is arbitrary
        return
    sort = case.choice([True, False], "sort")
    size = case.choice([3, 5, 9, 21], "size")
    dim = case.choice([1, 2], "dim")
    snr = case.choice([1.5, 2.0, 3.0], "snr")
    drop = case.choice([0.0, 0.1, 0.3, 0.95], "drop")
    norm = case.choice([True, False], "norm")
    chunk = case.choice([1, 2, 3], "num_chunk")
    before = digest(sino)
    rtol = 2e-6
    func = METHODS[name]
    if name == "sorting":
        args, want = (size, dim), by_rank(sino, lambda m: med(m, size, dim))
    elif name == "filtering":
        sigma = case.choice([1, 3, 8], "sigma")
        low = low_columns(sino, sigma)
        args = (sigma, size, dim, sort)
        if sort:
            # the order of nearly equal smoothed values is arbitrary
            gap = np.diff(np.sort(low, axis=0), axis=0).min()
            if gap < 1e-6:
                return
        want = ranked_or_not(low, sort, lambda m: med(m, size, dim)) + \
            sino - low
        rtol = 1e-5
    elif name == "fitting":
        order, sigma = case.choice([1, 2, 3]), case.choice([3, 10], "sigma")
        args = (order, sigma, sort, chunk)
        want = ref_fitting(sino, *args)
        rtol = 1e-5
    elif name == "2d":
        sigma = case.choice([1, 3, 8], "sigma")
        flat = gauss_2d(sino, sigma, sigma, min(150, int(0.1 * min(shape))))
        args = (sigma, size, dim)
        want = flat + by_rank(sino - flat, lambda m: med(m, size, dim))
        if np.diff(np.sort(sino - flat, axis=0), axis=0).min() < 1e-6:
            return
        rtol = 1e-5
    elif name == "norm":
        args = (case.choice([3, 15], "sigma"), chunk, sort)
        want = ref_normalization(sino, *args)
    elif name == "reg":
        alpha = case.choice([0.0005, 0.01, 0.3, 2.0], "alpha")
        log = case.choice([True, False], "log")
        if log and case.choice([0, 0, 1]):
            sort = False
            sino[case.rng.random(shape) < 0.05] = 0.0
            before = digest(sino)
        args = (alpha, chunk, log, sort)
        if log and sort:
            # sorted before the logarithm: the ranks are those of the input
            def work(mat):
                return ref_regularization(mat, alpha, chunk, True, False)
            want = by_rank(sino, work)
        else:
            want = ref_regularization(sino, *args)
        rtol = 1e-4
    elif name == "fft":
        args = (case.choice([5, 20], "u"), case.choice([2, 8], "n"),
                case.choice([0, 1, 3], "v"), sort)
        want = ref_fft(sino, *args)
    elif name == "wavelet":
        args = (case.choice([1, 2, 5], "level"), case.choice([1, 3]),
                case.choice(["db9", "db5", "haar"], "wavelet"),
                case.choice(["gaussian", "butter"], "window"), sort)
        want = ref_wavelet(sino, *args)
    elif name == "large":
        args = (snr, size, drop, norm)
        want = ref_large(sino, *args)
        rtol = 1e-5
    elif name == "dead":
        strength = case.choice([3, 10], "strength")
        args = (snr, size, False, strength)
        want = ref_dead(sino, snr, size, strength)
    else:
        args = (snr, size, drop, norm)
        want = ref_interp(sino, *args)
        rtol = 1e-5
    if want is None:
        return
    if isinstance(want, str):
        case.raises(ValueError, "noise-free", "data without noise", func,
                    sino, *args)
        return
    got = func(sino, *args)
    case.check(digest(sino) == before, "mutated-" + name, "input changed")
    case.near(got, want, "formula-" + name, "{}{}".format(name, args),
              rtol=rtol)
    if name in ("large", "dead", "interp"):
        case.count("stripes_replaced", int(
            (np.abs(got - sino).max(axis=0) > 0).sum() > 0))
    case.seen(name, kind, sort, dim, shape[0] % 2, shape[1] % 2)


def combined(case):
    """The combination equals its parts one after the other."""
    shape = (case.integer(40, 80), case.integer(40, 80))
    sino = body(case, shape)
    sino[:, case.integer(3, shape[1] - 9)] *= 1.1
    snr, la, sm = case.choice([2.0, 3.0]), case.choice([21, 31]), 11
    drop, dim = case.choice([0.1, 0.3]), case.choice([1, 2])
    try:
        want = rem.remove_dead_stripe(sino, snr, la, residual=False)
        want = rem.remove_large_stripe(want, snr, la, drop_ratio=drop)
        want = rem.remove_stripe_based_sorting(want, sm, dim)
    except ValueError:
        case.raises(ValueError, "noise-free", "data without noise",
                    rem.remove_all_stripe, sino, snr, la, sm, drop, dim)
        return
    case.near(rem.remove_all_stripe(sino, snr, la, sm, drop, dim), want,
              "combination", "remove_all_stripe", rtol=1e-6)
    two = rem.remove_dead_stripe(sino, snr, la, residual=False)
    two = rem.remove_large_stripe(two, snr, la)
    case.near(rem.remove_dead_stripe(sino, snr, la), two, "residual",
              "dead stripe with residual removal", rtol=1e-6)
    case.seen("all", snr, dim)


# ---------------------------------------------------------- relations

SCALE = [n for n in NAMES]
OFFSET = ["sorting", "filtering", "2d", "norm", "fft", "wavelet"]
MIRROR = [n for n in NAMES if n != "wavelet"]


def relations(case):
    name = case.cycle(NAMES, "method")
    shape = (case.integer(50, 90), case.integer(60, 90))
    case.note(shape=shape)
    sino = body(case, shape)
    sino[:, case.integer(5, shape[1] - 6)] *= 1.05
    func = METHODS[name]
    opt = {"large": {"size": 21}, "dead": {"size": 21},
           "all": {"la_size": 21}, "interp": {"size": 21}}.get(name, {})
    try:
        base = func(sino, **opt)
    except ValueError:
        return
    case.require(np.isfinite(base).all(), "finite-" + name, "not finite")
    tol = 2e-5

    def same(got, want, key):
        # a value exactly at a decision threshold may fall on either side
        got = np.asarray(got)
        if got.shape != want.shape:
            case.fail(key, "shape {}".format(got.shape))
            return
        off = np.abs(got - want) > tol * np.abs(want).max()
        allowed = 0.02 if name in DETECTING else 0.002
        case.check(off.mean() <= allowed, key, "{}: {:.1%} of the pixels "
                   "differ".format(name, off.mean()))

    factor = case.choice([0.25, 3.0, 100.0], "factor")
    same(func(factor * sino, **opt), factor * base, "scale-" + name)
    if name in MIRROR:
        same(func(sino[:, ::-1].copy(), **opt), base[:, ::-1],
             "mirror-" + name)
    if name in OFFSET:
        same(func(sino - 1.0, **opt), base - 1.0, "offset-" + name)
    if name == "reg":
        raw = func(sino, apply_log=False)
        same(func(sino + 2.0, apply_log=False) - func(
            np.full(shape, 2.0), apply_log=False), raw, "linear-reg")
    if name in ("sorting", "norm", "large", "interp", "reg"):
        perm = case.rng.permutation(shape[0])
        same(func(sino[perm], **opt), base[perm], "rows-" + name)
    same(func(sino.astype(np.float32), **opt), base, "float32-" + name) \
        if name not in ("filtering", "2d") else None
    case.seen(name, factor)


def degenerate(case):
    """Flat, empty-column and signed data stay finite and unharmed."""
    name = case.cycle([n for n in NAMES if n not in DETECTING], "method")
    shape = (case.integer(36, 70), case.integer(36, 70))
    case.note(shape=shape)
    func = METHODS[name]
    level = case.choice([1.0, 0.3, 7.0], "level")
    flat = func(np.full(shape, level))
    if name == "reg":
        # pulled towards zero by alpha alone
        case.check(np.ptp(flat) < 1e-6 * level, "flat-reg", "not flat")
    case.near(flat, np.full(shape, level), "flat-" + name,
              "constant sinogram", rtol=1e-5)
    if name != "reg":
        zero = func(np.zeros(shape)) if name != "fitting" else None
        if zero is not None:
            case.near(zero, np.zeros(shape), "zero-" + name, "zeros")
    sino = body(case, shape)
    num = case.integer(1, 8)
    sino[:, :num] = 0.0
    sino[:, -num:] = 0.0
    out = func(sino)
    case.require(out.shape == shape, "shape", "")
    case.check(np.isfinite(out).all(), "finite-" + name,
               "not finite with empty columns")
    if name in OFFSET:
        out = func(sino - 1.2)
        case.check(np.mean(out < 0) > 0.8, "sign-" + name,
                   "negative values lost")
    case.seen(name, num, level)


def dead_columns(case):
    """Detecting methods with columns without any signal."""
    name = case.cycle(list(DETECTING), "method")
    shape = (case.integer(60, 100), case.integer(80, 120))
    sino = body(case, shape)
    num = case.integer(1, 3)
    col = case.integer(8, shape[1] - 12)
    sino[:, col:col + num] = 0.0
    case.note(shape=shape, column=col, num=num)
    opt = {"all": {"la_size": 21}}.get(name, {"size": 21})
    try:
        out = METHODS[name](sino, **opt)
    except ValueError as err:
        # refused openly when no noise level can be told from the columns
        case.require("noise" in str(err), "refused-" + name, str(err)[:100])
        return
    case.require(np.isfinite(out).all(), "finite-" + name,
                 "not finite with dead columns")
    case.check(np.abs(out[:, col:col + num] - 1.1).mean() < 0.2,
               "dead-" + name, "dead columns not replaced")
    case.seen(name, num)


def integer_data(case):
    """Integer sinograms give what the same numbers give as floats."""
    name = case.cycle(NAMES, "method")
    shape = (case.integer(50, 90), case.integer(60, 90))
    sino = body(case, shape)
    sino[:, case.integer(5, shape[1] - 6)] *= 1.05
    dtype = case.choice([np.uint16, np.int32, np.uint16], "dtype")
    if name in ("dead", "all"):
        col = case.integer(8, shape[1] - 9)
        sino[:, col:col + 2] = 1 + 0.3 * case.rng.random((shape[0], 1))
    sino = np.rint(20000 * sino).astype(dtype)
    func = METHODS[name]
    opt = {"large": {"size": 21}, "dead": {"size": 21},
           "all": {"la_size": 21}, "interp": {"size": 21}}.get(name, {})
    try:
        want = func(sino.astype(np.float64), **opt)
    except ValueError:
        return
    got = func(sino, **opt)
    case.require(got.shape == shape, "shape", "{}".format(got.shape))
    # tied values may be ranked in any order
    off = np.abs(np.sort(got.astype(np.float64), axis=0)
                 - np.sort(want, axis=0)) > 3.0
    case.check(off.mean() < 0.02, "integer-" + name,
               "{:.1%} of the pixels differ".format(off.mean()))
    case.seen(name, np.dtype(dtype).name)


# ------------------------------------------------------------ options

def options(case):
    shape = (case.integer(40, 70), case.integer(40, 70))
    sino = body(case, shape)
    size = case.choice([5, 11])
    name = case.cycle(["sorting", "filtering", "fitting", "large", "2d",
                       "norm", "wavelet", "interp", "all"], "method")
    func = METHODS[name]
    median = {"m": {"method": "median_filter", "para1": (1, size)}}
    try:
        if name in ("sorting", "filtering", "large", "2d", "interp"):
            kw = {"size": size}
            case.near(func(sino, **median), func(sino, **kw),
                      "same-" + name, "median given as an option", rtol=1e-6)
            # filters of the package's own utility module, and two steps
            idle = func(sino, m={"method": "gaussian_filter", "p": (0, 0)})
            near = func(sino, m={"method": "gaussian_filter", "p": (1, 3)})
            mine = func(sino, m={"method": "apply_gaussian_filter", "p1": 3,
                                 "p2": 1, "p3": 20})
            effect = np.mean(np.abs(near - idle))
            case.check(np.mean(np.abs(mine - idle)) >= 0.05 * effect,
                       "utility-" + name, "utility filter as an option has "
                       "no effect")
            both = func(sino, a={"method": "apply_gaussian_filter", "p1": 3,
                                 "p2": 1, "p3": 20},
                        b={"method": "gaussian_filter", "p": (0, 0)})
            case.near(both, mine, "steps-" + name, "two filters", rtol=1e-5,
                      atol=1e-5)
            both = func(sino, a={"method": "gaussian_filter", "p": (1, 3)},
                        b={"method": "gaussian_filter", "p": (0, 0)})
            case.near(both, near, "steps-" + name, "two filters", rtol=1e-5,
                      atol=1e-5)
            both = func(sino, a={"method": "gaussian_filter", "p": (0, 0)},
                        b={"method": "gaussian_filter", "p": (1, 3)})
            case.near(both, near, "steps-" + name, "two filters", rtol=1e-5,
                      atol=1e-5)
        elif name == "norm":
            case.near(func(sino, m={"method": "gaussian_filter",
                                    "para1": 15}), func(sino, sigma=15),
                      "same-norm", "Gaussian given as an option", rtol=1e-6)
        elif name == "fitting":
            pad = min(150, int(0.1 * shape[0]))
            case.near(func(sino, m={"method": "apply_gaussian_filter",
                                    "p1": 10, "p2": 10, "p3": pad}),
                      func(sino, sigma=10), "same-fitting",
                      "Gaussian given as an option", rtol=1e-6)
        elif name == "all":
            got = func(sino, sm_size=size, la_size=size)
            case.near(func(sino, la_size=size, **median), got, "same-all",
                      "median given as an option", rtol=1e-6)
        else:
            got = func(sino, m={"method": "gaussian_filter",
                                "para1": (0, 0)})
            case.near(got, sino, "same-wavelet", "filter doing nothing",
                      rtol=1e-6)
    except ValueError as err:
        case.check("noise" in str(err), "refused-" + name, str(err)[:100])
    bad = [("format", {"m": 3}), ("parameters", {"m": {
        "method": "gaussian_filter", "para1": (1, 2, 3, 4)}}),
        ("method", {"m": {"method": "no_such_filter", "para1": 3}})]
    for key, opt in bad:
        case.raises(ValueError, "bad-" + key, "{} of {}".format(key, name),
                    func, sino, **opt)
    case.seen(name, size)


# --------------------------------------------------------------- rings

def rings(case):
    which = case.cycle(["fft", "wavelet"], "method")
    width = case.integer(90, 140, "width") if which == "fft" else \
        case.integer(220, 280, "width")
    half = (width - 1) / 2.0
    y, x = np.mgrid[:width, :width] - half
    rad = np.hypot(x, y)
    base = np.exp(-((x - .1 * width) ** 2 + y ** 2) / (.3 * width) ** 2)
    base += 0.004 * case.rng.standard_normal(base.shape)
    base -= case.choice([0.0, 0.5, 2.0], "offset")
    ring = np.zeros(base.shape)
    radii = sorted(case.rng.choice(np.arange(9, int(half) - 7, 9), 3,
                                   replace=False))
    for r in radii:
        ring += 0.1 * case.choice([-1, 1]) * np.exp(-(rad - r) ** 2 / 1.5)
    sort = case.choice([False, True], "sort")
    func = post.remove_ring_based_fft if which == "fft" \
        else post.remove_ring_based_wavelet_fft
    opt = {"u": case.choice([3, 5], "u"), "n": 8, "v": 1} \
        if which == "fft" else {
            "level": 5, "size": case.choice([1, 2], "size"),
            "wavelet_name": "db5"}
    image = base + ring
    before = digest(image)
    got = func(image, sort=sort, **opt)
    clean = func(base, sort=sort, **opt)
    case.check(digest(image) == before, "mutated", "input changed")
    case.require(got.shape == image.shape and np.isfinite(got).all(),
                 "finite", "shape or values")
    mask = util.make_circle_mask(width, 1.0)
    case.check(np.all(got[mask == 0] == 0), "mask", "outside the circle")
    inner = (rad < half - 4) & (rad > 5)
    turn = np.linspace(0, 2 * np.pi, 720, endpoint=False)

    def height(mat):
        out = []
        for r in radii:
            a, b, c = [ndi.map_coordinates(
                mat, [half + k * np.sin(turn), half + k * np.cos(turn)],
                order=1).mean() for k in (r - 4, r, r + 4)]
            out.append(b - (a + c) / 2)
        return np.asarray(out)
    ratio = np.sqrt(np.mean(height(got - clean) ** 2)
                    / np.mean(height(ring) ** 2))
    case.check(ratio < 0.5, "ring", "{:.2f} of the rings remain".format(
        ratio))
    bad = np.sqrt(np.mean((clean - base)[inner] ** 2))
    case.check(bad < 0.05, "clean", "ring-free image changed by {:.3f}"
               .format(bad))
    # the same steps one by one
    steps = rem.remove_stripe_based_fft if which == "fft" \
        else rem.remove_stripe_based_wavelet_fft
    other = {"u": case.integer(2, 30), "n": case.integer(1, 12),
             "v": case.integer(1, 5)} if which == "fft" else {
        "level": case.integer(1, 4), "size": case.integer(1, 4),
        "wavelet_name": case.choice(["db2", "db9", "sym4", "haar"])}
    full = {"u": 20, "n": 8, "v": 1} if which == "fft" else {
        "level": 5, "size": 1, "wavelet_name": "db9"}
    some = {k: other[k] for k in sorted(other) if case.choice([0, 1])}
    case.note(some=some)
    for given in (dict(opt), some):
        if case.choice([0, 1]) or len(given) < 3:
            given["sort"] = sort
        used = dict(full, sort=False)
        used.update(given)
        polar = steps(util.transform_slice_forward(image), **used)
        case.near(func(image, **given),
                  util.transform_slice_backward(polar) * mask, "steps",
                  "polar stripe removal with {}".format(given), rtol=1e-5)
    case.raises(ValueError, "square", "oblong image", func, image[1:])
    case.seen(which, sort, width % 2)


def register(ctx):
    ctx.family("quality", 144, 2400, quality)
    ctx.family("formula", 480, 9600, formula)
    ctx.family("relations", 120, 2400, relations)
    ctx.family("degenerate", 96, 1600, degenerate)
    ctx.family("dead_columns", 40, 800, dead_columns)
    ctx.family("integer_data", 60, 1000, integer_data)
    ctx.family("options", 36, 600, options)
    ctx.family("rings", 24, 400, rings)
    ctx.expect_tags("quality", 60)
    ctx.expect_tags("formula", 120)
    ctx.expect_tags("relations", 20)
    ctx.expect_tags("degenerate", 20)
    ctx.expect_tags("rings", 5)
