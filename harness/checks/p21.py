"""P21: correlation maps, peaks and displacement finders."""
import os
import h5py
import numpy as np
import scipy.ndimage as ndi
import algotom.util.correlation as cl
from algotom.rec.reconstruction import make_smoothing_window
from vlib import noise, smooth

RULE = ("a class is one (finder, dimension, sub-pixel method, option, "
        "displacement sign/size, data type) combination with a known shift")
ASSUMPTIONS = ["textured images, displacement inside the search margin",
               "convention: mat(x) = ref(x + shift)"]


def texture(rng, shape, sigma=1.2):
    mat = ndi.gaussian_filter(rng.standard_normal(shape), sigma, mode="wrap")
    return 10 + 3 * (mat - mat.mean()) / mat.std()


def displaced(rng, shape, sx, sy, sigma=1.2, num=None):
    """Reference and second image with mat(y, x) = ref(y + sy, x + sx)."""
    edge = int(max(abs(sx), abs(sy))) + 10
    refs, mats = [], []
    for _ in range(num or 1):
        big = texture(rng, (shape[0] + 2 * edge, shape[1] + 2 * edge), sigma)
        if float(sx).is_integer() and float(sy).is_integer():
            y0, x0 = edge + int(sy), edge + int(sx)
            mat = big[y0:y0 + shape[0], x0:x0 + shape[1]]
        else:
            y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
            mat = ndi.map_coordinates(big, (y + edge + sy, x + edge + sx),
                                      order=5)
        refs.append(big[edge:edge + shape[0], edge:edge + shape[1]])
        mats.append(mat)
    if num is None:
        return refs[0].copy(), mats[0].copy()
    return np.asarray(refs), np.asarray(mats)


def pearson(ref, mat):
    h2 = ref.shape[-2] - mat.shape[-2] + 1
    w2 = ref.shape[-1] - mat.shape[-1] + 1
    out = np.zeros((h2, w2))
    b = mat.astype(float) - mat.astype(float).mean()
    for i in range(h2):
        for j in range(w2):
            a = ref[..., i:i + mat.shape[-2], j:j + mat.shape[-1]].astype(
                float)
            a = a - a.mean()
            den = np.sqrt((a * a).sum() * (b * b).sum())
            out[i, j] = (a * b).sum() / den if den > 0 else 0.0
    return out


def maps(case):
    three = case.choice([False, True], "3d")
    dtype = case.cycle([np.float64, np.float32, np.uint8, np.uint16],
                       "dtype")
    depth = case.integer(1, 3)
    h0, w0 = case.integer(3, 14), case.integer(3, 14)
    h1, w1 = case.integer(1, h0), case.integer(1, w0)
    shape = ((depth,) if three else ()) + (h0, w0)
    ref = (noise(case.rng, shape, dtype=np.float64) * 250).astype(dtype)
    kind = case.choice(["cut", "other", "flat"], "kind")
    i, j = case.integer(0, h0 - h1), case.integer(0, w0 - w1)
    if kind == "cut":
        mat = ref[..., i:i + h1, j:j + w1].copy()
    elif kind == "flat":
        mat = np.full(shape[:-2] + (h1, w1), 7, dtype=dtype)
    else:
        mat = (noise(case.rng, shape[:-2] + (h1, w1), dtype=np.float64)
               * 250).astype(dtype)
    case.note(ref=ref.shape, mat=mat.shape)
    want = pearson(ref, mat)
    got = cl.generate_correlation_map(ref, mat)
    case.near(got, want, "pearson", "Pearson coefficients", rtol=0,
              atol=2e-4)
    case.check(np.all(np.abs(got) <= 1 + 1e-4), "range", "beyond one")
    if kind == "cut" and h1 * w1 > 3:
        case.check(got[i, j] > 1 - 1e-4, "self", "coefficient {} at the true "
                   "position".format(got[i, j]))
    case.raises(ValueError, "too-large", "second image larger",
                cl.generate_correlation_map, mat,
                np.zeros(shape[:-2] + (h1 + 1, w1)))
    if three:
        case.raises(ValueError, "depth", "other depth",
                    cl.generate_correlation_map, ref,
                    np.zeros((depth + 1, h1, w1)))
    case.seen("map", three, np.dtype(dtype).name, kind, h1 == h0, w1 == w0)


def peaks(case):
    h, w = case.integer(9, 17), case.integer(9, 17)
    method = case.cycle(["diff", "poly_fit"], "method")
    dim = case.choice([1, 2], "dim")
    size = case.choice([3, 4, 5, 7], "size")
    size = min(size, 2 * ((min(h, w) - 1) // 2) + 1)
    rad = (2 * (size // 2) + 1) // 2 + 1
    where = case.choice(["in", "in", "left", "right", "top", "bottom",
                         "corner"], "where")
    y0 = case.integer(rad, h - 1 - rad) + case.uniform(-0.45, 0.45)
    x0 = case.integer(rad, w - 1 - rad) + case.uniform(-0.45, 0.45)
    if where in ("left", "corner"):
        x0 = -0.3
    if where == "right":
        x0 = w - 1 + 0.3
    if where in ("top", "corner"):
        y0 = -0.3
    if where == "bottom":
        y0 = h - 1 + 0.3
    a, b = case.uniform(0.5, 2), case.uniform(0.5, 2)
    cross = case.uniform(-0.3, 0.3) if dim == 2 and where == "in" else 0.0
    y, x = np.mgrid[:h, :w].astype(float)
    mat = 5 - a * (x - x0) ** 2 - b * (y - y0) ** 2 - cross * (x - x0) * (
        y - y0)
    case.note(shape=(h, w), peak=(x0, y0))
    arg = np.unravel_index(np.argmax(mat), mat.shape)
    for sign in (1, -1):
        got = cl.locate_peak(sign * mat, sub_pixel=True, method=method,
                             dim=dim, size=size, max_peak=sign == 1)
        want = [min(max(x0, 0), w - 1), min(max(y0, 0), h - 1)]
        case.near(np.asarray(got, dtype=float), np.asarray(want), "vertex",
                  "vertex of a paraboloid (sign {})".format(sign), rtol=0,
                  atol=1e-6)
        whole = np.rint((mat - mat.min()) * 300 / np.ptp(mat)) + 2
        if sign < 0:
            whole = whole.max() - whole
        want = cl.locate_peak(whole, method=method, dim=dim, size=size,
                              max_peak=sign == 1)
        for dtype in ("uint16", "int16", "int32", "float32"):
            got = cl.locate_peak(whole.astype(dtype), method=method, dim=dim,
                                 size=size, max_peak=sign == 1)
            case.near(np.asarray(got, dtype=float), np.asarray(want),
                      "integer-map", "map of type " + dtype, rtol=0,
                      atol=1e-3)
        got = cl.locate_peak(sign * mat, sub_pixel=False,
                             max_peak=sign == 1)
        case.check(tuple(got) == (arg[1], arg[0]), "whole-pixel",
                   "{} instead of {}".format(got, arg[::-1]))
    case.seen("peak", method, dim, size, where)


def moves(case, limit):
    kind = case.cycle(["zero", "whole", "frac", "frac", "x", "y"], "move")
    lim = limit - 1.0
    sx, sy = case.uniform(-lim, lim), case.uniform(-lim, lim)
    if kind == "zero":
        sx = sy = 0.0
    elif kind == "whole":
        sx, sy = float(round(sx)), float(round(sy))
    elif kind == "x":
        sy = 0.0
    elif kind == "y":
        sx = 0.0
    case.note(sx=sx, sy=sy)
    return kind, sx, sy


def single(case):
    """One displacement from one correlation map."""
    margin = case.integer(3, 9, "margin")
    kind, sx, sy = moves(case, margin)
    axis = case.choice([None, 0, 1], "axis")
    if axis == 0:
        sx = 0.0
    if axis == 1:
        sy = 0.0
    depth = case.choice([None, 2, 3], "depth")
    shape = (2 * margin + case.integer(16, 30),
             2 * margin + case.integer(16, 30))
    ref, mat = displaced(case.rng, shape, sx, sy, num=depth)
    method = case.choice(["diff", "poly_fit"], "method")
    dim = case.choice([1, 2], "dim")
    gain = case.choice([1.0, 0.2], "gain")
    mat = mat * gain + (3 if gain != 1 else 0)
    kw = dict(axis=axis, method=method, dim=dim)
    if method == "poly_fit":
        kw["size"] = case.choice([3, 4, 5, 7], "size")
    # a parabola over more points fits the peak less closely
    tol = 0.15 if kw.get("size", 3) < 4 else 1.1
    got = cl.find_shift_based_correlation_map(ref, mat, margin=margin, **kw)
    case.near(np.asarray(got, dtype=float), [sx, sy], "shift",
              "shift of the second image", rtol=0, atol=tol)
    cut = tuple(slice(margin, -margin) if axis in (None, k) else slice(None)
                for k in (0, 1))
    chart = cl.generate_correlation_map(ref, mat[(Ellipsis,) + cut])
    for sub in (True, False):
        peak = cl.locate_peak(chart, sub_pixel=sub, method=method,
                              dim=dim if axis is None else 1,
                              size=kw.get("size", 3))
        want = [peak[0] - margin if axis != 0 else 0,
                peak[1] - margin if axis != 1 else 0]
        case.near(np.asarray(cl.find_shift_based_correlation_map(
            ref, mat, margin=margin, sub_pixel=sub, **kw), dtype=float),
            want, "peak", "peak of the correlation map", rtol=0, atol=1e-4)
    case.near(np.asarray(cl.find_shift_based_correlation_map(
        ref, mat, margin=margin, sub_pixel=False, **kw), dtype=float),
        [sx, sy], "whole", "whole-pixel shift", rtol=0, atol=0.75)
    if axis is None:
        cut = (Ellipsis, slice(margin, -margin), slice(margin, -margin))
        case.equal(cl.find_shift_based_correlation_map(
            ref, mat[cut], margin=margin, **kw), got, "cropped",
            "second image cropped by hand")
    elif axis == 0:
        case.check(got[0] == 0, "other-axis", "x-shift {}".format(got[0]))
    else:
        case.check(got[1] == 0, "other-axis", "y-shift {}".format(got[1]))
    # exchanging the images reverses the shift
    back = cl.find_shift_based_correlation_map(mat, ref, margin=margin, **kw)
    case.near(np.asarray(back, dtype=float), [-sx, -sy], "reverse",
              "images exchanged", rtol=0, atol=tol if tol < 0.2 else 1.5)
    case.raises(ValueError, "margin", "margin beyond the image",
                cl.find_shift_based_correlation_map, ref, mat,
                margin=max(shape), **kw)
    case.seen("single", kind, axis, depth, method, dim, gain)


def globals_(case):
    margin = case.integer(4, 10, "margin")
    kind, sx, sy = moves(case, margin)
    win = case.choice([15, 20, 25], "win")
    rad = win // 2
    need = 2 * (margin + rad) + 1
    height, width = need + case.integer(6, 40), need + case.integer(6, 40)
    ref, mat = displaced(case.rng, (height, width), sx, sy)
    gap = margin + rad
    num = case.choice([1, 2, 3, 7, 8, 12], "points")
    li = case.rng.integers(gap + 1, height - gap - 1, num)
    lj = case.rng.integers(gap + 1, width - gap - 1, num)
    form = case.choice(["array", "list", "single", "none", "extra"], "form")
    kw = {}
    if form == "array":
        kw["list_ij"] = np.asarray([li, lj])
    elif form == "list":
        kw["list_ij"] = [list(li), list(lj)]
    elif form == "single":
        kw["list_ij"] = [int(li[0]), int(lj[0])]
    elif form == "extra":
        # points outside the box are left out
        kw["list_ij"] = [list(li) + [0, height - 1, 5],
                         list(lj) + [0, 5, width - 1]]
    else:
        kw["num_point"] = num
    value = case.choice(["median", "mean", "mixed"], "global")
    method = case.choice(["diff", "poly_fit"], "method")
    norm = case.choice([False, True], "norm")
    ncore = 3 if case.index % 6 == 0 else 1
    func = cl.find_global_shift_based_local_shifts
    got = func(ref, mat, win, margin, global_value=value, method=method,
               ncore=ncore, norm=norm, **kw)
    case.near(np.asarray(got, dtype=float), [sx, sy], "shift",
              "global shift", rtol=0, atol=0.25)
    if form != "none":
        xs, ys = func(ref, mat, win, margin, method=method, ncore=1,
                      norm=norm, return_list=True, **kw)
        count = 1 if form == "single" else num
        case.check(len(xs) == count == len(ys), "points",
                   "{} shifts for {} points".format(len(xs), count))
        case.near(np.asarray(xs), np.full(count, sx), "local-x", "x-shifts",
                  rtol=0, atol=0.3)
        case.near(np.asarray(ys), np.full(count, sy), "local-y", "y-shifts",
                  rtol=0, atol=0.3)
        lo, hi = np.min(xs) - 1e-9, np.max(xs) + 1e-9
        case.check(lo <= got[0] <= hi, "summary", "global value outside of "
                   "the local values")
        if value == "median":
            case.near(np.asarray(got), [np.median(xs), np.median(ys)],
                      "median", "median of the local values", rtol=1e-6)
    case.raises(ValueError, "outside", "point outside of the box", func, ref,
                mat, win, margin, list_ij=[1, 1], ncore=1)
    case.raises(ValueError, "shape", "shapes differ", func, ref, mat[:-1],
                win, margin, ncore=1)
    case.raises(ValueError, "large", "margin too large", func, ref, mat, win,
                max(height, width), ncore=1)
    case.seen("global", kind, form, value, method, norm, ncore, num)


def field(case, height, width, big):
    """Smoothly varying displacement field."""
    if case.choice([True, False], "uniform"):
        fx, fy = case.uniform(-big, big), case.uniform(-big, big)
        if case.choice([True, False], "whole"):
            fx, fy = round(fx), round(fy)
        return np.full((height, width), float(fx)), \
            np.full((height, width), float(fy)), True
    # a shift and a small strain: the window has to see one displacement
    y, x = np.mgrid[:height, :width].astype(float)
    y, x = y - height / 2.0, x - width / 2.0
    out = []
    for _ in range(2):
        strain = 0.02 * (case.uniform(-1, 1) * x + case.uniform(-1, 1) * y)
        lim = max(big - np.abs(strain).max(), 0.0)
        out.append(np.clip(case.uniform(-lim, lim) + strain, -big, big))
    return out[0], out[1], False


def make_pair(case, depth, height, width, fx, fy, sigma=1.2):
    y, x = np.mgrid[:height, :width].astype(float)
    refs, mats = [], []
    for _ in range(depth):
        big = texture(case.rng, (height + 24, width + 24), sigma)
        refs.append(big[12:-12, 12:-12])
        mats.append(ndi.map_coordinates(big, (y + fy + 12, x + fx + 12),
                                        order=5))
    return np.asarray(refs), np.asarray(mats)


def pixels(case, ref, mat, kw, mode, xs, ys):
    """Single pixels: the peak of the map of their own windows."""
    rad, margin = kw["win_size"] // 2, kw["margin"]
    edge = rad + margin
    for _ in range(4):
        i = case.integer(edge, ref.shape[-2] - edge - 1)
        j = case.integer(edge, ref.shape[-1] - edge - 1)

        def area(arr, gi, gj):
            return np.ascontiguousarray(
                arr[..., i - gi:i + gi + 1, j - gj:j + gj + 1])
        opt = dict(margin=margin, method=kw["method"],
                   size=kw.get("size", 3))
        if mode == "1":
            # along one row or column, all images of the stack together
            want = [cl.find_shift_based_correlation_map(
                np.ascontiguousarray(a), np.ascontiguousarray(b), axis=1,
                dim=1, **opt)[0] for a, b in (
                    (area(ref, 0, edge)[:, 0], area(mat, 0, rad)[:, 0]),
                    (area(ref, edge, 0)[..., 0], area(mat, rad, 0)[..., 0]))]
        else:
            want = cl.find_shift_based_correlation_map(
                area(ref, edge, edge), area(mat, rad, rad), dim=2, **opt)
        case.near(np.asarray([xs[i, j], ys[i, j]], dtype=float), want,
                  "pixel", "shifts of pixel {}".format((i, j)), rtol=0,
                  atol=2e-3)
        case.count("single pixels")


def local(case):
    mode = case.cycle(["2d", "1", "2", "1", "2"], "mode")
    depth = {"2d": 1, "1": case.integer(4, 7), "2": case.integer(2, 4)}[mode]
    win = case.choice([7, 8, 9], "win") if mode != "2d" else 9
    margin = case.integer(2, 4, "margin")
    edge = margin + win // 2
    height = 2 * edge + case.integer(1, 10)
    width = 2 * edge + case.integer(1, 10)
    big = (0.5 if mode == "1" else margin - 1.0)
    fx, fy, uniform = field(case, height, width, big)
    if mode == "1":
        # each direction is searched on its own
        along = case.choice(["x", "y"], "along")
        if along == "x":
            fy[:] = 0
            fx *= (margin - 1.0) / 0.5
        else:
            fx[:] = 0
            fy *= (margin - 1.0) / 0.5
    ref, mat = make_pair(case, depth, height, width, fx, fy)
    if mode == "2d":
        ref, mat = ref[0], mat[0]
    method = case.choice(["diff", "poly_fit"], "method")
    norm = case.choice([True, False], "norm")
    glob = case.choice([True, False], "norm_global")
    dim = 2 if mode == "2d" else int(mode)
    kw = dict(dim=dim, win_size=win, margin=margin, method=method, norm=norm,
              norm_global=glob)
    if method == "poly_fit":
        kw["size"] = case.choice([3, 3, 4, 5], "size")
    ref0, mat0 = ref.copy(), mat.copy()
    xs, ys = cl.find_local_shifts(ref, mat, ncore=1, chunk_size=100, **kw)
    case.equal(ref, ref0, "purity", "reference after the call")
    case.equal(mat, mat0, "purity", "image after the call")
    case.note(shape=(depth, height, width))
    core = (slice(edge, height - edge), slice(edge, width - edge))
    lim = 0.4 if mode != "2d" else 0.6
    lim += 0.8 * (kw.get("size", 3) > 3)
    for name, got, true in (("x", xs, fx), ("y", ys, fy)):
        case.require(got.shape == (height, width), "shape",
                     "{} for {}".format(got.shape, (height, width)))
        err = np.abs(got[core] - true[core])
        if mode == "1" and name != along:
            err[:] = 0.0    # searched along the other displacement: unclaimed
        case.check(np.percentile(err, 90 if uniform else 80) <= lim,
                   "shift-" + name, "{}-shifts off by {:.3f} (90 %)".format(
                       name, np.percentile(err, 90)))
        out = np.ones(got.shape, dtype=bool)
        if mode == "1":
            out[(slice(None), core[1]) if name == "x" else
                (core[0], slice(None))] = False
        else:
            out[core] = False
        case.check(np.all(got[out] == 0), "border", "non-zero values in the "
                   "border of the {}-shifts".format(name))
    if not (norm or glob):
        pixels(case, ref, mat, kw, mode, xs, ys)
    # neither the chunks, the workers nor the container matter
    chunk = case.choice([1, 2, 5, height, None], "chunk")
    ncore = 3 if case.index % 7 == 0 else 1
    obj = [ref, mat]
    fin = None
    if mode != "2d" and not glob and case.choice([True, False], "hdf"):
        path = os.path.join(case.dir, "s.h5")
        with h5py.File(path, "w") as fout:
            fout["r"], fout["m"] = ref, mat
        fin = h5py.File(path, "r")
        obj = [fin["r"], fin["m"]]
    try:
        x2, y2 = cl.find_local_shifts(obj[0], obj[1], ncore=ncore,
                                      chunk_size=chunk, **kw)
    finally:
        if fin is not None:
            fin.close()
    case.near(x2, xs, "chunk-x", "x-shifts, chunks of {}, {} cores".format(
        chunk, ncore), rtol=0, atol=2e-3)
    if mode != "1" or not (norm or glob):
        case.near(y2, ys, "chunk-y", "y-shifts, chunks of {}, {} cores"
                  .format(chunk, ncore), rtol=0, atol=2e-3)
    elif along == "y":
        err = np.percentile(np.abs(y2[core] - fy[core]), 80)
        case.check(err <= lim, "chunk-y", "y-shifts in chunks off by {}"
                   .format(err))
    case.seen("local", mode, method, norm, glob, uniform, chunk, ncore,
              fin is not None)


def umpa_residuals(case, ref, mat, kw, edge, out):
    """The smallest least-squares residual of the speckle model."""
    ref, mat = ref.astype(float), mat.astype(float)
    margin, rad = kw["margin"], edge - kw["margin"]
    win = make_smoothing_window(kw["filter_name"], 2 * rad + 1)
    win = np.outer(win, win)
    level = ref.sum(axis=0).mean() / len(ref)
    num = 2 * margin + 1
    for _ in range(6):
        i = case.integer(edge, ref.shape[1] - edge - 1)
        j = case.integer(edge, ref.shape[2] - edge - 1)
        b = mat[:, i - rad:i + rad + 1, j - rad:j + rad + 1]
        cost = np.zeros((num, num))
        gain = np.zeros((num, num, 2))
        root = np.sqrt(np.broadcast_to(win, b.shape)).ravel()
        for di in range(num):
            for dj in range(num):
                y, x = i + di - margin, j + dj - margin
                a = ref[:, y - rad:y + rad + 1, x - rad:x + rad + 1]
                cols = [root * a.ravel()]
                if kw["dark_signal"]:
                    cols.append(root * level)
                cols = np.stack(cols, axis=1)
                sol = np.linalg.solve(cols.T @ cols,
                                      cols.T @ (root * b.ravel()))
                cost[di, dj] = np.sum((root * b.ravel() - cols @ sol) ** 2)
                gain[di, dj, :len(sol)] = sol
        order = np.sort(cost.ravel())
        di, dj = np.unravel_index(np.argmin(cost), cost.shape)
        if order[1] - order[0] < 1e-3 * order[-1] or \
                not (0 < di < num - 1 and 0 < dj < num - 1):
            continue
        dx, dy = out[0][i, j] + margin - dj, out[1][i, j] + margin - di
        case.check(max(abs(dx), abs(dy)) <= 1.5, "residual",
                   "pixel {}: shift ({:.2f}, {:.2f}) instead of ({}, {})"
                   .format((i, j), out[0][i, j], out[1][i, j], dj - margin,
                           di - margin))
        if kw["dark_signal"] and max(abs(dx), abs(dy)) < 0.45:
            k, beta = gain[di, dj]
            case.near(out[2][i, j], abs(beta + k), "transmission",
                      "transmission", rtol=2e-3)
            case.near(out[3][i, j], abs(k / (beta + k)), "visibility",
                      "dark-field signal", rtol=2e-2)
        case.count("umpa_residual_maps")


def umpa(case):
    depth = case.integer(3, 5)
    win = case.choice([5, 7, 8], "win")
    margin = case.integer(2, 3, "margin")
    edge = margin + win // 2
    height = 2 * edge + case.integer(1, 8)
    width = 2 * edge + case.integer(1, 8)
    fx, fy, uniform = field(case, height, width, margin - 1.0)
    whole = uniform and float(fx[0, 0]).is_integer()
    dtype = case.cycle([np.float64, np.float32, np.uint16, np.uint8],
                       "dtype")
    ref, mat = make_pair(case, depth, height, width, fx, fy)
    trans, vis = 1.0, 1.0
    dark = case.choice([False, True], "dark")
    if dark:
        trans = case.choice([1.0, 0.6], "trans")
        vis = case.choice([1.0, 0.5], "vis")
        mat = trans * (vis * mat + (1 - vis) * ref.mean())
    if np.dtype(dtype).kind == "u":
        ref, mat = [np.rint(a * (2000 if dtype is np.uint16 else 9)).astype(
            dtype) for a in (ref, mat)]
    else:
        ref, mat = ref.astype(dtype), mat.astype(dtype)
    chunk = case.choice([100, 1, 3, height, None], "chunk")
    kw = dict(win_size=win, margin=margin, gpu=False,
              filter_name=case.choice(["hamming", None, "hann", "triang"],
                                      "filter"),
              method=case.choice(["diff", "poly_fit"], "method"),
              dark_signal=dark)
    case.note(shape=(depth, height, width))
    ref0, mat0 = ref.copy(), mat.copy()
    fin, obj = None, [ref, mat]
    if case.choice([False, True], "hdf"):
        path = os.path.join(case.dir, "s.h5")
        with h5py.File(path, "w") as fout:
            fout["r"], fout["m"] = ref, mat
        fin = h5py.File(path, "r")
        obj = [fin["r"], fin["m"]]
    try:
        out = cl.find_local_shifts_umpa(obj[0], obj[1], ncore=1,
                                        chunk_size=chunk, **kw)
    finally:
        if fin is not None:
            fin.close()
    case.equal(ref, ref0, "purity", "reference after the call")
    case.equal(mat, mat0, "purity", "image after the call")
    core = (slice(edge, height - edge), slice(edge, width - edge))
    for name, got, true in (("x", out[0], fx), ("y", out[1], fy)):
        case.require(got.shape == (height, width), "shape", "{}".format(
            got.shape))
        # small windows of few-level images locate the minimum badly: there
        # only the residuals below decide
        if win >= 7 and dtype is not np.uint8 and not dark:
            err = np.median(np.abs(got[core] - true[core]))
            case.check(err <= 0.7, "shift-" + name, "{}-shifts off by {:.3f}"
                       .format(name, err))
    umpa_residuals(case, ref, mat, kw, edge, out)
    if dark:
        for name, got, true in (("trans", out[2], trans),
                                ("dark", out[3], vis)):
            err = abs(np.median(got[core]) - true)
            exact = whole and win >= 7 and dtype is not np.uint8
            case.check(err <= 0.12 or not exact, name, "{} signal {} "
                       "instead of {}".format(name, np.median(got[core]),
                                              true))
            case.check(np.all(np.isfinite(got)), name + "-finite",
                       "non-finite {} signal".format(name))
    # in a single chunk, in another data type
    again = cl.find_local_shifts_umpa(
        np.float64(ref), np.float64(mat), ncore=3 if case.index % 8 == 0
        else 1, chunk_size=None, **kw)
    for k, name in enumerate(("x", "y", "trans", "dark")[:len(out)]):
        diff = np.abs(np.asarray(out[k], dtype=float) - again[k])
        case.check(np.percentile(diff, 95) <= 0.02, "same-" + name,
                   "{} differs by {:.4f} from the one-chunk float result"
                   .format(name, np.percentile(diff, 95)))
    case.seen("umpa", np.dtype(dtype).name, dark, chunk, uniform,
              fin is not None)


def normal(case):
    shape = case.choice([(12, 15), (3, 9, 8)], "shape")
    mat = noise(case.rng, shape, 1.0, 5.0, dtype=case.choice(
        [np.float32, np.float64]))
    got = cl.normalize_image(mat)
    case.check(abs(np.std(got) - 1) < 1e-4, "std", "std {}".format(
        np.std(got)))
    if len(shape) == 3:
        case.near(got.min(), 0.0, "min", "smallest value", atol=1e-5)
        case.near(got, (mat - mat.min()) / mat.std(), "affine",
                  "z-score from zero", rtol=1e-4)
    else:
        case.check(abs(got.mean()) < 1e-4, "mean", "mean {}".format(
            got.mean()))
    case.near(cl.normalize_image(mat * 7.5), got, "gain", "7.5 times the "
              "intensity", rtol=1e-3, atol=1e-4)
    for name in (None, "hann", "bartlett", "blackman", "hamming", "nuttall",
                 "parzen", "triang"):
        size = case.integer(3, 20)
        win = make_smoothing_window(name, size)
        case.check(len(win) == size, "window-size", "{} of {}".format(
            len(win), size))
        case.near(win, win[::-1], "window-symmetry", "window {}".format(name),
                  rtol=1e-6, atol=1e-9)
        case.check(np.max(win) <= 1 + 1e-9 and np.min(win) >= -1e-9,
                   "window-range", "{} to {}".format(win.min(), win.max()))
    case.seen("normal", len(shape), mat.dtype.name)


def register(ctx):
    ctx.family("maps", 96, 2000, maps)
    ctx.family("peaks", 150, 5000, peaks)
    ctx.family("single", 90, 2500, single)
    ctx.family("globals", 60, 1500, globals_)
    ctx.family("local", 45, 900, local)
    ctx.family("umpa", 32, 600, umpa)
    ctx.family("normal", 8, 100, normal)
    ctx.expect_tags("maps", 20)
    ctx.expect_tags("peaks", 30)
    ctx.expect_tags("single", 30)
    ctx.expect_tags("globals", 25)
    ctx.expect_tags("local", 20)
    ctx.expect_tags("umpa", 12)
