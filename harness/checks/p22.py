"""P22: statistics, rescaling, downsampling and ring removal inputs."""
import os
import h5py
import numpy as np
import scipy.ndimage as ndi
from PIL import Image
import algotom.post.postprocessing as post
import algotom.io.loadersaver as losa
from vlib import noise, integers, snapshot, tree_diff

RULE = ("a class is one (operation, source kind, target kind, data type, "
        "option) combination compared with the direct array computation")
ASSUMPTIONS = ["tif folders written by algotom; rescaling of integer data "
               "with the default full range"]

DTYPES = [np.float32, np.uint8, np.uint16, np.float32]


def volume(case, lo=1, hi=9, dtypes=DTYPES):
    shape = (case.integer(lo, hi), case.integer(3, 14), case.integer(3, 14))
    dtype = case.cycle(dtypes, "dtype")
    if np.dtype(dtype).kind == "f":
        vol = noise(case.rng, shape, -3, 7, dtype=dtype)
    else:
        info = np.iinfo(dtype)
        vol = integers(case.rng, shape, info.min, info.max, dtype)
    case.note(shape=shape)
    return vol, dtype


def cropping(case, shape, keep=(1, 1, 1)):
    if case.choice([True, False], "crop"):
        return (0, 0, 0, 0, 0, 0)
    out = []
    for num, least in zip(shape, keep):
        room = max(num - least, 0)
        a = case.integer(0, min(room, 4))
        b = case.integer(0, min(room - a, 4))
        out += [a, b]
    case.note(crop_values=tuple(out))
    return tuple(out)


def cut(vol, crop):
    d, h, w = vol.shape
    return vol[crop[0]:d - crop[1], crop[2]:h - crop[3], crop[4]:w - crop[5]]


def source(case, vol, name="src"):
    """The volume as an array, a tif folder or an hdf file."""
    kind = case.choice(["array", "tif", "hdf"], "source")
    if kind == "array":
        return kind, vol, {}
    if kind == "tif":
        folder = os.path.join(case.dir, name)
        for i, mat in enumerate(vol):
            losa.save_image(folder + "/im_{:04d}.tif".format(i), mat)
        return kind, folder, {}
    path = os.path.join(case.dir, name + case.choice([".hdf", ".h5", ".nxs"]))
    key = case.choice(["entry/data", "vol", "a/b/c"])
    with h5py.File(path, "w") as fout:
        fout[key] = vol
    return kind, path, {"key_path": key}


def target(case, name="out"):
    kind = case.choice(["none", "tif", "hdf"], "target")
    if kind == "none":
        return kind, None
    if kind == "tif":
        return kind, os.path.join(case.dir, name)
    return kind, os.path.join(case.dir, name + case.choice([".hdf", ".h5"]))


def read(kind, out, got):
    """The produced volume and its data type as stored."""
    if kind == "none":
        return np.asarray(got)
    if kind == "tif":
        return np.asarray([np.asarray(Image.open(f))
                           for f in losa.find_file(out + "/*.tif")])
    got = None
    with h5py.File(out, "r") as fin:
        return fin["entry/data"][:]


def statistics(case):
    vol, dtype = volume(case)
    crop = cropping(case, vol.shape)
    kind, src, kw = source(case, vol)
    part = cut(vol, crop).astype(np.float64)
    skip = case.choice([1, 1, 2, 5, 100], "skip")
    pct = case.choice([(0, 100), (5, 95), (25, 50)], "percentile")
    denoise = case.choice([False, False, True], "denoise")
    step = int(np.clip(skip, 1, max(len(part) - 1, 1)))
    used = [part[i] for i in range(0, len(part), step)]
    raw = [cut(vol, crop)[i] for i in range(0, len(part), step)]
    if denoise:
        if kind == "tif":
            raw = [np.float32(m) for m in raw]
        used = [ndi.gaussian_filter(m, 2).astype(np.float64) for m in raw]
    got = post.get_statistical_information_dataset(
        src, percentile=pct, skip=skip, denoise=denoise, crop=crop, **kw)
    scale = max(np.abs(part).max(), 1e-6)
    want = [min(m.min() for m in used), max(m.max() for m in used),
            min(np.percentile(m, pct[0]) for m in used),
            max(np.percentile(m, pct[1]) for m in used),
            np.mean([m.mean() for m in used]),
            np.median([np.median(m) for m in used]),
            np.mean([m.var() for m in used])]
    names = ["min", "max", "min-percent", "max-percent", "mean", "median",
             "variance"]
    for name, a, b in zip(names, got, want):
        tol = 1e-4 * (scale ** 2 if name == "variance" else scale)
        case.near(a, b, name, "{} of the dataset".format(name), rtol=0,
                  atol=tol)
    if skip == 1 and not denoise:
        case.near(got[4], part.mean(), "mean-of-all", "mean of the voxels",
                  rtol=1e-4, atol=1e-4 * scale)
        # the same numbers for one image as for the dataset of one image
    one = post.get_statistical_information(raw[0], percentile=pct,
                                           denoise=False)
    mat = np.float64(raw[0])
    for name, a, b in zip(names, one, [
            mat.min(), mat.max(), np.percentile(mat, pct[0]),
            np.percentile(mat, pct[1]), mat.mean(), np.median(mat),
            mat.var()]):
        tol = 1e-4 * (scale ** 2 if name == "variance" else scale)
        case.near(a, b, "image-" + name, "{} of an image".format(name),
                  rtol=0, atol=tol)
    case.seen("stat", kind, np.dtype(dtype).name, skip > 1, denoise,
              any(crop), len(part) == 1)


def scaled(mat, nbit, lo, hi):
    """Exact rescaled value before truncation."""
    val = (np.clip(mat.astype(np.float64), lo, hi) - lo) / (hi - lo)
    return val * (255 if nbit == 8 else 65535)


def same_levels(case, got, exact, key, msg):
    """Truncated value, or its neighbour where rounding decides."""
    got = np.asarray(got)
    if got.shape != exact.shape:
        case.fail(key, "{}: shape {} instead of {}".format(
            msg, got.shape, exact.shape))
        return
    tol = 1e-6 * max(float(np.abs(exact).max()), 1.0) + 1e-9
    low, high = np.floor(exact - tol), np.floor(exact + tol)
    g = got.astype(np.float64)
    bad = (g < low) | (g > high)
    case.check(not bad.any(), key, "{}: {} of {} levels off, e.g. {} for {}"
               .format(msg, int(bad.sum()), bad.size,
                       g[bad][:1], exact[bad][:1]))


def rescale_array(case):
    dtype = case.cycle([np.float32, np.float64, np.uint8, np.uint16, np.int16,
                        np.int8, np.int32], "dtype")
    shape = case.choice([(7, 9), (3, 5, 4), (1, 6)], "shape")
    if np.dtype(dtype).kind == "f":
        mat = noise(case.rng, shape, -5, 9, dtype=dtype)
    else:
        info = np.iinfo(dtype)
        mat = integers(case.rng, shape, info.min, info.max, dtype)
        mat.flat[0], mat.flat[1] = info.min, info.max
    nbit = case.choice([8, 16], "nbit")
    before = mat.copy()
    lo, hi = float(mat.min()), float(mat.max())
    got = post.rescale(mat, nbit=nbit)
    case.check(got.dtype == (np.uint8 if nbit == 8 else np.uint16), "dtype",
               "{}".format(got.dtype))
    same_levels(case, got, scaled(mat, nbit, lo, hi), "auto",
                "own range to {} bit".format(nbit))
    a = lo + case.uniform(0, 0.4) * (hi - lo)
    b = hi - case.uniform(0, 0.4) * (hi - lo)
    got = post.rescale(mat, nbit=nbit, minmax=(a, b))
    same_levels(case, got, scaled(mat, nbit, a, b), "given",
                "given range to {} bit".format(nbit))
    wide = (lo - 0.5 * (hi - lo), hi + 0.7 * (hi - lo))
    got = post.rescale(mat, nbit=nbit, minmax=wide)
    same_levels(case, got, scaled(mat, nbit, *wide), "wide",
                "wider range to {} bit".format(nbit))
    case.equal(mat, before, "purity", "input after the call")
    case.raises(ValueError, "nbit", "12 bit", post.rescale, mat, nbit=12)
    case.seen("rescale", np.dtype(dtype).name, nbit, len(shape))


def rescale_volume(case):
    vol, dtype = volume(case)
    crop = cropping(case, vol.shape)
    kind, src, kw = source(case, vol)
    tkind, out = target(case)
    nbit = case.choice([8, 16, 32], "nbit")
    part = cut(vol, crop)
    auto = case.choice([True, False], "auto")
    if auto:
        skip = 1
        lo, hi = float(part.min()), float(part.max())
        opt = {"skip": skip}
        if len(part) > 1 and len(part) <= 6 and case.choice([0, 1]):
            opt = {}   # 15 % of at most six images: every image
    else:
        lo, hi = np.percentile(part, 10), np.percentile(part, 85)
        opt = {"minmax": (lo, hi)}
    exists = out is not None and case.choice([False, False, True], "exists")
    if exists:
        if tkind == "tif":
            os.makedirs(out)
        else:
            with h5py.File(out, "w") as fout:
                fout["old"] = np.arange(4)
        before = snapshot(case.dir)
        case.raises(ValueError, "refused", "existing target", post
                    .rescale_dataset, src, out, nbit=nbit, crop=crop, **kw,
                    **opt)
        case.check(tree_diff(before, snapshot(case.dir)) == ([], [], []),
                   "untouched", "files changed by a refused call")
        opt["overwrite"] = True
    before = snapshot(case.dir)
    if hi <= lo:
        return
    got = post.rescale_dataset(src, out, nbit=nbit, crop=crop, **kw, **opt)
    res = read(tkind, out, got)
    got = None
    if nbit == 32:
        case.equal(res, part, "crop-only", "cropped volume")
    else:
        case.check(res.dtype == (np.uint8 if nbit == 8 else np.uint16),
                   "dtype", "{} for {} bit".format(res.dtype, nbit))
        same_levels(case, res, scaled(part, nbit, lo, hi), "levels",
                    "rescaled volume")
    gone, changed, new = tree_diff(before, snapshot(case.dir))
    if out is not None:
        rel = os.path.relpath(out, case.dir)
        bad = [f for f in gone + changed + new
               if not (f == rel or f.startswith(rel + os.sep))]
        case.check(not bad, "only-target", "other files touched: {}".format(
            bad))
        if tkind == "tif":
            num = len([f for f in os.listdir(out) if f.endswith(".tif")])
            case.check(num == len(part), "file-count", "{} files for {} "
                       "slices".format(num, len(part)))
    else:
        case.check(not gone + changed + new, "no-files", "files touched")
    case.seen("volume", kind, tkind, np.dtype(dtype).name, nbit, auto,
              any(crop), exists, len(part) == 1)


METHODS = {"mean": np.mean, "median": np.median, "max": np.max,
           "min": np.min}


def cells(vol, cell, method):
    """Reference: every cell on its own."""
    shape = [n // c for n, c in zip(vol.shape, cell)]
    out = np.zeros(shape)
    for idx in np.ndindex(*shape):
        sub = vol[tuple(slice(i * c, (i + 1) * c)
                        for i, c in zip(idx, cell))].astype(np.float64)
        out[idx] = METHODS[method](sub)
    return out


def downsample_image(case):
    shape = (case.integer(1, 16), case.integer(1, 16))
    cell = (case.integer(1, min(5, shape[0])), case.integer(1, min(5,
                                                            shape[1])))
    dtype = case.cycle([np.float32, np.uint8, np.float64, np.int16], "dtype")
    if np.dtype(dtype).kind == "f":
        mat = noise(case.rng, shape, -5, 9, dtype=dtype)
    else:
        mat = integers(case.rng, shape, 0, 120, dtype)
    method = case.choice(list(METHODS), "method")
    arg = cell
    if case.choice([True, False], "scalar"):
        arg = min(cell)
        cell = (arg, arg)
    case.note(shape=shape, cell=cell)
    got = post.downsample(mat, arg, method=method)
    case.near(got, cells(mat, cell, method), "cells", "{} of the cells"
              .format(method), rtol=1e-5, atol=1e-5)
    case.seen("image", np.dtype(dtype).name, method, cell[0] == cell[1],
              shape[0] % cell[0] > 0, shape[1] % cell[1] > 0)


def downsample_volume(case):
    vol, dtype = volume(case)
    cell = tuple(case.integer(1, min(4, n)) for n in vol.shape)
    arg = cell
    if case.choice([True, False], "scalar"):
        arg = min(cell)
        cell = (arg,) * 3
    crop = cropping(case, vol.shape, keep=cell)
    kind, src, kw = source(case, vol)
    tkind, out = target(case)
    method = case.choice(list(METHODS), "method")
    part = cut(vol, crop)
    exact = cells(part, cell, method)
    nbit = case.choice([None, 8, 16], "nbit")
    opt = {}
    stored = np.dtype(dtype)
    case.note(cell=cell)
    if nbit is not None:
        opt = {"rescaling": True, "nbit": nbit}
        want_type = np.dtype(np.uint8 if nbit == 8 else np.uint16)
        if stored.kind == "f":
            if case.choice([True, False], "auto"):
                lo, hi = float(part.min()), float(part.max())
                opt["skip"] = 1
            else:
                lo, hi = np.percentile(part, 10), np.percentile(part, 85)
                opt["minmax"] = (lo, hi)
            if hi <= lo:
                return
        elif stored != want_type:
            lo, hi = 0.0, float(np.iinfo(stored).max)
        if stored != want_type:
            exact = scaled(exact, nbit, lo, hi)
        stored = want_type
    before = snapshot(case.dir)
    got = post.downsample_dataset(src, out, arg, method=method, crop=crop,
                                  **kw, **opt)
    res = read(tkind, out, got)
    got = None
    case.check(res.dtype == stored, "dtype", "{} instead of {}".format(
        res.dtype, stored))
    if stored.kind == "f":
        case.near(res, exact, "cells", "{} of the cells".format(method),
                  rtol=1e-5, atol=1e-5)
    else:
        same_levels(case, res, exact, "cells", "{} of the cells".format(
            method))
    gone, changed, new = tree_diff(before, snapshot(case.dir))
    rel = os.path.relpath(out, case.dir) if out else "-"
    bad = gone + changed + [f for f in new if not (
        f == rel or f.startswith(rel + os.sep))]
    case.check(not bad, "only-target", "other files touched: {}".format(bad))
    case.raises(ValueError, "cell-too-large", "cell larger than the volume",
                post.downsample_dataset, src, None,
                (vol.shape[0] + 1, 1, 1), method=method, **kw)
    case.raises(ValueError, "crop-all", "crop of everything",
                post.downsample_dataset, src, None, 1,
                crop=(vol.shape[0], 0, 0, 0, 0, 0), **kw)
    case.seen("volume", kind, tkind, np.dtype(dtype).name, method, nbit,
              any(crop), len(part) == 1)


def refusals(case):
    vol = noise(case.rng, (4, 6, 5))
    for func, extra in ((post.downsample_dataset, (2,)),
                        (post.rescale_dataset, ())):
        case.raises(ValueError, "target-format", "unknown target format",
                    func, vol, os.path.join(case.dir, "a.xyz"), *extra)
        case.raises((ValueError, OSError), "no-tif", "empty folder", func,
                    os.path.join(case.dir, "nothing"), None, *extra)
        case.raises(ValueError, "crop-length", "crop of four numbers", func,
                    vol, None, *extra, crop=(0, 0, 0, 0))
        case.raises(ValueError, "crop-size", "crop of everything", func,
                    vol, None, *extra, crop=(0, 0, 3, 3, 0, 0))
        path = os.path.join(case.dir, "v.h5")
        with h5py.File(path, "w") as fout:
            fout["d"] = vol
        case.raises(ValueError, "no-key", "no key for an hdf file", func,
                    path, None, *extra)
        case.raises(ValueError, "wrong-key", "wrong key", func, path, None,
                    *extra, key_path="e")
        out = os.path.join(case.dir, "there")
        os.makedirs(out, exist_ok=True)
        before = snapshot(case.dir)
        case.raises(ValueError, "exists", "existing folder", func, vol, out,
                    *extra)
        case.raises(ValueError, "exists", "existing file", func, vol, path,
                    *extra)
        case.check(tree_diff(before, snapshot(case.dir)) == ([], [], []),
                   "untouched", "refused calls changed files")
    case.seen("refused")


def register(ctx):
    ctx.family("statistics", 120, 3000, statistics)
    ctx.family("rescale_array", 70, 2000, rescale_array)
    ctx.family("rescale_volume", 160, 4000, rescale_volume)
    ctx.family("downsample_image", 80, 2000, downsample_image)
    ctx.family("downsample_volume", 200, 5000, downsample_volume)
    ctx.family("refusals", 2, 5, refusals)
    ctx.expect_tags("statistics", 25)
    ctx.expect_tags("rescale_array", 15)
    ctx.expect_tags("rescale_volume", 50)
    ctx.expect_tags("downsample_image", 20)
    ctx.expect_tags("downsample_volume", 60)
