"""P03: moving data between tif folders and HDF keeps it."""
import os
import h5py
import numpy as np
from PIL import Image
import algotom.io.converter as conv
import algotom.io.loadersaver as losa
from vlib import noise, integers

RULE = ("a class is one (operation, crop present, axis, index form, worker "
        "count, pattern) combination whose stored result was compared with "
        "plain array indexing of the source")
ASSUMPTIONS = ["h5py and Pillow store arrays faithfully"]


def make_folder(case, shape, dtype, ext=".tif", prefix="img_", name="tifs"):
    folder = os.path.join(case.dir, name)
    os.makedirs(folder)
    if np.dtype(dtype).kind == "f":
        data = noise(case.rng, shape, -5, 5, dtype)
    else:
        data = integers(case.rng, shape, 0, 250, dtype)
    order = case.rng.permutation(shape[0])
    step = case.integer(1, 3)
    base = case.choice([0, 7, 995])
    for k in order:
        Image.fromarray(data[k]).save(os.path.join(
            folder, "{}{:05d}{}".format(prefix, base + step * k, ext)))
    return folder, data


def crop_of(case, height, width):
    kind = case.choice(["none", "one", "all"], "crop_kind")
    if kind == "none":
        return (0, 0, 0, 0)
    if kind == "one":
        crop = [0, 0, 0, 0]
        k = case.integer(0, 3)
        crop[k] = case.integer(1, (height if k < 2 else width) - 1)
        return tuple(crop)
    top = case.integer(0, height - 1)
    bot = case.integer(0, height - 1 - top)
    left = case.integer(0, width - 1)
    right = case.integer(0, width - 1 - left)
    return (top, bot, left, right)


def cropped(data, crop):
    top, bot, left, right = crop
    return data[:, top:data.shape[1] - bot, left:data.shape[2] - right]


def to_hdf(case):
    shape = (case.integer(1, 8), case.integer(3, 14), case.integer(3, 14))
    dtype = case.choice([np.float32, np.uint16, np.uint8], "dtype")
    ext = case.choice([".tif", ".tiff"], "ext")
    folder, data = make_folder(case, shape, dtype, ext)
    pattern = None
    if case.choice([True, False], "extra_series"):
        other = noise(case.rng, (2,) + shape[1:])
        for k in range(2):
            Image.fromarray(other[k]).save(os.path.join(
                folder, "dark_{:03d}.tif".format(k)))
        pattern = case.choice(["img", "img_0", "mg_"])
    crop = crop_of(case, shape[1], shape[2])
    key = case.choice(["entry/data", "a/b/c/data", "data"], "key")
    name = case.choice(["out.hdf", "out.h5", "out.nxs", "out.hdf5", "out"],
                       "name")
    opts = {}
    angles = case.rng.random(shape[0])
    if case.choice([True, False]):
        opts = {"options": {"meta/angles": angles, "meta/energy": 53.5}}
    case.note(shape=shape, crop=crop, pattern=pattern)
    out = conv.convert_tif_to_hdf(folder, os.path.join(case.dir, name),
                                  key_path=key, crop=crop, pattern=pattern,
                                  **opts)
    case.require(os.path.isfile(str(out)), "no-output", str(out))
    want = cropped(data, crop).astype(np.float32)
    with h5py.File(str(out), "r") as fin:
        case.require(key in fin, "key", "no dataset under " + key)
        case.equal(fin[key][()], want, "to-hdf", "tif -> hdf content")
        if opts:
            case.require("meta/angles" in fin and "meta/energy" in fin,
                         "metadata", "metadata missing")
            case.equal(fin["meta/angles"][()], angles, "metadata", "angles")
            case.equal(fin["meta/energy"][()], 53.5, "metadata", "energy")
    case.seen("to-hdf", crop != (0, 0, 0, 0), pattern, name, bool(opts))


def bad_crop(case):
    shape = (2, case.integer(3, 9), case.integer(3, 9))
    folder, _ = make_folder(case, shape, np.float32)
    k = case.cycle([0, 1])
    crop = (shape[1] - 1, 1, 0, 0) if k == 0 else (0, 0, 1, shape[2] - 1)
    case.raises((ValueError,), "bad-crop", "crop leaving nothing",
                conv.convert_tif_to_hdf, folder,
                os.path.join(case.dir, "o.hdf"), crop=crop)
    case.seen("bad-crop", k)


def to_tif(case):
    shape = tuple(case.integer(3, 12) for _ in range(3))
    dtype = case.choice([np.float32, np.uint16, np.uint8], "dtype")
    data = noise(case.rng, shape, -5, 5) if dtype == np.float32 else \
        integers(case.rng, shape, 0, 250, dtype)
    path = os.path.join(case.dir, "in.hdf")
    with h5py.File(path, "w") as fout:
        fout["entry/data"] = data
    axis = case.cycle([0, 1, 2], "axis")
    view = np.moveaxis(data, axis, 0)
    num = view.shape[0]
    crop = crop_of(case, view.shape[1], view.shape[2])
    kind = case.choice(["default", "int", "int-neg", "np-int", "tuple",
                        "tuple-end"], "index_kind")
    if kind == "default":
        index, want_idx = (0, -1, 1), list(range(num))
    elif kind == "int":
        index = case.integer(0, num - 1)
        want_idx = [index]
    elif kind == "np-int":
        index = np.int64(case.integer(0, num - 1))
        want_idx = [int(index)]
    elif kind == "int-neg":
        index = -case.integer(1, num)
        want_idx = [num + index]
    elif kind == "tuple":
        start = case.integer(0, num - 1)
        stop = case.integer(start + 1, num)
        step = case.integer(1, 4)
        index, want_idx = (start, stop, step), list(range(start, stop, step))
    else:
        start, step = case.integer(0, num - 1), case.integer(1, 4)
        index, want_idx = (start, -1, step), list(range(start, num, step))
    prefix = case.choice(["img", "proj", "a_b"])
    case.note(shape=shape, crop=crop, index=index)
    out = os.path.join(case.dir, "out")
    ret = conv.extract_tif_from_hdf(path, out, "entry/data", index=index,
                                    axis=axis, crop=crop, prefix=prefix)
    case.check(os.path.realpath(str(ret)) == os.path.realpath(out),
               "returned-folder", str(ret))
    want = cropped(view, crop).astype(np.float32)
    files = sorted(os.listdir(out)) if os.path.isdir(out) else []
    names = ["{}_{:05d}.tif".format(prefix, k) for k in want_idx]
    case.require(files == names, "extracted-set",
                 "extracted {} instead of {}".format(files[:8], names[:8]))
    for k, name in zip(want_idx, names):
        case.equal(losa.load_image(os.path.join(out, name)), want[k],
                   "extracted-image", "image {} along axis {}".format(k,
                                                                      axis))
    case.seen("to-tif", axis, kind, crop != (0, 0, 0, 0))


def out_of_range(case):
    shape = (3, 4, 5)
    path = os.path.join(case.dir, "in.hdf")
    with h5py.File(path, "w") as fout:
        fout["entry/data"] = noise(case.rng, shape)
    axis = case.cycle([0, 1, 2])
    index = case.choice([shape[axis], shape[axis] + 5, -shape[axis] - 1],
                        "index")
    out = os.path.join(case.dir, "out")
    case.raises((ValueError, IndexError), "out-of-range",
                "index {} of {} images".format(index, shape[axis]),
                conv.extract_tif_from_hdf, path, out, "entry/data",
                index=index, axis=axis)
    case.seen("range", axis)


def circle(case):
    """tif -> hdf -> tif -> emulator gives the first images."""
    shape = (case.integer(2, 7), case.integer(3, 12), case.integer(3, 12))
    folder, data = make_folder(case, shape, np.float32)
    hdf = conv.convert_tif_to_hdf(folder, os.path.join(case.dir, "x.hdf"))
    out = os.path.join(case.dir, "out")
    conv.extract_tif_from_hdf(str(hdf), out, "entry/data")
    emu = conv.HdfEmulatorFromTif(out)
    case.equal(emu[:], data, "circle", "after tif->hdf->tif")
    case.equal(losa.load_hdf(str(hdf), "entry/data")[()], data, "load-hdf",
               "loaded dataset")
    case.seen("circle")


def rand_index(case, num):
    if case.rng.random() < 0.4:
        return case.integer(-num, num - 1)
    while True:
        start = case.choice([None, case.integer(-num, num)])
        stop = case.choice([None, case.integer(-num, num)])
        step = case.choice([None, 1, 2, 3])
        ind = slice(start, stop, step)
        if len(range(*ind.indices(num))) > 0:
            return ind


def emulator(case):
    ext = case.choice([".tif", ".tiff", ".TIF"], "ext")
    dtype = case.choice([np.float32, np.uint16], "dtype")
    shape = (case.integer(1, 9), case.integer(2, 9), case.integer(2, 9))
    folder, data = make_folder(case, shape, dtype, ext)
    ncore = case.cycle([1, 1, 2], "ncore")
    emu = conv.HdfEmulatorFromTif(folder, ncore=ncore)
    data = data.astype(np.float32)
    case.check(tuple(emu.shape) == data.shape and len(emu) == len(data),
               "emu-shape", "{} {}".format(emu.shape, len(emu)))
    case.check(np.dtype(emu.dtype) == np.float32, "emu-dtype", emu.dtype)
    for _ in range(12):
        form = case.choice(["int", "slice", "tuple"])
        if form == "int":
            ind = case.integer(-shape[0], shape[0] - 1)
        elif form == "slice":
            ind = rand_index(case, shape[0])
        else:
            ind = tuple(rand_index(case, n) for n in shape)
        case.equal(emu[ind], data[ind], "emu-index",
                   "index {}".format(ind))
        case.seen("emu", form, ext, ncore, tuple(
            type(i).__name__ for i in ind) if form == "tuple" else "")


def register(ctx):
    ctx.family("to_hdf", 50, 700, to_hdf)
    ctx.family("bad_crop", 4, 20, bad_crop)
    ctx.family("to_tif", 60, 900, to_tif)
    ctx.family("out_of_range", 6, 40, out_of_range)
    ctx.family("circle", 6, 60, circle)
    ctx.family("emulator", 30, 400, emulator)
    ctx.expect_tags("to_hdf", 15)
    ctx.expect_tags("to_tif", 15)
    ctx.expect_tags("emulator", 10)
