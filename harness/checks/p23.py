"""P23: reslicing permutes the voxels, keeps files, leaves nothing behind."""
import os
import h5py
import numpy as np
import scipy.ndimage as ndi
import algotom.post.postprocessing as post
import algotom.io.loadersaver as losa
from PIL import Image
from vlib import noise, integers, snapshot, tree_diff, FileMonitor
from checks.p22 import cropping, cut, scaled, same_levels

RULE = ("a class is one (axis, source, target, data type, rescaling, "
        "rotation, crop, chunk relation) combination; every voxel of the "
        "result is compared with the transposed volume, every file of the "
        "scratch folder with its state before")
ASSUMPTIONS = ["rotation compared with scipy.ndimage of whole images"]


def volume(case):
    dtype = case.cycle([np.float32, np.uint16, np.uint8, np.float32],
                       "dtype")
    size = [case.integer(1, 12), case.integer(1, 14), case.integer(1, 14)]
    if case.choice([0, 0, 1]):
        size[0] = case.choice([1, 2, 17, 33])
    shape = tuple(size)
    if np.dtype(dtype).kind == "f":
        # every voxel has its own value
        vol = case.rng.permutation(np.prod(shape)).reshape(shape).astype(
            dtype) / 7.0
    else:
        vol = integers(case.rng, shape, 0, np.iinfo(dtype).max, dtype)
    case.note(shape=shape)
    return vol, dtype


def source(case, vol):
    if case.choice([True, False], "tif"):
        folder = os.path.join(case.dir, "in", "tifs")
        for i, mat in enumerate(vol):
            losa.save_image(folder + "/im_{:04d}.tif".format(i), mat)
        return "tif", folder, {}
    path = os.path.join(case.dir, "in", "vol.h5")
    os.makedirs(os.path.dirname(path))
    key = case.choice(["entry/data", "vol"])
    with h5py.File(path, "w") as fout:
        fout[key] = vol
    return "hdf", path, {"key_path": key}


def read(out):
    if os.path.isdir(out):
        files = losa.find_file(out + "/*.tif")
        return np.asarray([np.asarray(Image.open(f)) for f in files])
    found = []
    with h5py.File(out, "r") as fin:
        fin.visititems(lambda n, o: found.append(n)
                       if isinstance(o, h5py.Dataset) else None)
        assert len(found) == 1, found
        return fin[found[0]][:]


def reslice(case):
    vol, dtype = volume(case)
    crop = cropping(case, vol.shape)
    kind, src, kw = source(case, vol)
    axis = case.choice([1, 2], "axis")
    to_tif = case.choice([True, False], "to_tif")
    stem = os.path.join(case.dir, "res", "out")
    out = stem if to_tif else stem + case.choice([".hdf", ".h5"])
    os.makedirs(os.path.dirname(stem))
    chunk = case.choice([1, 2, 3, 16, 100], "chunk")
    rotate = case.choice([0.0, 0.0, 0.0, 90.0, -7.5, 30.0], "rotate")
    mode = case.choice(["constant", "nearest", "reflect"], "mode")
    part = cut(vol, crop)
    if rotate:
        turned = np.asarray([ndi.rotate(
            np.float32(m) if kind == "tif" else m, rotate, mode=mode,
            reshape=False, order=1) for m in vol])
        part = cut(turned, crop).astype(dtype)
    want = np.moveaxis(part, axis, 0)
    opt = {}
    nbit = case.choice([None, None, 8, 16], "nbit")
    stored = np.dtype(dtype)
    if nbit is not None:
        opt = {"rescaling": True, "nbit": nbit}
        goal = np.dtype(np.uint8 if nbit == 8 else np.uint16)
        if stored.kind == "f":
            base = cut(vol, crop)
            if not rotate and len(base) <= 60 and case.choice([True, False],
                                                              "auto"):
                # every image is read for the range
                lo, hi = float(base.min()), float(base.max())
                opt["skip"] = 1
            else:
                lo, hi = np.percentile(part, 10), np.percentile(part, 85)
                opt["minmax"] = (lo, hi)
            if hi <= lo:
                return
        elif stored != goal:
            lo, hi = 0.0, float(np.iinfo(stored).max)
        if stored != goal:
            want = scaled(want, nbit, lo, hi)
        stored = goal
    # neighbours that a careless clean-up could hit
    side = case.choice(["nothing", "stem-folder", "tmp-folder", "files"],
                       "side")
    if side == "stem-folder" and not to_tif:
        losa.save_image(stem + "/precious.tif", np.ones((3, 3)))
    elif side == "tmp-folder":
        os.makedirs(stem + ("/tmp_" if not to_tif else "_tmp"))
        with open(stem + ("/tmp_" if not to_tif else "_tmp") + "/keep.txt",
                  "w") as fout:
            fout.write("keep")
    elif side == "files":
        for name in ("out.txt", "out2.tif", "tmp_.hdf"):
            with open(os.path.join(case.dir, "res", name), "w") as fout:
                fout.write(name)
    before = snapshot(case.dir)
    with FileMonitor(case.dir) as mon:
        post.reslice_dataset(src, out, axis=axis, crop=crop, chunk=chunk,
                             rotate=rotate, mode=mode, ncore=case.choice(
                                 [1, 2]), show_progress=False, **kw, **opt)
    after = snapshot(case.dir)
    case.count("file_events", len(mon.events))
    gone, changed, new = tree_diff(before, after)
    case.check(not gone, "deleted", "files deleted: {}".format(gone))
    case.check(not changed, "changed", "files changed: {}".format(changed))
    rel = os.path.relpath(out, case.dir)
    left = [f for f in new if not (f == rel or (
        to_tif and f.startswith(rel + os.sep + "img_")))]
    case.check(not left, "left-over", "left behind: {}".format(left))
    got = read(out)
    case.require(got.shape == want.shape, "shape", "{} instead of {}".format(
        got.shape, want.shape))
    case.check(got.dtype == stored, "dtype", "{} instead of {}".format(
        got.dtype, stored))
    if want.dtype != np.float64:
        if rotate and stored.kind != "f":
            # rounding of interpolated integers may differ by a level
            case.near(got, want, "voxels", "resliced volume", rtol=0, atol=1)
        elif rotate:
            case.near(got, want, "voxels", "resliced volume", rtol=1e-5)
        else:
            case.equal(got, want, "voxels", "resliced volume")
    elif rotate:
        case.near(got, want, "levels", "rescaled slices", rtol=0, atol=1.01
                  if np.dtype(dtype).kind == "f" else 258)
    else:
        same_levels(case, got, want, "levels", "rescaled slices")
    if nbit is None and not rotate:
        case.check(np.array_equal(np.sort(got.ravel()), np.sort(
            part.ravel())), "conservation", "voxels lost or repeated")
        case.count("voxels", got.size)
    case.seen(axis, kind, to_tif, np.dtype(dtype).name, nbit, rotate != 0,
              any(crop), min(part.shape) == 1, side)


def refusals(case):
    vol = noise(case.rng, (4, 6, 5))
    kind, src, kw = source(case, vol)
    out = os.path.join(case.dir, "out") + case.choice(["", ".h5"], "ext")
    exists = os.path.join(case.dir, "there") + case.choice(["", ".hdf"])
    if exists.endswith("hdf"):
        with h5py.File(exists, "w") as fout:
            fout["old"] = np.arange(3)
    else:
        losa.save_image(exists + "/old.tif", np.ones((2, 2)))
    before = snapshot(case.dir)
    bad = [("axis-0", dict(axis=0)), ("axis-3", dict(axis=3)),
           ("nbit", dict(rescaling=True, nbit=12)),
           ("crop-length", dict(crop=(0, 0))),
           ("crop-size", dict(crop=(2, 2, 0, 0, 0, 0)))]
    for name, extra in bad:
        case.raises(ValueError, name, "{}".format(extra),
                    post.reslice_dataset, src, out, show_progress=False,
                    **dict(kw, **extra))
    for name, args in (("array", (vol, out)), ("no-output", (src, None)),
                       ("output-format", (src, os.path.join(case.dir,
                                                            "o.xyz"))),
                       ("exists", (src, exists))):
        case.raises(ValueError, name, name, post.reslice_dataset, *args,
                    show_progress=False, **kw)
    if kind == "hdf":
        case.raises(ValueError, "wrong-key", "wrong key",
                    post.reslice_dataset, src, out, key_path="nope",
                    show_progress=False)
    gone, changed, new = tree_diff(before, snapshot(case.dir))
    case.check(not gone + changed, "destroyed", "refused calls touched {}"
               .format(gone + changed))
    case.check(not new, "left-over", "refused calls left {}".format(new))
    # overwriting replaces the target and only it
    post.reslice_dataset(src, exists, overwrite=True, show_progress=False,
                         **kw)
    gone, changed, new = tree_diff(before, snapshot(case.dir))
    rel = os.path.relpath(exists, case.dir)
    other = [f for f in gone + changed + new
             if not (f == rel or f.startswith(rel + os.sep))]
    case.check(not other, "overwrite-other", "overwriting touched {}".format(
        other))
    if exists.endswith("hdf"):
        case.equal(read(exists), np.moveaxis(vol, 1, 0), "overwrite",
                   "overwritten file")
    else:
        files = losa.find_file(exists + "/img_*.tif")
        case.equal(np.asarray([losa.load_image(f) for f in files]),
                   np.moveaxis(vol, 1, 0), "overwrite", "overwritten folder")
    case.seen("refused", kind, out[-3:], exists[-3:])


def progress(case):
    """The reports on the screen do not change the result."""
    vol = noise(case.rng, (case.integer(2, 6), 7, 6))
    kind, src, kw = source(case, vol)
    import contextlib
    import io
    for axis in (1, 2):
        for ext in ("", ".hdf"):
            out = os.path.join(case.dir, "p{}".format(axis)) + ext
            with contextlib.redirect_stdout(io.StringIO()) as text:
                post.reslice_dataset(src, out, axis=axis, chunk=case.integer(
                    1, 4), show_progress=True, **kw)
            case.equal(read(out), np.moveaxis(vol, axis, 0), "voxels",
                       "with progress reports")
            case.check("Finish" in text.getvalue(), "report", "no report")
    case.seen("progress", kind)


def register(ctx):
    ctx.family("reslice", 260, 6000, reslice)
    ctx.family("refusals", 12, 200, refusals)
    ctx.family("progress", 8, 100, progress)
    ctx.expect_tags("reslice", 100)
    ctx.expect_tags("refusals", 4)
