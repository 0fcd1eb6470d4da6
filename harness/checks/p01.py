"""P01: image files give back the values that were saved."""
import os
import numpy as np
from PIL import Image
import algotom.io.loadersaver as losa
from vlib import smooth, noise, integers

RULE = ("a class is one (operation, container extension, dtype, axis, worker "
        "mode, ordering) combination whose stored values were read back and "
        "compared pixel by pixel")
ASSUMPTIONS = ["TIFF decoding by Pillow is correct",
               "integer values above 2**24 are outside float32 and excluded"]

TIF_TYPES = [np.float32, np.float64, np.uint8, np.uint16, np.int32, np.int16,
             bool]


def make(case, shape, dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == "b":
        return case.rng.random(shape) > 0.5
    if dtype.kind == "f":
        mat = noise(case.rng, shape, -1.0, 1.0, np.float64)
        mat *= 10.0 ** case.rng.integers(-6, 7)
        return mat.astype(dtype)
    info = np.iinfo(dtype)
    lo, hi = max(info.min, -2 ** 24), min(info.max, 2 ** 24)
    mat = integers(case.rng, shape, lo, hi, dtype)
    mat.flat[0], mat.flat[-1] = lo, hi
    return mat


def single(case):
    dtype = case.cycle(TIF_TYPES, "dtype")
    ext = case.choice([".tif", ".tiff", ".TIF"], "ext")
    shape = (case.integer(1, 40), case.integer(1, 40))
    case.note(shape=shape)
    mat = make(case, shape, dtype)
    layout = case.choice(["C", "F", "strided"], "layout")
    if layout == "F":
        mat = np.asfortranarray(mat)
    elif layout == "strided":
        big = np.zeros((shape[0] * 2, shape[1] * 2), dtype=mat.dtype)
        big[::2, ::2] = mat
        mat = big[::2, ::2]
    name = case.choice(["img", "a.b.c", "sub1/sub2/img", "with space",
                        "img_00001"], "name")
    path = os.path.join(case.dir, name + ext)
    want = np.array(mat, copy=True)
    out = losa.save_image(path, mat)
    case.check(os.path.realpath(str(out)) == os.path.realpath(path),
               "returned-path", "save_image returned {}".format(out))
    case.require(os.path.isfile(path), "file-missing", "no file at " + path)
    got = losa.load_image(path)
    case.check(str(np.asarray(got).dtype) == "float32", "load-dtype",
               "loaded dtype {}".format(np.asarray(got).dtype))
    if want.dtype == bool:
        got = np.asarray(got) != 0
    case.equal(got, want.astype(np.float32) if want.dtype != bool else want,
               "roundtrip", "values after save/load")
    case.seen("single", dtype.__name__, ext, layout)


def eightbit(case):
    ext = case.cycle([".png", ".bmp", ".jpg"], "ext")
    dtype = case.choice([np.float32, np.float64, np.uint16, np.int32,
                         np.int16, np.int8, np.uint8, np.float16, bool],
                        "dtype")
    shape = (case.integer(2, 40), case.integer(2, 40))
    mat = make(case, shape, dtype)
    if np.dtype(dtype).kind == "i" and case.choice([0, 1], "full"):
        info = np.iinfo(dtype)
        mat = integers(case.rng, shape, info.min, info.max, dtype)
        mat.flat[0], mat.flat[-1] = info.min, info.max
    elif dtype is np.float16:
        mat = noise(case.rng, shape, -1.0, 1.0, np.float64).astype(dtype)
        mat *= np.float16(case.choice([1.0, 60000.0], "size"))
    elif dtype is bool:
        mat.flat[0], mat.flat[-1] = False, True
    ref = mat.astype(np.float64)
    ref = 255.0 * (ref - ref.min()) / (ref.max() - ref.min())
    if ext == ".jpg":
        # lossy: only smooth images
        y, x = np.mgrid[:shape[0], :shape[1]]
        ref = 255.0 * (x + y) / (x + y).max()
        low, high = float(mat.min()), float(mat.max())
        mat = (ref / 255.0 * (high - low) + low)
        mat = (mat > mat.mean()) if dtype is bool else \
            mat.astype(dtype)
    path = os.path.join(case.dir, "img" + ext)
    losa.save_image(path, mat)
    got = losa.load_image(path)
    case.require(np.shape(got) == shape, "eightbit-shape", str(np.shape(got)))
    if ext == ".jpg":
        ref = mat.astype(np.float64)
        ref = 255.0 * (ref - ref.min()) / (ref.max() - ref.min())
        case.check(np.mean(np.abs(got - ref)) < 16, "jpeg",
                   "mean difference {:.3g}".format(
                       np.mean(np.abs(got - ref))))
        case.seen("8bit", ext, np.dtype(dtype).name)
        return
    case.near(got, np.floor(ref), "eightbit",
              "non-tif image is the rescaled 8-bit image", rtol=0, atol=1.0)
    case.check(np.min(got) == 0 and np.max(got) >= 254, "eightbit-range",
               "8-bit range is {}..{}".format(np.min(got), np.max(got)))
    case.seen("8bit", ext, np.dtype(dtype).name)


def color(case):
    """Colour images become the mean of their channels."""
    shape = (case.integer(8, 30), case.integer(8, 30), 3)
    mat = integers(case.rng, shape, 0, 255, np.uint8)
    ext = case.cycle([".png", ".tif"])
    path = os.path.join(case.dir, "rgb" + ext)
    Image.fromarray(mat).save(path)
    got = losa.load_image(path)
    case.near(got, mat.astype(np.float64).mean(axis=2), "color",
              "mean of the colour channels", rtol=1e-5)
    case.seen("color", ext)


def stack(case):
    """A 3D array saved as numbered files is the same stack when loaded."""
    axis = case.cycle([0, 1, 2], "axis")
    ncore = case.choice([1, 2, 4, None], "ncore")
    prefer = "processes" if (case.index % 7 == 6) else "threads"
    case.note(prefer=prefer)
    shape = tuple(case.integer(1, 14) for _ in range(3))
    case.note(shape=shape)
    data = make(case, shape, case.choice([np.float32, np.uint16, np.uint8]))
    use_list = case.choice([True, False], "list_of_paths")
    num = shape[axis]
    overwrite = case.choice([True, False], "overwrite")
    start = 0
    if use_list:
        order = case.rng.permutation(num)
        paths = [os.path.join(case.dir, "f_{:03d}.tif".format(k))
                 for k in order]
        losa.save_image_multiple(paths, data, axis=axis, overwrite=overwrite,
                                 ncore=ncore, prefer=prefer)
    else:
        start = case.choice([0, 3, 95, 9998, 99997], "start_idx")
        losa.save_image_multiple(case.dir, data, axis=axis,
                                 overwrite=overwrite, ncore=ncore,
                                 prefer=prefer, start_idx=start)
        files = os.listdir(case.dir)
        case.require(len(files) == num, "one-file-per-image",
                     "{} files for {} images: {}".format(
                         len(files), num, sorted(files)[:6]))

        def number(name):
            return int("".join(c for c in os.path.splitext(name)[0]
                               if c.isdigit()))
        files = sorted(files, key=number)
        case.check([number(f) for f in files] ==
                   list(range(start, start + num)), "file-index",
                   "file numbers {}".format([number(f) for f in files][:8]))
        if start + num <= 99999:
            case.check(sorted(files) == files, "lexicographic-order",
                       "names do not sort in index order")
        paths = [os.path.join(case.dir, f) for f in files]
    case.require(all(os.path.isfile(p) for p in paths), "file-missing",
                 "missing output files")
    got = losa.load_image_multiple(paths, ncore=case.choice([1, 3, None]),
                                   prefer="threads")
    want = np.moveaxis(data, axis, 0).astype(np.float32)
    case.equal(got, want, "stack-roundtrip",
               "stack after save/load along axis {}".format(axis))
    # any order of paths gives that order of images
    perm = list(case.rng.permutation(len(paths)))
    got = losa.load_image_multiple([paths[k] for k in perm], ncore=2)
    case.equal(got, want[perm], "load-order", "requested order of images")
    case.seen("stack", axis, ncore, prefer, use_list, overwrite)


def listing(case):
    """Searching lists exactly the matching files, sorted."""
    names = set()
    for _ in range(case.integer(1, 25)):
        names.add(case.choice(["img_", "dark_", "x"]) +
                  "{:05d}".format(case.integer(0, 99999)) +
                  case.choice([".tif", ".tiff", ".txt"]))
    for name in names:
        open(os.path.join(case.dir, name), "w").close()
    pattern = case.cycle(["*.tif*", "img*", "*.tif", "*.txt", "*dark*tif*"],
                         "pattern")
    import fnmatch
    want = sorted(n for n in names if fnmatch.fnmatchcase(n, pattern))
    if want:
        got = losa.find_file(case.dir + "/" + pattern)
        case.check([os.path.basename(str(g)) for g in got] == want,
                   "find-file", "found {} want {}".format(got, want))
        case.check(all(os.path.isfile(g) for g in got), "find-file-path",
                   "listed paths do not exist")
    else:
        case.raises((FileNotFoundError,), "find-file-none",
                    "no matching file", losa.find_file,
                    case.dir + "/" + pattern)
    case.seen("listing", pattern, bool(want))


def coefficient(case):
    """Distortion coefficients survive the text file."""
    num = case.integer(1, 6)
    xc = case.uniform(-3000, 3000) * 10.0 ** case.integer(-3, 1)
    yc = case.uniform(-3000, 3000)
    facts = [float(case.rng.standard_normal() * 10.0 ** case.integer(-16, 1))
             for _ in range(num)]
    if case.choice([True, False]):
        xc, yc = np.float64(xc), np.float64(yc)
        facts = np.asarray(facts)
    path = os.path.join(case.dir, case.choice(
        ["coef.txt", "coef.dat", "s/coef", "COEF.TXT"], "path"))
    out = losa.save_distortion_coefficient(path, xc, yc, facts,
                                           overwrite=case.choice([True,
                                                                  False]))
    got = losa.load_distortion_coefficient(str(out))
    case.require(len(got) == 3, "coef-form", repr(got))
    case.check(got[0] == float(xc) and got[1] == float(yc), "coef-center",
               "center {} {} instead of {} {}".format(got[0], got[1], xc, yc))
    case.equal(list(got[2]), [float(f) for f in facts], "coef-factors",
               "polynomial factors")
    case.seen("coef", num, os.path.basename(path))


def register(ctx):
    ctx.family("single", 60, 900, single)
    ctx.family("eightbit", 36, 400, eightbit)
    ctx.family("color", 8, 60, color)
    ctx.family("stack", 42, 600, stack)
    ctx.family("listing", 25, 200, listing)
    ctx.family("coefficient", 25, 300, coefficient)
    ctx.expect_tags("single", 15)
    ctx.expect_tags("stack", 10)
