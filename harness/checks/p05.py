"""P05: loaders return exactly the requested, flat/dark-corrected images."""
import os
import h5py
import numpy as np
from PIL import Image
import algotom.io.loadersaver as losa
from vlib import noise, integers

RULE = ("a class is one (loader, container, flat/dark given, their dtype, "
        "index/average mode, crop, frame layout) combination whose stack was "
        "compared with the formula evaluated on the stored frames")
ASSUMPTIONS = ["2D flat and dark fields"]


def crop_of(case, height, width):
    if case.choice([True, False], "crop?"):
        return (0, 0, 0, 0)
    top = case.integer(0, height - 1)
    bot = case.integer(0, height - 1 - top)
    left = case.integer(0, width - 1)
    right = case.integer(0, width - 1 - left)
    return (top, bot, left, right)


def cut(mat, crop):
    top, bot, left, right = crop
    return mat[..., top:mat.shape[-2] - bot, left:mat.shape[-1] - right]


def fields(case, height, width):
    """Optional flat and dark fields with zeros and dtype variations."""
    kind = case.choice(["none", "flat", "dark", "both", "both"], "fields")
    dtype = case.choice([np.float32, np.float64, np.uint16], "field_dtype")
    flat = dark = None
    if kind in ("flat", "both"):
        flat = integers(case.rng, (height, width), 200, 250, np.float64)
        if case.choice([True, False]):
            flat.flat[case.integer(0, flat.size - 1)] = 0.0 \
                if kind == "flat" else 20.0
        flat = flat.astype(dtype)
    if kind in ("dark", "both"):
        dark = integers(case.rng, (height, width), 15, 30, np.float64)
        if flat is not None:
            dark[np.asarray(flat) == 20.0] = 20.0
        dark = dark.astype(dtype)
    return flat, dark, (kind, dtype.__name__)


def ref_correct(imgs, flat, dark, crop):
    imgs = cut(np.asarray(imgs, dtype=np.float64), crop)
    dk = 0.0 if dark is None else cut(dark.astype(np.float64), crop)
    if flat is None:
        return imgs - dk
    fd = cut(flat.astype(np.float64), crop) - dk
    mean = fd.mean()
    fd = np.where(fd == 0.0, mean, fd)
    return (imgs - dk) / fd


def ref_zero(stack, fix):
    stack = np.array(stack, dtype=np.float64)
    if fix:
        mean = stack.mean()
        stack[stack == 0.0] = mean
    return stack


def frames(case, shape, dtype):
    data = integers(case.rng, shape, 0, 255, np.float64)
    # pixels which are zero in every frame
    if case.choice([True, False], "zeros"):
        data[..., case.integer(0, shape[-2] - 1),
             case.integer(0, shape[-1] - 1)] = 0
    return data.astype(dtype)


def write_tifs(folder, data):
    os.makedirs(folder)
    for k in range(len(data)):
        Image.fromarray(data[k]).save(
            os.path.join(folder, "im_{:04d}.tif".format(k)))


def write_hdf(path, data, key="entry/data"):
    with h5py.File(path, "w") as fout:
        fout[key] = data


def dims(case):
    return (case.choice([3, 3, case.integer(2, 9), case.integer(4, 12)]),
            case.choice([3, case.integer(2, 12)]))


def tif_stack(case):
    height, width = dims(case)
    num = case.integer(1, 7)
    data = frames(case, (num, height, width),
                  case.choice([np.uint8, np.uint16, np.float32], "dtype"))
    folder = os.path.join(case.dir, "a")
    write_tifs(folder, data)
    flat, dark, tag = fields(case, height, width)
    crop = crop_of(case, height, width)
    fix = case.choice([True, False], "fix_zero_div")
    mode = case.choice(["all", "idx", "neg", "num_use"], "mode")
    idx, num_use = None, None
    sel = data
    if mode == "idx":
        idx = case.integer(0, num - 1)
        sel = data[idx:idx + 1]
    elif mode == "neg":
        idx = -case.integer(1, num)
        sel = data[num + idx:num + idx + 1]
    elif mode == "num_use":
        num_use = case.integer(1, num + 2)
        sel = data[:num_use]
    case.note(shape=data.shape, crop=crop, idx=idx, num_use=num_use)
    want = ref_zero(ref_correct(sel, flat, dark, crop), fix)
    func = case.choice([losa.get_tif_stack,
                        lambda p, **k: losa.get_image_stack(
                            k.pop("idx"), p, **k)])
    got = func(folder, idx=idx, crop=crop, flat_field=flat, dark_field=dark,
               num_use=num_use, fix_zero_div=fix)
    case.near(got, want, "tif-stack", "stack from a folder", rtol=1e-5)
    if idx is None:
        case.raises((ValueError, IndexError), "index-range",
                    "index {} of {}".format(num, num), losa.get_tif_stack,
                    folder, idx=num)
    case.seen("tif", mode, tag, crop != (0, 0, 0, 0), fix)


def image_stack(case):
    height, width = dims(case)
    num_set = case.integer(1, 4)
    num = case.integer(1, 5)
    kind = case.cycle(["tif", "hdf", "hdf2d"], "container")
    dtype = case.choice([np.uint8, np.uint16, np.float32], "dtype")
    sets, paths = [], []
    for k in range(num_set):
        data = frames(case, (num, height, width), dtype)
        if kind == "tif":
            path = os.path.join(case.dir, "s{}".format(k))
            write_tifs(path, data)
        else:
            path = os.path.join(case.dir, "s{}.h5".format(k))
            write_hdf(path, data[0] if kind == "hdf2d" else data)
        sets.append(data)
        paths.append(path)
    flat, dark, tag = fields(case, height, width)
    crop = crop_of(case, height, width)
    fix = case.choice([True, False], "fix_zero_div")
    average = case.choice([True, False], "average")
    num_use = case.choice([None, None, case.integer(1, num_set + 1)])
    idx = case.integer(0, num - 1)
    use = sets[:num_use] if num_use is not None else sets
    if kind == "hdf2d":
        sel = [s[0] for s in use]
    elif average:
        sel = [s.astype(np.float64).mean(axis=0) for s in use]
    else:
        sel = [s[idx] for s in use]
    case.note(shape=(num, height, width), crop=crop, idx=idx,
              num_use=num_use)
    want = ref_zero(ref_correct(sel, flat, dark, crop), fix)
    got = losa.get_image_stack(idx, paths, data_key="entry/data",
                               average=average, crop=crop, flat_field=flat,
                               dark_field=dark, num_use=num_use,
                               fix_zero_div=fix)
    case.near(got, want, "image-stack", "stack over datasets", rtol=1e-5)
    case.seen("stack", kind, average, tag, crop != (0, 0, 0, 0), fix)


def ref_sample(case):
    height, width = dims(case)
    num_set = case.integer(1, 4)
    num, num_ref = case.integer(1, 5), case.integer(1, 5)
    dtype = case.choice([np.uint8, np.uint16, np.float32], "dtype")
    ref2d = case.choice([True, False], "ref2d")
    rpaths, spaths, refs, sams = [], [], [], []
    for k in range(num_set):
        ref = frames(case, (num_ref, height, width), dtype)
        sam = frames(case, (num, height, width), dtype)
        rp = os.path.join(case.dir, "r{}.h5".format(k))
        sp = os.path.join(case.dir, "s{}.h5".format(k))
        write_hdf(rp, ref[0] if ref2d else ref, "ref/data")
        write_hdf(sp, sam, "sam/data")
        rpaths.append(rp)
        spaths.append(sp)
        refs.append(ref[0].astype(float) if ref2d
                    else ref.astype(float).mean(axis=0))
        sams.append(sam)
    flat, dark, tag = fields(case, height, width)
    crop = crop_of(case, height, width)
    fix = case.choice([True, False], "fix_zero_div")
    num_use = case.choice([None, case.integer(1, num_set + 1)])
    idx = case.integer(0, num - 1)
    use = slice(None, num_use)
    want_r = ref_zero(ref_correct(refs[use], flat, dark, crop), fix)
    want_s = ref_zero(ref_correct([s[idx] for s in sams[use]], flat, dark,
                                  crop), fix)
    case.note(crop=crop, idx=idx, num_use=num_use)
    got_r, got_s = losa.get_reference_sample_stacks(
        idx, rpaths, spaths, "ref/data", "sam/data", crop=crop,
        flat_field=flat, dark_field=dark, num_use=num_use, fix_zero_div=fix)
    case.near(got_r, want_r, "ref-stack", "reference stack", rtol=1e-5)
    case.near(got_s, want_s, "sam-stack", "sample stack", rtol=1e-5)
    case.seen("refsam", ref2d, tag, crop != (0, 0, 0, 0), fix)


def dls(case):
    """Frames of all kinds share one dataset and are told apart by keys."""
    height, width = dims(case)
    num_set = case.integer(1, 3)
    dtype = case.choice([np.uint8, np.uint16, np.float32], "dtype")
    layout = case.cycle(["before", "after", "around", "single", "nodark",
                         "noref"], "layout")
    num_sam = case.integer(1, 5)
    keys = []
    nref, ndark = case.integer(1, 3), case.integer(1, 3)
    if layout == "before":
        keys = [2] * ndark + [1] * nref + [0] * num_sam
    elif layout == "after":
        keys = [0] * num_sam + [1] * nref + [2] * ndark
    elif layout == "around":
        keys = ([2] * ndark + [1] * nref + [0] * num_sam + [1] * nref +
                [2] * ndark)
    elif layout == "single":
        keys = [2] + [1] + [0] * num_sam
    elif layout == "nodark":
        keys = [1] * nref + [0] * num_sam
    else:
        keys = [2] * ndark + [0] * num_sam
    keys = np.asarray(keys)
    sets, paths = [], []
    for k in range(num_set):
        data = frames(case, (len(keys), height, width), dtype)
        path = os.path.join(case.dir, "d{}.nxs".format(k))
        with h5py.File(path, "w") as fout:
            fout["entry1/data/data"] = data
            fout["entry1/data/image_key"] = keys
        sets.append(data.astype(float))
        paths.append(path)
    flat, dark, tag = fields(case, height, width)
    crop = crop_of(case, height, width)
    fix = case.choice([True, False], "fix_zero_div")
    num_use = case.choice([None, case.integer(1, num_set + 1)])
    idx = case.integer(0, num_sam - 1)
    how = case.choice(["auto", "name", "list"], "key_given")
    data_key = None if how == "auto" else "entry1/data/data"
    image_key = {"auto": None, "name": "entry1/data/image_key",
                 "list": list(keys)}[how]
    want_r, want_s = [], []
    for data in sets[:num_use]:
        dk = dark
        if dk is None and np.any(keys == 2):
            dk = data[keys == 2].mean(axis=0)
        if np.any(keys == 1):
            want_r.append(ref_correct(data[keys == 1].mean(axis=0), flat, dk,
                                      crop))
        want_s.append(ref_correct(data[keys == 0][idx], flat, dk, crop))
    case.note(keys=keys.tolist(), crop=crop, idx=idx, num_use=num_use)
    got = losa.get_reference_sample_stacks_dls(
        idx, paths, data_key=data_key, image_key=image_key, crop=crop,
        flat_field=flat, dark_field=dark, num_use=num_use, fix_zero_div=fix)
    if want_r:
        case.require(isinstance(got, tuple) and len(got) == 2, "dls-form",
                     "expected two stacks")
        case.near(got[0], ref_zero(want_r, fix), "dls-ref",
                  "reference stack ({} layout)".format(layout), rtol=1e-4)
        got = got[1]
    case.near(got, ref_zero(want_s, fix), "dls-sam",
              "sample stack ({} layout)".format(layout), rtol=1e-4)
    case.raises((ValueError, IndexError), "dls-range",
                "projection index beyond the scan",
                losa.get_reference_sample_stacks_dls, num_sam, paths,
                data_key="entry1/data/data",
                image_key="entry1/data/image_key")
    case.seen("dls", layout, tag, how, fix)


def register(ctx):
    ctx.family("tif_stack", 50, 800, tif_stack)
    ctx.family("image_stack", 60, 900, image_stack)
    ctx.family("ref_sample", 40, 600, ref_sample)
    ctx.family("dls", 60, 900, dls)
    for name in ("tif_stack", "image_stack", "ref_sample", "dls"):
        ctx.expect_tags(name, 15)
