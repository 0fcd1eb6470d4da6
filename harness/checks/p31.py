"""P31: a request the data cannot satisfy is refused, not answered."""
import os

import h5py
import numpy as np

import algotom.io.converter as conv_io
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post
import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.correction as corr_
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as rem
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.calibration as calib
import algotom.util.correlation as cl
import algotom.util.simulation as sim
import algotom.util.utility as util
import recipes
from vlib import noise, snapshot, tree_diff

RULE = ("a class is one (function, kind of impossible request) pair: the "
        "request was made and the same request just inside the limits of the "
        "data was answered")
ASSUMPTIONS = ["any exception counts as a refusal; its type and wording are "
               "not judged",
               "requests between the last valid and the first clearly "
               "impossible value (fractions of a pixel at the border) are "
               "not made"]
TABLE = {}


def request(*names):
    def add(func):
        for name in names:
            TABLE[name] = func
        return func
    return add


class Req:
    """Requests of one function: `base` settings and changes of them."""

    def __init__(self, func, **base):
        self.func, self.base = func, base
        self.good, self.bad, self.order = [("plain", {})], [], None

    def ok(self, label, **change):
        self.good.append((label, change))
        return self

    def no(self, label, **change):
        self.bad.append((label, change))
        return self


def outside(c, top):
    """Indices outside [0, top]."""
    return c.choice([-1, -c.integer(2, 9), top + 1, top + c.integer(2, 40)],
                    "outside")


def shape_off(c, shape):
    """Shapes unlike the given one, the transposed one included."""
    shape = list(shape)
    k = c.integer(0, len(shape) - 1)
    shape[k] += c.choice([-1, 1])
    return tuple(shape)


def sino_(c):
    nrow, ncol = c.integer(20, 40), c.integer(16, 32)
    return noise(c.rng, (nrow, ncol), 0.2, 0.9)


# ------------------------------------------------------------ reconstruction

@request("rec.fbp", "rec.bpf", "rec.dfi")
def _(c, name):
    sino = sino_(c)
    if c.choice([0, 1]):
        sino = np.stack([sino, sino * 0.9], axis=1)
    nrow, ncol = sino.shape[0], sino.shape[-1]
    func = {"fbp": rec.fbp_reconstruction, "bpf": rec.bpf_reconstruction,
            "dfi": rec.dfi_reconstruction}[name[4:]]
    base = dict(sinogram=sino, center=ncol / 2.0, apply_log=False)
    if name != "rec.dfi":
        base["gpu"] = False
    req = Req(func, **base)
    ang = np.linspace(0, np.pi, nrow)
    req.ok("first", center=0).ok("last", center=ncol - 1).ok(
        "angles", angles=ang)
    req.no("center", center=c.choice([-0.01, -1.0, ncol, ncol + 0.5,
                                      ncol * 3.0]))
    num = c.choice([nrow - 1, nrow + 1, 1, 2 * nrow])
    req.no("angles", angles=np.linspace(0, np.pi, num))
    return req


def vertical(c, name):
    num, height, width = (c.integer(18, 30), c.integer(8, 14),
                          c.integer(12, 20))
    data = noise(c.rng, (num, height, width), 0.2, 0.9)
    return data, num, height, width


@request("vert.one", "vert.multiple", "vert.angles")
def _(c, name):
    data, num, height, width = vertical(c, name)
    crop = [c.integer(0, 2) for _ in range(4)]
    wid = width - crop[2] - crop[3]
    base = dict(projections=data, center=wid / 2.0, crop=tuple(crop),
                ncore=1, gpu=False, show_progress=False, apply_log=False)
    if name == "vert.one":
        req = Req(vr.vertical_reconstruction, slice_index=wid // 2, **base)
        req.ok("first slice", slice_index=0)
        req.ok("last slice", slice_index=wid - 1)
        req.no("slice", slice_index=outside(c, wid - 1))
        req.no("alpha", alpha=c.choice([-0.5, -90.0, 180.5, 360.0]))
        req.ok("alpha 180", alpha=180.0)
    elif name == "vert.multiple":
        req = Req(vr.vertical_reconstruction_multiple, start_index=1,
                  stop_index=3, **base)
        req.ok("all slices", start_index=0, stop_index=wid - 1)
        req.no("start", start_index=outside(c, wid - 1))
        out = outside(c, wid - 1)
        req.no("stop", stop_index=out if out != -1 else -2)
        req.no("alpha", alpha=c.choice([-0.5, -90.0, 180.5, 360.0]))
    else:
        req = Req(vr.vertical_reconstruction_different_angles,
                  slice_indices=[1, 2], alphas=[0.0, 40.0], **base)
        req.ok("border slices", slice_indices=[0, wid - 1])
        pos = c.integer(0, 1)
        list_index = [1, 2]
        list_index[pos] = outside(c, wid - 1)
        req.no("slice", slice_indices=list_index)
        list_alpha = [0.0, 40.0]
        list_alpha[pos] = c.choice([-0.5, 180.5, 300.0])
        req.no("alpha", alphas=list_alpha)
        req.no("lengths", alphas=[0.0])
        req.no("lengths+", slice_indices=[1])
    req.ok("center first", center=0.0).ok("center last", center=wid - 1.0)
    req.no("center", center=c.choice([-0.5, -3.0, wid - 0.5, wid + 2.0]))
    req.no("filter option", ramp_filter=c.choice(["both", "none", 1]))
    start = c.integer(1, 5)
    req.ok("part", proj_start=start, proj_stop=num)
    req.ok("part+", proj_start=0, proj_stop=num - c.integer(1, 4),
           )
    low, high = c.choice([(num, -1), (5, 5), (6, 4), (num + 3, -1),
                          (0, num + 1), (start, num + c.integer(1, 30)),
                          (num, num + 4), (-1, num), (-3, 6), (0, -2)],
                         "projections")
    req.no("projections", proj_start=low, proj_stop=high)
    count = num - start
    good = np.linspace(0, np.pi, count)
    req.ok("angles", angles=good, proj_start=start)
    req.no("angles", proj_start=start, angles=np.linspace(
        0, np.pi, c.choice([count - 1, count + 1, num])))
    field = noise(c.rng, (height, width), 1.0, 1.2)
    req.ok("fields", flat_field=field, dark_field=0 * field)
    wrong = np.ones(shape_off(c, (height, width)))
    req.no("flat", flat_field=wrong)
    req.no("flat cropped", flat_field=np.ones((height - 1, width - 1)))
    req.no("dark", dark_field=0 * wrong, flat_field=c.choice([None, field]))
    gone = list(crop)
    side = c.choice([0, 2])
    size = height if side == 0 else width
    gone[side] = size - gone[side + 1] + c.integer(0, 3)
    req.no("crop", crop=tuple(gone))
    return req


@request("vert.center")
def _(c, name):
    data, num, height, width = vertical(c, name)
    mid = width // 2
    req = Req(vr.find_center_vertical_slice, projections=data,
              slice_index=mid, start=mid - 2, stop=mid + 2, ncore=1,
              gpu=False, show_progress=False, apply_log=False,
              metric=c.choice(["entropy", "sharpness", "autocorrelation"]))
    req.no("metric", metric=c.choice(["contrast", "", "Entropy"]))
    req.no("slice", slice_index=outside(c, width - 1))
    return req


# -------------------------------------------------------------- files

@request("io.load_image", "io.load_hdf", "io.find_file")
def _(c, name):
    path = os.path.join(c.dir, "input")
    tif = os.path.join(path, "a.tif")
    hdf = os.path.join(path, "a.hdf")
    losa.save_image(tif, noise(c.rng, (5, 6)))
    with h5py.File(hdf, "w") as fobj:
        fobj["entry/data"] = np.arange(5.0)
    if name == "io.load_image":
        req = Req(losa.load_image, file_path=tif)
        req.no("missing", file_path=os.path.join(path, "b.tif"))
        req.no("not an image", file_path=hdf)
    elif name == "io.load_hdf":
        req = Req(losa.load_hdf, file_path=hdf, key_path="entry/data")
        req.no("missing", file_path=os.path.join(path, "b.hdf"))
        req.no("key", key_path=c.choice(["entry/dat", "data", "entry/data/x",
                                         "Entry/data"]))
        req.no("not hdf", file_path=tif)
    else:
        req = Req(losa.find_file, path=path + "/*.tif")
        req.no("nothing", path=path + "/*.png")
        req.no("nothing+", path=os.path.join(path, "none", "*.tif"))
    return req


@request("io.save_image", "io.save_multiple", "io.load_multiple")
def _(c, name):
    out = os.path.join(c.dir, "input", "out")
    stack = noise(c.rng, (3, 4, 5))
    os.makedirs(out)
    if name == "io.save_image":
        req = Req(losa.save_image, file_path=os.path.join(out, "a.tif"),
                  mat=stack[0])
        req.order = "bad first"
        req.no("complex", mat=stack[0] * 1j)
        req.no("format", file_path=os.path.join(out, "a.xyz"))
        return req
    paths = [os.path.join(out, "n{}.tif".format(i)) for i in range(9)]
    if name == "io.save_multiple":
        axis = c.integer(0, 2)
        num = stack.shape[axis]
        req = Req(losa.save_image_multiple, list_path=paths[:num],
                  image_stack=stack, axis=axis, ncore=c.choice([1, 2]))
        req.order = "bad first"
        req.no("too few", list_path=paths[:num - 1])
        req.no("too many", list_path=paths[:num + 1])
        req.no("type", list_path=tuple(paths[:num]))
        return req
    losa.save_image_multiple(paths[:3], stack)
    req = Req(losa.load_image_multiple, list_path=paths[:3],
              ncore=c.choice([1, 2]))
    req.no("missing", list_path=paths[:4])
    req.no("type", list_path=paths[0])
    return req


def make_tif(c, num=None):
    num = num or c.integer(3, 6)
    folder = os.path.join(c.dir, "input", "tif_{}".format(c.integer(0, 9999)))
    data = noise(c.rng, (num, c.integer(6, 10), c.integer(7, 12)), 0.2, 1.0)
    for i in range(num):
        losa.save_image(os.path.join(folder, "i_{:05d}.tif".format(i)),
                        data[i])
    return folder, data


def make_hdf(c, data, key="entry/data", name="a", extra=None):
    path = os.path.join(c.dir, "input", name + ".hdf")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "w") as fobj:
        fobj[key] = data
        for other in extra or {}:
            fobj[other] = extra[other]
    return path


def bad_crop(c, height, width):
    """Nothing is left of the image."""
    keep = [0, 0, 0, 0]
    side = c.integer(0, 3)
    size = (height, height, width, width)[side]
    cut = c.integer(0, 2)
    keep[side ^ 1] = cut
    keep[side] = size - cut + c.integer(0, 2)
    return tuple(keep)


@request("io.stack", "io.stack_list", "io.stack_hdf")
def _(c, name):
    folder, data = make_tif(c)
    num, height, width = data.shape
    if name == "io.stack":
        req = Req(losa.get_image_stack, idx=c.integer(-num, num - 1),
                  paths=folder)
        req.ok("first", idx=0).ok("last", idx=num - 1).ok("back", idx=-num)
        req.no("index", idx=c.choice([num, num + 3, -num - 1, -num - 2,
                                      -2 * num, -5 * num]))
        req.no("folder", paths=folder + "_none")
        req.no("type", paths=(folder,))
    else:
        if name == "io.stack_list":
            other, _ = make_tif(c, num)
            for one in os.listdir(other):
                losa.save_image(os.path.join(other, one), data[0])
            paths, key = [folder, other], None
        else:
            paths = [make_hdf(c, data), make_hdf(c, data, name="b")]
            key = "entry/data"
        req = Req(losa.get_image_stack, idx=c.integer(0, num - 1),
                  paths=paths, data_key=key)
        req.ok("first", idx=0).ok("last", idx=num - 1)
        req.no("index", idx=c.choice([num, num + 3, -num - 1, -num - 2,
                                      -3 * num]))
        if key:
            req.no("no key", data_key=None)
            req.no("key", data_key="entry/dat")
    req.no("crop", crop=bad_crop(c, height, width))
    req.ok("small crop", crop=(height - 1, 0, 0, width - 1))
    field = noise(c.rng, (height, width), 1.0, 1.2)
    req.ok("fields", flat_field=field, dark_field=0 * field)
    wrong = np.ones(shape_off(c, (height, width)))
    req.no("flat", flat_field=wrong)
    req.no("dark", dark_field=0 * wrong)
    return req


@request("io.dls", "io.speckle")
def _(c, name):
    num, height, width = c.integer(4, 7), c.integer(6, 9), c.integer(6, 9)
    data = noise(c.rng, (num + 2, height, width), 0.2, 1.0)
    ikey = np.asarray([1] + num * [0] + [2])
    ref = noise(c.rng, (2, height, width), 0.2, 1.0)
    pa = make_hdf(c, data, name="a", extra={"entry/image_key": ikey,
                                            "entry/ref": ref})
    pb = make_hdf(c, data, name="b", extra={"entry/image_key": ikey,
                                            "entry/ref": ref})
    if name == "io.dls":
        req = Req(losa.get_reference_sample_stacks_dls,
                  proj_idx=c.integer(0, num - 1), list_path=[pa, pb],
                  data_key="entry/data", image_key="entry/image_key")
        req.ok("first", proj_idx=0).ok("last", proj_idx=num - 1)
        req.no("index", proj_idx=outside(c, num - 1))
        req.no("keys", image_key=list(ikey[:-1]))
        req.no("keys+", image_key=list(ikey) + [0])
        req.no("type", list_path=pa)
        req.no("key", data_key="entry/dat")
    else:
        req = Req(losa.get_reference_sample_stacks,
                  proj_idx=c.integer(0, num - 1), ref_path=[pa, pb],
                  sam_path=[pa, pb], ref_key="entry/ref",
                  sam_key="entry/data")
        req.ok("first", proj_idx=0).ok("last", proj_idx=num + 1)
        req.no("index", proj_idx=num + 2 + c.integer(0, 4))
        req.no("number", ref_path=[pa])
        req.no("type", ref_path=pa)
        req.no("key", ref_key="entry/dat")
        req.no("key+", sam_key="entry/dat")
    req.no("crop", crop=bad_crop(c, height, width))
    field = noise(c.rng, (height, width), 1.0, 1.2)
    req.ok("fields", flat_field=field, dark_field=0 * field)
    wrong = np.ones(shape_off(c, (height, width)))
    req.no("flat", flat_field=wrong)
    req.no("dark", dark_field=0 * wrong)
    return req


@request("conv_io.tif_to_hdf", "conv_io.hdf_to_tif", "conv_io.emulator")
def _(c, name):
    folder, data = make_tif(c)
    num, height, width = data.shape
    out = os.path.join(c.dir, "out_{}".format(c.integer(0, 9999)))
    if name == "conv_io.tif_to_hdf":
        req = Req(conv_io.convert_tif_to_hdf, input_path=folder,
                  output_path=out + ".hdf")
        req.no("folder", input_path=folder + "_none")
        req.no("pattern", pattern="nothing")
        req.no("crop", crop=bad_crop(c, height, width))
    elif name == "conv_io.hdf_to_tif":
        path = make_hdf(c, data)
        axis = c.integer(0, 2)
        size = data.shape[axis]
        req = Req(conv_io.extract_tif_from_hdf, input_path=path,
                  output_path=out, key_path="entry/data", axis=axis,
                  index=c.integer(-size, size - 1))
        req.ok("first", index=0).ok("last", index=size - 1)
        req.no("index", index=c.choice([size, size + 4, -size - 1,
                                        -size - 3]))
        req.no("key", key_path="entry/dat")
        req.no("file", input_path=path + "x")
    else:
        emu = conv_io.HdfEmulatorFromTif(folder)
        req = Req(lambda index: emu[index], index=c.integer(0, num - 1))
        req.no("index", index=c.choice([num, num + 3, -num - 1]))
        req.no("type", index="a")
        req.no("row", index=(0, height + c.integer(0, 3), slice(None)))
    req.order = "bad first"
    return req


# ------------------------------------------------------------ postprocessing

def bad_crop6(c, shape):
    axis = c.integer(0, 2)
    crop = 6 * [0]
    first = c.integer(0, 1)
    cut = c.integer(0, 2)
    crop[2 * axis + first] = shape[axis] - cut + c.integer(0, 3)
    crop[2 * axis + 1 - first] = cut
    return tuple(crop)


def good_crop6(c, shape):
    axis = c.integer(0, 2)
    crop = 6 * [0]
    crop[2 * axis + c.integer(0, 1)] = shape[axis] - 3
    return tuple(crop)


@request("post.downsample", "post.rescale", "post.reslice")
def _(c, name):
    data = noise(c.rng, [c.integer(6, 9) for _ in range(3)], 0.2, 1.0)
    kind = c.choice(["tif", "hdf"] if name == "post.reslice"
                    else ["tif", "hdf", "array"], "input")
    key = None
    os.makedirs(os.path.join(c.dir, "input"))
    if kind == "hdf":
        source, key = make_hdf(c, data), "entry/data"
    elif kind == "tif":
        source = os.path.join(c.dir, "input", "stack")
        for i in range(len(data)):
            losa.save_image("{}/i_{:05d}.tif".format(source, i), data[i])
    else:
        source = data
    func = {"post.downsample": post.downsample_dataset,
            "post.rescale": post.rescale_dataset,
            "post.reslice": post.reslice_dataset}[name]
    out = os.path.join(c.dir, "out" + c.choice(["", ".hdf"], "output"))
    base = dict(input_=source, output=out, key_path=key, overwrite=True)
    if name == "post.downsample":
        base["cell_size"] = 2
    elif name == "post.rescale":
        base["minmax"] = (0.0, 1.0)
    else:
        base.update(show_progress=False, ncore=c.choice([1, 2]))
    req = Req(func, **base)
    req.order = "bad first"
    req.ok("thin", crop=good_crop6(c, data.shape))
    req.no("crop", crop=bad_crop6(c, data.shape))
    req.no("crop length", crop=(0, 0, 0, 0))
    req.no("exists", overwrite=False, output=os.path.join(c.dir, "input")
           if c.choice([0, 1]) else make_hdf(c, data, name="other"))
    req.no("output format", output=os.path.join(c.dir, "o.xyz"))
    if kind == "hdf":
        req.no("key", key_path="entry/dat")
        req.no("no key", key_path=None)
    elif kind == "tif":
        req.no("no tif", input_=os.path.join(c.dir, "none"))
    req.no("input type", input_=os.path.join(c.dir, "a.xyz"))
    if name == "post.downsample":
        cell = [2, 2, 2]
        axis = c.integer(0, 2)
        cell[axis] = data.shape[axis] + c.integer(1, 4)
        req.no("cell", cell_size=tuple(cell))
        cell[axis] = data.shape[axis]
        req.ok("cell", cell_size=tuple(cell))
        req.no("nbit", rescaling=True, nbit=c.choice([12, 32, 1]))
    elif name == "post.rescale":
        req.ok("32", nbit=32)
        req.no("nbit", nbit=c.choice([12, 1, 64]))
    else:
        req.no("nbit", rescaling=True, nbit=c.choice([12, 32, 1]))
        req.no("axis", axis=c.choice([0, 3, -1]))
        req.no("output", output=None)
    return req


@request("post.ring_fft", "post.ring_wavelet", "util.forward",
         "util.backward", "sim.sinogram")
def _(c, name):
    size = c.integer(40, 64)
    mat = noise(c.rng, (size, size))
    wrong = noise(c.rng, (size, size + c.choice([-1, 1, 9])))
    if name == "sim.sinogram":
        req = Req(sim.make_sinogram, mat=mat, angles=np.asarray([0.1, 0.5]))
    elif name == "post.ring_fft":
        req = Req(post.remove_ring_based_fft, mat=mat)
    elif name == "post.ring_wavelet":
        req = Req(post.remove_ring_based_wavelet_fft, mat=mat, level=1)
    else:
        func = (util.transform_slice_forward if name == "util.forward"
                else util.transform_slice_backward)
        req = Req(func, mat=mat)
        coord = util.rectangular_from_polar(size, size, size, size)
        req.ok("coordinates", coord_mat=coord)
        off = [np.copy(a) for a in coord]
        k = c.integer(0, 1)
        off[k] = off[k][:, :-1] if c.choice([0, 1]) else off[k][1:]
        req.no("coordinates", coord_mat=tuple(off))
        both = [a[1:] for a in coord]
        req.no("coordinates+", coord_mat=tuple(both))
    req.no("not square", mat=wrong)
    return req


# ------------------------------------------------------------ preprocessing

@request("conv.stitch", "conv.join", "calc.overlap", "calc.search")
def _(c, name):
    height, width = c.integer(12, 20), c.integer(24, 40)
    mat1, mat2 = (noise(c.rng, (height, width), 0.5, 1.0) for _ in range(2))
    wrong = noise(c.rng, (height + c.choice([-1, 1, 5]), width), 0.5, 1.0)
    side = c.integer(0, 1)
    if name == "conv.stitch":
        req = Req(conv.stitch_image, mat1=mat1, mat2=mat2, side=side,
                  overlap=c.choice([8, 8.4]))
    elif name == "conv.join":
        req = Req(conv.join_image, mat1=mat1, mat2=mat2, side=side,
                  joint_width=c.choice([4, 4.3]))
    elif name == "calc.overlap":
        req = Req(calc.find_overlap, mat1=mat1, mat2=mat2, win_width=8,
                  side=side, ncore=1)
    else:
        req = Req(calc.search_overlap, mat1=mat1, mat2=mat2, win_width=8,
                  side=side, ncore=1)
    req.no("heights", mat2=wrong)
    req.no("heights+", mat1=wrong)
    return req


@request("conv.stitch_multiple", "conv.join_multiple",
         "calc.overlap_multiple")
def _(c, name):
    mats = [noise(c.rng, (10, 24), 0.5, 1.0) for _ in range(3)]
    if name == "conv.stitch_multiple":
        req = Req(conv.stitch_image_multiple, list_mat=mats,
                  list_overlap=[(6, 1), (6, 1)])
        req.ok("two", list_mat=mats[:2], list_overlap=[(6, 1)])
    elif name == "conv.join_multiple":
        req = Req(conv.join_image_multiple, list_mat=mats,
                  list_joint=[(6, 1), (6, 1)])
        req.ok("two", list_mat=mats[:2], list_joint=[(6, 1)])
    else:
        req = Req(calc.find_overlap_multiple, list_mat=mats, win_width=8,
                  side=1, ncore=1)
        req.ok("two", list_mat=mats[:2])
    req.no("one", list_mat=mats[:1])
    req.no("none", list_mat=[])
    return req


@request("conv.helical", "conv.helical_full")
def _(c, name):
    nproj, pix, height = c.integer(13, 21), 0.1, c.integer(14, 20)
    kind = c.choice(["180", "360"], "scan")
    fov = pix * height
    pitch = fov * c.uniform(0.9, 1.1)
    turns = c.integer(2, 3)
    step = pitch / (2.0 * (nproj - 1))
    depth = int(turns * 2 * (nproj - 1)) + 1
    width = c.integer(6, 10)
    data = noise(c.rng, (depth, height, width), 0.5, 1.0)
    y_start, y_stop = 0.0, step * (depth - 1)
    if name == "conv.helical":
        if kind == "360":
            pitch = fov * 0.7
            step = pitch / (2.0 * (nproj - 1))
            depth = int(3 * 2 * (nproj - 1)) + 1
            data = noise(c.rng, (depth, height, width), 0.5, 1.0)
            y_stop = step * (depth - 1)
        else:
            pitch = fov * 0.9
            step = pitch / (2.0 * (nproj - 1))
            y_stop = step * (depth - 1)
        func = conv.generate_sinogram_helical_scan
    else:
        func = conv.generate_full_sinogram_helical_scan
    top = calc.calculate_maximum_index(y_start, y_stop, pitch, pix, kind)
    base = dict(tomo_data=data, num_proj=nproj, pixel_size=pix,
                y_start=y_start, y_stop=y_stop, pitch=pitch, scan_type=kind)
    index = None
    for k in c.rng.permutation(np.arange(1, max(2, int(top)))):
        try:
            func(index=int(k), **base)
        except Exception:
            continue
        index = int(k)
        break
    if index is None:
        return None
    req = Req(func, index=index, **base)
    req.no("index", index=c.choice([-1, -5, int(top) + 1, int(top) + 7]) if
           name == "conv.helical" else
           c.choice([-2 * int(top), 3 * int(top)]))
    if name == "conv.helical":
        req.no("scan type", scan_type=c.choice(["90", "full", 180]))
    return req


@request("calc.height", "calc.index")
def _(c, name):
    kw = dict(y_start=0.0, y_stop=30.0, pitch=4.0, scan_type="180")
    if name == "calc.index":
        req = Req(calc.calculate_maximum_index, pixel_size=0.2, **kw)
    else:
        req = Req(calc.calculate_reconstructable_height, **kw)
    req.ok("360", scan_type="360")
    req.no("type", scan_type=c.choice(["90", 180, "", None]))
    return req


@request("filt.wedge", "corr.upsample", "util.detect_sample")
def _(c, name):
    sino = sino_(c)
    nrow, ncol = sino.shape
    if name == "filt.wedge":
        req = Req(filt.double_wedge_filter, sinogram=sino,
                  center=ncol / 2.0, iteration=1, pad=4)
        req.no("center", center=0)
        kind = c.choice(["180", "360"])
        rows = nrow if kind == "360" else 2 * nrow - 1
        shape = (rows, ncol + 8)
        req.ok("mask", mask=np.ones(shape), sino_type=kind)
        req.no("mask", mask=np.ones(shape_off(c, shape)), sino_type=kind)
        req.no("mask of the unpadded", mask=np.ones((rows, ncol)),
               sino_type=kind)
    elif name == "corr.upsample":
        req = Req(corr_.upsample_sinogram, sinogram=sino, scale=2,
                  center=ncol / 2.0, pad=4)
        req.no("odd", scale=c.choice([1, 3, 5]))
        req.no("center", center=0)
        req.ok("no center", center=0, sino_type="360")
        return req
    else:
        req = Req(util.detect_sample, sinogram=sino)
    req.ok("360", sino_type="360")
    req.no("type", sino_type=c.choice(["90", 180, "", None]))
    return req


@request("corr.chunks")
def _(c, name):
    data = noise(c.rng, [c.integer(6, 9) for _ in range(3)], 0.5, 1.0)
    mid = data.shape[1] / 2.0, data.shape[2] / 2.0
    kind = c.choice(["one", "chunk", "tilt", "tilts"], "function")
    fact = [1.0, 1e-4]
    if kind == "one":
        req = Req(corr_.unwarp_sinogram, data=data, index=2, xcenter=mid[1],
                  ycenter=mid[0], list_fact=fact)
    elif kind == "chunk":
        req = Req(corr_.unwarp_sinogram_chunk, data=data, start_index=2,
                  stop_index=3, xcenter=mid[1], ycenter=mid[0],
                  list_fact=fact)
    elif kind == "tilt":
        req = Req(corr_.generate_tilted_sinogram, data=data, index=2,
                  angle=1.0)
    else:
        req = Req(corr_.generate_tilted_sinogram_chunk, data=data,
                  start_index=2, stop_index=3, angle=1.0)
    req.no("2d", data=data[0])
    req.no("4d", data=data[None])
    return req


@request("corr.profile", "corr.hardening", "corr.mtf", "corr.flat")
def _(c, name):
    mat = noise(c.rng, (c.integer(10, 16), c.integer(10, 16)), 0.1, 0.9)
    height, width = mat.shape
    if name == "corr.profile":
        if c.choice([0, 1]):
            req = Req(corr_.generate_tilted_profile_line, mat=mat, index=4,
                      angle=1.0)
        else:
            req = Req(corr_.generate_tilted_profile_chunk, mat=mat,
                      start_index=3, stop_index=5, angle=1.0)
        req.no("3d", mat=mat[None])
        req.no("1d", mat=mat[0])
    elif name == "corr.hardening":
        req = Req(corr_.beam_hardening_correction, mat=mat, q=0.01, n=2.0)
        big = np.copy(mat)
        big[c.integer(0, height - 1), c.integer(0, width - 1)] = c.choice(
            [2.0, 200.0])
        req.no("not normalised", mat=big)
        req.no("n", n=c.choice([1.9, 0.0, -3.0]))
    elif name == "corr.mtf":
        pad = c.integer(1, 5)
        win = np.ones((height + 2 * pad, width + 2 * pad))
        req = Req(corr_.mtf_deconvolution, mat=mat, window=win, pad=pad)
        k = c.integer(0, 1)
        req.no("small window", window=win[:height - 1] if k else
               win[:, :width - 1])
    else:
        flat, dark = np.ones((height, width)), np.zeros((height, width))
        req = Req(corr_.flat_field_correction, proj=mat, flat=flat,
                  dark=dark)
        req.no("flat", flat=np.ones((height + 1, width)))
        req.no("dark", dark=np.zeros((height, width + 1)))
        req.no("method", option1={"method": "no_such_method"})
    return req


STRIPE = {
    "rem.sorting": (rem.remove_stripe_based_sorting, {}),
    "rem.filtering": (rem.remove_stripe_based_filtering, {}),
    "rem.fitting": (rem.remove_stripe_based_fitting, {}),
    "rem.large": (rem.remove_large_stripe, {"size": 9}),
    "rem.normalization": (rem.remove_stripe_based_normalization, {}),
    "rem.wavelet": (rem.remove_stripe_based_wavelet_fft, {"level": 1}),
    "rem.interpolation": (rem.remove_stripe_based_interpolation,
                          {"size": 9}),
}


@request(*STRIPE)
def _(c, name):
    func, kw = STRIPE[name]
    sino = noise(c.rng, (c.integer(40, 60), c.integer(40, 60)), 0.5, 1.0)
    sino[:, 20] *= 1.5
    req = Req(func, sinogram=sino, **kw)
    para = (1, 5) if name != "rem.normalization" else 5
    method = "gaussian_filter"
    if name in ("rem.large", "rem.interpolation", "rem.normalization"):
        method, para = "gaussian_filter1d", 5
    if name == "rem.wavelet":
        method, para = "gaussian_filter", (1, 3)
    if name == "rem.filtering":
        pass
    req.ok("option", op={"method": method, "para1": para})
    req.no("method", op={"method": c.choice(
        ["no_such_filter", "gaussian_filterx", "apply_gaussian"]),
        "para1": para})
    req.no("no method", op={"para1": para})
    req.no("not a dict", op=c.choice(["gaussian_filter", 5, [1, 5]]))
    return req


@request("rem.blob", "util.stripe_mask", "util.noise_free", "util.level")
def _(c, name):
    height, width = c.integer(12, 20), c.integer(40, 50)
    mat = noise(c.rng, (height, width), 0.5, 1.0)
    if name == "rem.blob":
        mask = np.zeros((height, width), np.float32)
        mask[4:6, 10:13] = 1
        req = Req(rem.remove_blob, mat=mat, mask=mask)
        req.no("shape", mask=np.zeros(shape_off(c, mask.shape), np.float32))
    elif name == "util.stripe_mask":
        mask = np.zeros(width)
        mask[10:12] = 1
        req = Req(util.interpolate_inside_stripe, mat=mat, list_mask=mask)
        req.no("length", list_mask=np.zeros(c.choice(
            [width - 1, width + 1, height])))
    elif name == "util.noise_free":
        req = Req(util.detect_stripe, list_data=mat[0], snr=3.0)
        req.no("noise-free", list_data=np.full(
            width, c.choice([0.0, 1.0, 100.0])))
    else:
        data = util.apply_wavelet_decomposition(
            noise(c.rng, (160, 144)), "db2", level=3)
        req = Req(util.apply_filter_to_wavelet_component, data=data,
                  level=c.integer(1, 3), order=1, method="gaussian_filter",
                  para=[(1, 3)])
        req.ok("list", level=[1, 3]).ok("all", level=None)
        req.no("level", level=c.choice([0, -1, 4, 9]))
        req.no("level list", level=c.choice([[1, 4], [0, 2], (3, -1)]))
        req.no("level type", level=c.choice([1.5, "1"]))
        req.no("method", method="no_such_method")
    return req


@request("util.frequency", "util.locate", "util.spiral")
def _(c, name):
    if name == "util.frequency":
        height, width = c.integer(20, 30), c.integer(31, 40)
        axis = c.integer(0, 1)
        length = height if axis == 0 else width
        req = Req(util.separate_frequency_component,
                  mat=noise(c.rng, (height, width)), axis=axis)
        req.ok("window", window=np.ones(length))
        req.no("window", window=np.ones(c.choice(
            [length - 1, length + 1, height + width - length])))
    elif name == "util.locate":
        meta = np.zeros((1, 1, 2))
        meta[0, 0] = 4, 1
        req = Req(util.locate_slice_chunk, slice_start=3, slice_stop=5,
                  height=20, overlap_metadata=meta)
        req.no("order", slice_stop=c.choice([2, 0, 1]))
    else:
        req = Req(util.generate_spiral_positions, step=1.0, num_pos=9,
                  height=40, width=40)
        req.no("too far", step=c.choice([20.0, 100.0]))
    return req


@request("calib.points", "calib.binarize")
def _(c, name):
    if name == "calib.binarize":
        mat = noise(c.rng, (30, 30), 1.0, 2.0)
        mat[10:14, 10:14] = 9.0
        req = Req(calib.binarize_image, mat=mat, threshold=4.0,
                  denoise=False, bgr="dark")
        req.no("threshold", threshold=c.choice(
            [0.0, -5.0, 9.5, 1e4]))
        return req
    theta = np.linspace(0, 2 * np.pi, 12, endpoint=False)
    xs, ys = 50 + 30 * np.cos(theta), 40 + 4 * np.sin(theta)
    kind = c.choice(["fit", "tilt"], "function")
    if kind == "fit":
        req = Req(calib.fit_points_to_ellipse, x=xs, y=ys)
    else:
        req = Req(calib.find_tilt_roll, x=xs, y=ys,
                  method=c.choice(["ellipse", "linear"]))
        req.no("method", method=c.choice(["circle", "", None]))
    req.no("lengths", y=ys[:-1])
    req.no("lengths+", x=xs[:-1])
    return req


# ------------------------------------------------------ phase, correlation

@request("phase.cosine", "phase.fft", "phase.iterative", "phase.fc",
         "phase.scs")
def _(c, name):
    height, width = c.integer(10, 18), c.integer(10, 18)
    mat = noise(c.rng, (height, width), -1.0, 1.0)
    if name == "phase.cosine":
        req = Req(ps.unwrap_phase_based_cosine_transform, mat=mat)
        req.ok("window", window=np.ones((height, width)))
        req.no("window", window=np.ones(c.choice(
            [(2 * height, 2 * width), (height + 1, width), (1, width),
             (height, 1), (1, 1)])))
        return req
    if name in ("phase.fft", "phase.iterative"):
        func = (ps.unwrap_phase_based_fft if name == "phase.fft"
                else ps.unwrap_phase_iterative_fft)
        req = Req(func, mat=mat)
        win = np.ones((2 * height, 2 * width))
        req.ok("windows", win_for=win, win_back=win)
        off = np.ones(c.choice([(height, width), (2 * height + 1, 2 * width),
                                (1, 2 * width), (2 * height, 1)]))
        req.no("forward", win_for=off)
        req.no("backward", win_back=off)
        return req
    shape = (2 * height, 2 * width)
    func = ps.reconstruct_surface_from_gradient_FC_method
    make = ps._make_window_FC_method
    kw = {}
    if name == "phase.scs":
        pad = c.choice([0, 3])
        shape = (height + 2 * pad, width + 2 * pad)
        func = ps.reconstruct_surface_from_gradient_SCS_method
        make = ps._make_window_SCS_method
        kw = dict(pad=pad)
    req = Req(func, grad_x=mat, grad_y=mat * 0.5, **kw)
    window = make(*shape)
    req.ok("window", window=window)
    req.no("sizes", grad_y=np.ones(shape_off(c, mat.shape)))
    if name == "phase.fc":
        req.no("one row", grad_y=mat[:1])
    req.no("window size", window=make(shape[0] + 2, shape[1]))
    req.no("window number", window=window[:2])
    req.no("window type", window=c.choice(["a", np.ones(3)]))
    return req


@request("phase.stack_shift", "phase.sample_shift", "phase.align",
         "phase.transmission")
def _(c, name):
    num, height, width = 3, c.integer(24, 30), c.integer(24, 30)
    ref = np.stack([recipes.texture(c, (height, width))
                    for _ in range(num)])
    sam = ref + noise(c.rng, ref.shape, 0, 0.1)
    shifts = [[0.0, 0.0]] * num
    wrong = np.concatenate([sam, sam[:1]])
    narrow = sam[:, :, :-1]
    base = dict(ref_stack=ref, sam_stack=sam)
    if name == "phase.align":
        req = Req(ps.align_image_stacks, sr_shifts=shifts, **base)
        req.ok("both", sam_shifts=shifts)
        req.no("shifts", sr_shifts=c.choice([shifts[:-1], shifts * 2, []]))
        req.no("shifts+", sam_shifts=c.choice([shifts[:-1], shifts * 2, []]))
    elif name == "phase.transmission":
        win, margin = 5, c.integer(2, 4)
        zero = np.zeros((height, width))
        req = Req(ps.get_transmission_dark_field_signal, x_shifts=zero,
                  y_shifts=zero, win_size=win, margin=margin, ncore=1,
                  **base)
        side = 2 * (win // 2 + margin)
        req.no("small", ref_stack=ref[:, :side], sam_stack=sam[:, :side])
        req.no("narrow", ref_stack=ref[:, :, :side],
               sam_stack=sam[:, :, :side])
        req.no("4d", ref_stack=ref[None], sam_stack=sam[None])
        return req
    elif name == "phase.stack_shift":
        req = Req(ps.find_shift_between_image_stacks, win_size=9, margin=4,
                  gpu=False, ncore=1, list_ij=[12, 12], **base)
    else:
        req = Req(ps.find_shift_between_sample_images, sr_shifts=shifts,
                  win_size=9, margin=4, gpu=False, ncore=1,
                  list_ij=[12, 12], **base)
    req.no("numbers", sam_stack=wrong)
    req.no("sizes", sam_stack=narrow)
    return req


@request("cl.local_2d", "cl.local_3d", "cl.umpa", "cl.global", "cl.map")
def _(c, name):
    win, margin = c.choice([5, 7], "window"), c.integer(2, 4)
    size = 2 * (win // 2) + 1 + 2 * margin
    height, width = size + c.integer(1, 4), size + c.integer(1, 4)
    ref = recipes.texture(c, (height, width))
    mat = ref + noise(c.rng, ref.shape, 0, 0.1)
    if name == "cl.map":
        req = Req(cl.generate_correlation_map, ref_mat=ref,
                  mat=ref[2:-2, 3:-3])
        req.ok("same size", mat=mat)
        req.no("higher", mat=np.concatenate([mat, mat[:1]]))
        req.no("wider", mat=np.concatenate([mat, mat[:, :1]], axis=1))
        req.no("1d", ref_mat=ref[0], mat=mat[0])
        ref3, mat3 = np.stack(3 * [ref]), np.stack(3 * [mat])
        req.ok("3d", ref_mat=ref3, mat=mat3)
        req.no("numbers", ref_mat=ref3, mat=mat3[:2])
        return req
    base = dict(ref_mat=ref, mat=mat, win_size=win, margin=margin)
    if name in ("cl.local_3d", "cl.umpa"):
        base["ref_mat"] = np.stack([ref, ref[::-1], ref[:, ::-1]])
        base["mat"] = np.stack([mat, mat[::-1], mat[:, ::-1]])
    if name in ("cl.local_2d", "cl.local_3d"):
        dim = c.choice([1, 2] if name == "cl.local_3d" else [2], "dim")
        base.update(dim=dim, gpu=False, ncore=1)
        req = Req(cl.find_local_shifts, **base)
    elif name == "cl.umpa":
        req = Req(cl.find_local_shifts_umpa, gpu=False, ncore=1, **base)
    else:
        gap = win // 2 + margin
        list_i = [height // 2, height // 2]
        list_j = [width // 2, width // 2]
        # the box is open at both ends
        if not (gap < height // 2 < height - gap and
                gap < width // 2 < width - gap):
            return None
        req = Req(cl.find_global_shift_based_local_shifts, gpu=False,
                  ncore=1, list_ij=[list_i, list_j], **base)
        req.ok("point", list_ij=[height // 2, width // 2])
        off = c.choice([[gap - 1, width // 2], [height // 2, gap - 1],
                        [height - gap + 1, width // 2],
                        [height // 2, width - gap + 1], [-3, width // 2],
                        [height + 5, width // 2], [0, 0]])
        req.no("point", list_ij=off)
        req.no("points", list_ij=[[off[0]], [off[1]]])
        req.no("lengths", list_ij=[list_i, list_j[:1]])
        req.no("format", list_ij=c.choice([[4], [4, 5, 6], 7, [[4], 5]]))
    refb, matb = req.base["ref_mat"], req.base["mat"]
    req.no("sizes", mat=matb[..., :-1])
    req.no("heights", mat=matb[..., :-1, :])
    axis = c.integer(1, 2)
    if not (name == "cl.local_3d" and base["dim"] == 1):
        cut = (slice(None), slice(0, size - 1))[::1 if axis == 2 else -1]
        small = (Ellipsis,) + cut
        req.no("small", ref_mat=refb[small], mat=matb[small])
        whole = (Ellipsis,) + (slice(0, size), slice(0, size))
        if name != "cl.global":
            req.ok("exact", ref_mat=refb[whole], mat=matb[whole])
    else:
        req.no("narrow", ref_mat=refb[..., :size - 1],
               mat=matb[..., :size - 1])
    if name == "cl.local_3d":
        req.no("numbers", mat=matb[:2])
    if name == "cl.umpa":
        req.no("2d", ref_mat=refb[0], mat=matb[0])
    return req


# ---------------------------------------------------------------- the check

def call(req, change):
    kwargs = dict(req.base)
    kwargs.update({k: v for k, v in change.items() if k != "op"})
    if "op" in change:
        kwargs["opt"] = change["op"]
    return req.func(**kwargs)


def refuse(case):
    name = case.cycle(sorted(TABLE), "function")
    req = TABLE[name](case, name)
    if req is None:
        return
    if req.order != "bad first":
        accept(case, name, req)
    args = digest_of(req)
    before = snapshot(case.dir)
    for label, change in req.bad:
        text = "{}: {} {}".format(name, label, brief(change))
        case.ctx.evaluations += 1
        try:
            call(req, change)
        except Exception:
            case.count("refused")
            case.seen(name, label)
        else:
            case.fail("accepted/" + name + "/" + label, text +
                      " is answered")
        after = snapshot(case.dir)
        gone, changed, new = tree_diff(before, after)
        case.check(not gone and not changed and not files(after, new),
                   "files/" + name, text + " is refused after files were "
                   "written: lost {} changed {} new {}".format(
                       gone, changed, new))
        before = after
    case.check(digest_of(req) == args, "arguments", name + ": a refused "
               "request changed its arguments")
    if req.order == "bad first":
        accept(case, name, req)


def files(after, new):
    return [p for p in new if after[p] != "dir"]


def digest_of(req):
    from vlib import digest
    return {k: digest(v) for k, v in req.base.items()}


def brief(change):
    out = []
    for key, val in change.items():
        text = "array {}".format(val.shape) if isinstance(
            val, np.ndarray) else repr(val)
        out.append("{}={}".format(key, text[:60]))
    return ", ".join(out)


def accept(case, name, req):
    for label, change in req.good:
        case.ctx.evaluations += 1
        try:
            call(req, change)
        except Exception as err:
            case.fail("refused/" + name + "/" + label,
                      "{}: the valid request ({} {}) is refused: {!r}".format(
                          name, label, brief(change), err)[:600])
        else:
            case.count("answered")


def register(ctx):
    num = len(TABLE)
    ctx.family("refuse", 6 * num, 120 * num, refuse)
    ctx.expect_tags("refuse", 3 * num)
