"""One realistic call of every public array function of algotom.

A recipe draws its input from the case and returns a Call.  The checks run
these calls under monitors: buffer digests, write protection, repetition,
fresh processes, other worker counts and other memory layouts.
"""
import os

import h5py
import numpy as np
import scipy.ndimage as ndi

import algotom.io.converter as conv_io
import algotom.io.loadersaver as losa
import algotom.post.postprocessing as post
import algotom.prep.calculation as calc
import algotom.prep.conversion as conv
import algotom.prep.correction as corr_
import algotom.prep.filtering as filt
import algotom.prep.phase as ps
import algotom.prep.removal as rem
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.calibration as calib
import algotom.util.correlation as cl
import algotom.util.simulation as sim
import algotom.util.utility as util
from vlib import noise, smooth

MODULES = [losa, conv_io, calc, conv, corr_, filt, rem, ps, rec, vr, post,
           util, cl, calib, sim]
RECIPES = {}


class Call:
    """func(*args, **kwargs); `vary` lists settings that must not matter."""

    def __init__(self, func, *args, **kwargs):
        self.func, self.args, self.kwargs = func, list(args), kwargs
        self.vary = {}
        self.numba = False      # compiled per dtype and layout
        self.loose = False      # not comparable when the layout changes
        self.read = None        # turns the returned value into data
        self.tol = 1e-6
        self.where = None

    def set(self, **kw):
        for key, val in kw.items():
            setattr(self, key, val)
        return self

    def run(self, **change):
        kwargs = dict(self.kwargs)
        kwargs.update(change)
        out = self.func(*self.args, **kwargs)
        return self.read(out) if self.read else out


def recipe(*names):
    def add(func):
        for name in names:
            RECIPES[name] = (func, name)
        return func
    return add


def make(case, name):
    func, key = RECIPES[name]
    return func(case, key.split(".", 1)[1])


# ------------------------------------------------------------ input data

def sino(c, lo=24, hi=48, width=None, height=None, dtype=None):
    height = height or c.integer(lo, hi)
    width = width or c.integer(lo, hi)
    mat = smooth(c.rng, (height, width), 3.0, 0.3, 1.5)
    mat = mat + noise(c.rng, mat.shape, 0, 0.02)
    kind = c.choice(["plain", "stripe", "dead", "bright"])
    if kind != "plain" and width > 12:
        col = c.integer(5, width - 6)
        wid = c.integer(1, 2)
        if kind == "stripe":
            mat[:, col:col + wid] *= 1.3
        elif kind == "dead":
            mat[:, col:col + wid] = 0.02
        else:
            mat[height // 3:, col:col + wid] += 2.0
    return cast(c, mat, dtype)


def cast(c, mat, dtype=None):
    dtype = dtype or c.choice([np.float32, np.float64, np.uint16], "dtype")
    mat = np.asarray(mat)
    if np.dtype(dtype).kind == "u":
        top = np.iinfo(dtype).max
        return np.clip(np.rint(mat * top / 4.0), 1, top).astype(dtype)
    return mat.astype(dtype)


def floats(c):
    return c.choice([np.float32, np.float64], "dtype")


def shape_(c, lo=12, hi=40):
    return c.integer(lo, hi), c.integer(lo, hi)


def texture(c, shape, sigma=1.3):
    mat = ndi.gaussian_filter(c.rng.standard_normal(shape), sigma,
                              mode="wrap")
    return 10 + 3 * (mat - mat.mean()) / mat.std()


def volume(c, dtype=None, lo=6, hi=14):
    shape = [c.integer(lo, hi) for _ in range(3)]
    return cast(c, noise(c.rng, shape, 0.2, 1.5), dtype)


def tifs(folder):
    names = sorted(os.listdir(folder))
    return [np.asarray(losa.load_image(os.path.join(folder, n)))
            for n in names]


def fresh_name(c, stem):
    c.fresh = getattr(c, "fresh", 0) + 1
    return os.path.join(c.dir, "{}_{}".format(stem, c.fresh))


def given(c, folder):
    """Folder for the input files."""
    c.given = getattr(c, "given", 0) + 1
    path = os.path.join(c.dir, "input", "{}_{}".format(folder, c.given))
    os.makedirs(path, exist_ok=True)
    return path


# ------------------------------------------------------------ prep.removal

@recipe("removal.sorting")
def _(c, _n):
    kw = {}
    if c.choice([0, 1]):
        kw["options"] = {"method": "gaussian_filter", "para1": (1, 5)}
    return Call(rem.remove_stripe_based_sorting, sino(c),
                size=c.choice([5, 9]), dim=c.choice([1, 2]), **kw)


@recipe("removal.filtering")
def _(c, _n):
    kw = {}
    if c.choice([0, 1]):
        kw["options"] = {"method": "gaussian_filter", "para1": (1, 5)}
    return Call(rem.remove_stripe_based_filtering, sino(c), sigma=3,
                size=c.choice([5, 9]), dim=c.choice([1, 2]),
                sort=c.choice([True, False]), **kw)


@recipe("removal.fitting")
def _(c, _n):
    return Call(rem.remove_stripe_based_fitting, sino(c),
                order=c.choice([1, 2]), sigma=c.choice([5, 10]),
                sort=c.choice([True, False]), num_chunk=c.choice([1, 2]))


@recipe("removal.large")
def _(c, _n):
    return Call(rem.remove_large_stripe, sino(c), snr=3.0, size=11,
                drop_ratio=0.1, norm=c.choice([True, False]))


@recipe("removal.dead")
def _(c, _n):
    return Call(rem.remove_dead_stripe, sino(c), snr=3.0, size=11,
                residual=c.choice([True, False]), smooth_strength=5)


@recipe("removal.all")
def _(c, _n):
    return Call(rem.remove_all_stripe, sino(c), snr=3.0, la_size=11,
                sm_size=5, dim=c.choice([1, 2]))


@recipe("removal.filtering_sorting")
def _(c, _n):
    return Call(rem.remove_stripe_based_2d_filtering_sorting, sino(c),
                sigma=3, size=5, dim=c.choice([1, 2]))


@recipe("removal.normalization")
def _(c, _n):
    return Call(rem.remove_stripe_based_normalization, sino(c), sigma=5,
                num_chunk=c.choice([1, 3]), sort=c.choice([True, False]))


@recipe("removal.regularization")
def _(c, _n):
    return Call(rem.remove_stripe_based_regularization, sino(c),
                alpha=0.001, num_chunk=c.choice([1, 2]),
                apply_log=c.choice([True, False]),
                sort=c.choice([True, False]))


@recipe("removal.fft")
def _(c, _n):
    return Call(rem.remove_stripe_based_fft, sino(c), u=5, n=4, v=1,
                sort=c.choice([True, False]))


@recipe("removal.wavelet")
def _(c, _n):
    return Call(rem.remove_stripe_based_wavelet_fft, sino(c, 36, 48),
                level=c.choice([2, 3]), size=1, wavelet_name="db5",
                window_name=c.choice(["gaussian", "butter"]),
                sort=c.choice([True, False]))


@recipe("removal.interpolation")
def _(c, _n):
    return Call(rem.remove_stripe_based_interpolation, sino(c), snr=3.0,
                size=11, norm=c.choice([True, False]), kind="linear")


@recipe("removal.zinger")
def _(c, _n):
    mat = sino(c)
    for _ in range(4):
        mat[c.integer(0, len(mat) - 1), c.integer(0, mat.shape[1] - 1)] = \
            60000 if mat.dtype.kind == "u" else 9.0
    return Call(rem.remove_zinger, mat,
                6000 if mat.dtype.kind == "u" else 0.4,
                size=c.choice([2, 3]), check_size=c.choice([True, False]))


@recipe("removal.select_zinger")
def _(c, _n):
    mask = (c.rng.random(shape_(c)) < 0.08).astype(
        c.choice([np.float32, np.float64, np.int64]))
    return Call(rem.select_zinger, mask, c.choice([2, 4]))


@recipe("removal.check_zinger_size")
def _(c, _n):
    mask = (c.rng.random((c.integer(2, 5), c.integer(2, 5))) < 0.2).astype(
        np.float32)
    return Call(rem.check_zinger_size, mask, c.choice([2, 4]))


@recipe("removal.generate_blob_mask")
def _(c, _n):
    mat = 1.0 + noise(c.rng, shape_(c, 30, 48), 0, 0.05, dtype=floats(c))
    mat[8:13, 9:13] *= 0.5
    return Call(rem.generate_blob_mask, mat, 9, 3.0)


@recipe("removal.remove_blob")
def _(c, _n):
    mat = sino(c)
    mask = np.zeros(mat.shape, np.float32)
    r, k = c.integer(0, len(mat) - 3), c.integer(4, mat.shape[1] - 8)
    mask[r:r + 3, k:k + c.integer(1, 3)] = 1
    return Call(rem.remove_blob, mat, mask)


@recipe("removal.remove_blob_1d")
def _(c, _n):
    mat = sino(c)
    mask = np.zeros(mat.shape[1], np.float32)
    k = c.integer(4, mat.shape[1] - 8)
    mask[k:k + c.integer(1, 3)] = 1
    return Call(rem.remove_blob_1d, mat[len(mat) // 2], mask)


# --------------------------------------------------------- prep.correction

@recipe("correction.flat_field")
def _(c, _n):
    proj = volume(c) if c.choice([0, 1]) else sino(c)
    shape = proj.shape[-2:]
    flat = cast(c, noise(c.rng, shape, 1.5, 1.9), proj.dtype)
    dark = cast(c, noise(c.rng, shape, 0.0, 0.1), proj.dtype)
    flat[0, 0] = dark[0, 0]
    kw = {}
    if proj.ndim == 2 and c.choice([0, 1]):
        kw = {"option1": {"method": "remove_zinger", "para1": 0.3,
                          "para2": 1},
              "option2": {"method": "remove_stripe_based_sorting",
                          "para1": 5}}
    use = c.choice([True, False])
    if not use:
        flat[1, 1] = 0
    return Call(corr_.flat_field_correction, proj, flat,
                dark if use else c.choice([dark, None]),
                ratio=c.choice([1.0, 0.9]), use_dark=use, **kw)


LIST_FACT = [1.0, 1e-4, 2e-7]


@recipe("correction.unwarp_projection")
def _(c, _n):
    mat = sino(c)
    return Call(corr_.unwarp_projection, mat, mat.shape[1] / 2.2,
                mat.shape[0] / 1.9, list(LIST_FACT))


@recipe("correction.unwarp_sinogram", "correction.unwarp_sinogram_chunk",
        "correction.generate_tilted_sinogram",
        "correction.generate_tilted_sinogram_chunk")
def _(c, name):
    func = getattr(corr_, name)
    data = cast(c, noise(c.rng, (c.integer(4, 8), 40, 44), 0.2, 1.5))
    idx = c.integer(12, 22)
    place = [idx, idx + 4] if name.endswith("chunk") else [idx]
    if "unwarp" in name:
        place += [21.0, 19.0, list(LIST_FACT)]
    else:
        place += [c.choice([-3.0, 5.0])]
    kw = {}
    if c.choice([0, 1]):
        kw["option"] = c.choice([[0, 4, 1], (1, 4, 2)])
    return Call(func, data, *place, **kw)


@recipe("correction.generate_tilted_profile_line",
        "correction.generate_tilted_profile_chunk")
def _(c, name):
    func = getattr(corr_, name)
    mat = sino(c, 40, 50)
    idx = c.integer(15, 20)
    place = [idx, idx + 4] if name.endswith("chunk") else [idx]
    return Call(func, mat, *place, c.choice([-3.0, 5.0]))


@recipe("correction.mtf")
def _(c, _n):
    mat = sino(c)
    pad = c.choice([0, 5])
    win = noise(c.rng, np.asarray(mat.shape) + 2 * pad, 0.5, 1.0)
    return Call(corr_.mtf_deconvolution, mat, win, pad)


@recipe("correction.hardening")
def _(c, _n):
    return Call(corr_.beam_hardening_correction,
                noise(c.rng, shape_(c), 0.1, 1, dtype=floats(c)),
                c.choice([1.5, 0.4]), c.choice([2.0, 3.0]),
                opt=c.choice([True, False]))


@recipe("correction.non_linear")
def _(c, _n):
    return Call(corr_.non_linear_function, sino(c, dtype=floats(c)), 1.3,
                2.0, opt=c.choice([True, False]))


@recipe("correction.upsample")
def _(c, _n):
    return Call(corr_.upsample_sinogram, sino(c, dtype=floats(c)),
                c.choice([2, 4]), center=14.0,
                sino_type=c.choice(["180", "360"]), iteration=2, pad=10)


# ---------------------------------------------------------- prep.filtering

@recipe("filtering.fresnel")
def _(c, _n):
    mat = sino(c)
    win = noise(c.rng, mat.shape, 1, 2) if c.choice([0, 1]) else None
    return Call(filt.fresnel_filter, mat, 20.0, dim=c.choice([1, 2]),
                window=win, pad=c.choice([0, 7]),
                apply_log=c.choice([True, False]))


@recipe("filtering.make_fresnel_window")
def _(c, _n):
    return Call(filt.make_fresnel_window, *shape_(c), c.choice([5.0, 50.0]),
                c.choice([1, 2]))


@recipe("filtering.double_wedge")
def _(c, _n):
    mat = sino(c, 30, 48)
    typ = c.choice(["180", "360"])
    mid = mat.shape[1] / 2.1
    return Call(filt.double_wedge_filter, mat,
                center=c.choice([0, mid]) if typ == "360" else mid,
                sino_type=typ,
                iteration=2, ratio=c.choice([1.0, 0.9]), pad=c.choice([5, 0]))


@recipe("filtering.double_wedge_mask")
def _(c, _n):
    return Call(filt.make_double_wedge_mask, *shape_(c),
                c.choice([4.0, 9.0]))


# ---------------------------------------------------------- prep.conversion

@recipe("conversion.stitch", "conversion.join")
def _(c, name):
    height = c.integer(10, 20)
    one = sino(c, 24, 40, height=height)
    two = sino(c, 24, 40, height=height, dtype=one.dtype)
    over = c.choice([7, 7.4, 10.0])
    kw = dict(norm=c.choice([True, False]),
              total_width=c.choice([None, None, 30]))
    if name == "join":
        return Call(conv.join_image, one, two, over, c.choice([0, 1]), **kw)
    if c.choice([0, 1]):
        side = 1
        w1, w2 = conv.make_weight_matrix(one, two, int(over), side)
        if isinstance(over, float):
            w1, w2 = None, None
        kw.update(wei_mat1=w1, wei_mat2=w2)
    else:
        side = c.choice([0, 1])
    return Call(conv.stitch_image, one, two, over, side, **kw)


@recipe("conversion.stitch_multiple", "conversion.join_multiple")
def _(c, name):
    height, num = c.integer(10, 16), c.integer(2, 4)
    mats = [sino(c, 24, 40, height=height, dtype=np.float32)
            for _ in range(num)]
    over = [[c.choice([6, 8.5]), c.choice([1, 1, 0])]
            for _ in range(num - 1)]
    if c.choice([0, 1]):
        over = np.asarray(over)
    func = conv.stitch_image_multiple if name == "stitch_multiple" else \
        conv.join_image_multiple
    return Call(func, mats, over, norm=c.choice([True, False]))


@recipe("conversion.make_weight_matrix")
def _(c, _n):
    height = c.integer(10, 20)
    return Call(conv.make_weight_matrix, sino(c, height=height),
                sino(c, height=height), 9, c.choice([0, 1]))


@recipe("conversion.360_to_180")
def _(c, _n):
    mat = sino(c, 30, 40, height=2 * c.integer(8, 15) + 1)
    return Call(conv.convert_sinogram_360_to_180, mat,
                c.choice([8.5, mat.shape[1] - 9.0, 11]),
                norm=c.choice([True, False]))


@recipe("conversion.180_to_360")
def _(c, _n):
    mat = sino(c, 30, 40)
    return Call(conv.convert_sinogram_180_to_360, mat,
                mat.shape[1] / 2.0 + c.choice([0, 1.3]))


@recipe("conversion.extend")
def _(c, _n):
    mat = sino(c, 30, 40, dtype=floats(c))
    return Call(conv.extend_sinogram, mat,
                c.choice([9.0, mat.shape[1] - 10.0]),
                apply_log=c.choice([True, False]))


@recipe("conversion.helical", "conversion.helical_full")
def _(c, name):
    num, height, width = 7, 22, 12
    px, pitch = 1.0, 10.0
    data = cast(c, noise(c.rng, (90, height + 2, width), 0.2, 1.4))
    flat = cast(c, noise(c.rng, data.shape[1:], 1.5, 1.9), data.dtype)
    dark = cast(c, noise(c.rng, data.shape[1:], 0.0, 0.1), data.dtype)
    mask = np.zeros(data.shape[1:], np.float32)
    mask[8:11, 5:7] = 1.0
    typ = c.choice(["180", "360"])
    func = conv.generate_sinogram_helical_scan if name == "helical" else \
        conv.generate_full_sinogram_helical_scan
    kw = {}
    if c.choice([0, 1]):
        kw.update(flat=flat, dark=dark, mask=mask)
    if c.choice([0, 1]):
        kw["angles"] = np.arange(90) * 180.0 / (num - 1)
    return Call(func, c.integer(4, 8), data, num, px, 0.0, 58.0, pitch,
                scan_type=typ, crop=(1, 1, 0, 0), **kw)


# --------------------------------------------------------- prep.calculation

def half_turn(c, width=41, nrow=37, center=None):
    center = center if center is not None else width / 2.0 + c.uniform(-3, 3)
    ang = np.linspace(0, np.pi, nrow)
    u = np.arange(width)
    mat = np.zeros((nrow, width))
    for _ in range(4):
        r, p = c.uniform(0, width * 0.3), c.uniform(0, 6.28)
        mat += np.exp(-(u[None] - center - r * np.cos(ang - p)[:, None]) ** 2
                      / 8.0)
    return mat, center


@recipe("calculation.find_center_vo", "calculation.coarse_search_cor",
        "calculation.fine_search_cor")
def _(c, name):
    mat, center = half_turn(c)
    mat = cast(c, mat)
    kw = dict(ratio=0.5, ncore=1)
    if c.choice([0, 1]):
        kw.update(hor_drop=2, ver_drop=2)
    mid = int(center)
    if name == "find_center_vo":
        call = Call(calc.find_center_vo, mat, mid - 5, mid + 5, step=0.5,
                    radius=3, dsp=c.choice([True, False]), **kw)
    elif name == "coarse_search_cor":
        call = Call(calc.coarse_search_cor, mat, mid - 6, mid + 6,
                    denoise=c.choice([True, False]), **kw)
    else:
        call = Call(calc.fine_search_cor, mat, mid, 2, 0.25,
                    denoise=c.choice([True, False]), **kw)
    return call.set(vary={"ncore": [2, 3, 8, None]})


@recipe("calculation.center_metric")
def _(c, _n):
    mat, center = half_turn(c)
    mat = cast(c, mat, floats(c))
    flip = np.fliplr(mat)
    comp = np.flipud(mat)
    mask = calc.make_inverse_double_wedge_mask(2 * len(mat), mat.shape[1],
                                               10.0)
    return Call(calc.calculate_center_metric, center, mat, flip, comp, mask)


@recipe("calculation.wedge_mask")
def _(c, _n):
    return Call(calc.make_inverse_double_wedge_mask, *shape_(c, 20, 50), 6.0,
                hor_drop=c.choice([None, 2]), ver_drop=c.choice([None, 3]))


@recipe("calculation.downsample_cor")
def _(c, _n):
    return Call(calc.downsample_cor, sino(c), c.integer(1, 4),
                c.integer(1, 4))


@recipe("calculation.curvature")
def _(c, _n):
    x = np.arange(c.integer(5, 12))
    lst = (x - c.uniform(2, 3)) ** 2 * c.choice([1.0, -1.0]) + 3.0
    lst = c.choice([lst, list(lst), lst.astype(np.float32)])
    return Call(calc.calculate_curvature, lst)


@recipe("calculation.correlation_metric")
def _(c, _n):
    one = sino(c)
    return Call(calc.correlation_metric, one, cast(
        c, one.astype(float) + noise(c.rng, one.shape, 0, 1), one.dtype))


def overlap_pair(c, num=2):
    over = [c.integer(14, 18) for _ in range(num - 1)]
    width = 44
    total = num * width - sum(over)
    scene = np.asarray(smooth(c.rng, (24, total), 2.0, 0.4, 1.6))
    mats, pos = [], 0
    dtype = c.choice([np.float32, np.float64, np.uint16], "dtype")
    for i in range(num):
        mats.append(cast(c, scene[:, pos:pos + width], dtype))
        if i < num - 1:
            pos += width - over[i]
    return mats, over


OVER = ["search_overlap", "find_overlap", "find_overlap_multiple"]


@recipe(*["calculation." + n for n in OVER])
def _(c, name):
    multi = name.endswith("multiple")
    mats, _ = overlap_pair(c, c.integer(2, 3) if multi else 2)
    kw = dict(denoise=c.choice([True, False]), norm=c.choice([True, False]),
              use_overlap=c.choice([True, False]), ncore=1)
    win, side = c.choice([8, 10]), c.choice([0, 1])
    if multi:
        call = Call(calc.find_overlap_multiple, mats, win, side=1, **kw)
    elif name == "find_overlap":
        call = Call(calc.find_overlap, *mats, win,
                    side=c.choice([None, 0, 1]), **kw)
    else:
        call = Call(calc.search_overlap, *mats, win, side, **kw)
    return call.set(vary={"ncore": [2, 3, 8, None]})


@recipe("calculation.find_center_360")
def _(c, _n):
    one, center = half_turn(c, 49, 22, 10.0)
    two = half_turn(c, 49, 22, 10.0)[0]
    mat = cast(c, np.vstack((one, two)))
    return Call(calc.find_center_360, mat, 12, side=c.choice([None, 0]),
                denoise=c.choice([True, False]),
                norm=c.choice([True, False]), ncore=1).set(
                    vary={"ncore": [2, 3, 8, None]})


@recipe("calculation.phase_shift", "calculation.phase_center",
        "calculation.complex_gradient")
def _(c, name):
    mat = cast(c, smooth(c.rng, (32, 36), 2.0, 0.2, 1.5))
    two = np.roll(mat, (2, 3), axis=(0, 1))
    if name == "phase_shift":
        return Call(calc.find_shift_based_phase_correlation, mat, two,
                    gradient=c.choice([True, False]))
    if name == "phase_center":
        return Call(calc.find_center_based_phase_correlation, mat, two,
                    flip=c.choice([True, False]),
                    gradient=c.choice([True, False]))
    return Call(calc.complex_gradient, mat)


@recipe("calculation.find_center_projection")
def _(c, _n):
    mat = cast(c, smooth(c.rng, (40, 50), 2.0, 0.2, 1.5))
    two = np.fliplr(np.roll(mat, 3, axis=1)).copy()
    flip = c.choice([True, False])
    if not flip:
        two = np.fliplr(two).copy()
    return Call(calc.find_center_projection, mat, two, flip=flip,
                win_width=c.choice([None, 20]),
                chunk_height=c.choice([None, 0.4, 14]),
                start_row=c.choice([None, 8]), ncore=1,
                norm=c.choice([True, False])).set(
                    vary={"ncore": [2, 3, None]})


# ---------------------------------------------------------------- prep.phase

@recipe("phase.unwrap_phase_based_cosine_transform",
        "phase.unwrap_phase_based_fft", "phase.unwrap_phase_iterative_fft")
def _(c, name):
    mat = smooth(c.rng, shape_(c, 20, 40), 4, -8, 8).astype(floats(c))
    mat = (mat + np.pi) % (2 * np.pi) - np.pi
    kw = {}
    if name.endswith("iterative_fft"):
        kw = dict(iteration=3)
        if c.choice([0, 1]):
            kw["weight_map"] = ps.get_weight_mask(mat)
    return Call(getattr(ps, name), mat.astype(floats(c)), **kw)


@recipe("phase.get_quality_map", "phase.get_weight_mask")
def _(c, name):
    mat = sino(c, dtype=floats(c))
    if name == "get_weight_mask":
        return Call(ps.get_weight_mask, mat, snr=c.choice([1.5, 3.0]))
    return Call(ps.get_quality_map, mat, c.choice([3, 5]))


@recipe("phase.surface_fc", "phase.surface_scs")
def _(c, name):
    shape = shape_(c)
    gx = smooth(c.rng, shape, 3, -1, 1).astype(floats(c))
    gy = smooth(c.rng, shape, 3, -1, 1).astype(gx.dtype)
    neg = c.choice([True, False])
    if name == "surface_fc":
        return Call(ps.reconstruct_surface_from_gradient_FC_method, gx, gy,
                    correct_negative=neg)
    return Call(ps.reconstruct_surface_from_gradient_SCS_method, gx, gy,
                correct_negative=neg, pad=c.choice([0, 5]),
                pad_mode=c.choice(["linear_ramp", "edge"]))


def stacks(c, depth=3, height=44, width=48, dtype=None):
    ref = np.asarray([texture(c, (height, width)) for _ in range(depth)])
    sam = np.asarray([ndi.shift(r, (0.6, -1.3), order=1, mode="reflect")
                      for r in ref])
    dtype = dtype or floats(c)
    return ref.astype(dtype), sam.astype(dtype)


@recipe("phase.transmission")
def _(c, _n):
    ref, sam = stacks(c, 4, 24, 26)
    xs = smooth(c.rng, ref.shape[1:], 2, -1.5, 1.5)
    ys = smooth(c.rng, ref.shape[1:], 2, -1.5, 1.5)
    return Call(ps.get_transmission_dark_field_signal, ref, sam, xs, ys, 5,
                margin=c.choice([None, 3]), ncore=1).set(numba=True)


@recipe("phase.align")
def _(c, _n):
    ref, sam = stacks(c)
    sr = c.rng.uniform(-3, 3, (len(ref), 2))
    sm = c.rng.uniform(-3, 3, (len(ref), 2)) if c.choice([0, 1]) else None
    if c.choice([0, 1]):
        sr = sr.tolist()
    return Call(ps.align_image_stacks, ref, sam, sr, sam_shifts=sm)


@recipe("phase.stack_shifts", "phase.sample_shifts")
def _(c, name):
    ref, sam = stacks(c, 2, 60, 62)
    pts = [[25, 28, 33], [25, 31, 28]]
    kw = dict(global_value=c.choice(["median", "mixed", "mean"]), ncore=1,
              norm=c.choice([True, False]))
    if name == "stack_shifts":
        call = Call(ps.find_shift_between_image_stacks, ref, sam, 15, 6, pts,
                    **kw)
    else:
        call = Call(ps.find_shift_between_sample_images, ref, sam,
                    c.rng.uniform(-2, 2, (2, 2)), 15, 6, pts, **kw)
    return call.set(numba=True, vary={"ncore": [2, 3, None]})


@recipe("phase.speckle")
def _(c, _n):
    ref, sam = stacks(c, 4, 40, 42)
    return Call(ps.retrieve_phase_based_speckle_tracking, ref, sam,
                find_shift=c.choice(["correl", "umpa"]),
                dim=c.choice([1, 2]), win_size=5, margin=3, ncore=1,
                dark_signal=c.choice([True, False]), pad=5, norm=False,
                surf_method=c.choice(["SCS", "FC"]), chunk_size=100,
                return_shift=True).set(
                    numba=True, vary={"ncore": [3, None],
                                      "chunk_size": [7, 1000]})


# --------------------------------------------------------- rec.reconstruction

def angles_of(c, num):
    kind = c.choice(["none", "given", "list"])
    if kind == "none":
        return None
    ang = np.linspace(0, np.pi, num) + 0.1
    return ang if kind == "given" else ang.astype(np.float32)


def rec_input(c):
    many = c.choice([False, False, True])
    if many:
        return cast(c, noise(c.rng, (c.integer(12, 20), c.integer(1, 4),
                                     c.integer(20, 33)), 0.3, 1.5),
                    np.float32)
    return sino(c, 18, 33, dtype=np.float32)


@recipe("reconstruction.fbp_reconstruction",
        "reconstruction.bpf_reconstruction",
        "reconstruction.dfi_reconstruction")
def _(c, name):
    mat = rec_input(c)
    kw = dict(angles=angles_of(c, len(mat)), ratio=c.choice([1.0, 0.8, None]),
              filter_name=c.choice(["hann", None, "parzen"]),
              apply_log=c.choice([True, False]), ncore=1)
    if not name.startswith("dfi"):
        kw.update(gpu=False, pad=c.choice([None, 0, 10]))
        if c.choice([0, 0, 1]) and kw["pad"] is not None:
            wid = mat.shape[-1] + 2 * kw["pad"]
            if name.startswith("fbp"):
                kw["ramp_win"] = rec.make_2d_ramp_window(len(mat), wid,
                                                         "hann")
            else:
                kw["ramp_win"] = rec.make_circular_ramp_window(wid, "hann")
    return Call(getattr(rec, name), mat, mat.shape[-1] / 2.0 - 1.3,
                **kw).set(numba=True, vary={"ncore": [2, 3, 8, None]})


@recipe("reconstruction.back_projection_cpu")
def _(c, _n):
    mat = sino(c, 18, 33, dtype=np.float32)
    ang = np.linspace(0, np.pi, len(mat)).astype(np.float32)
    return Call(rec.back_projection_cpu, mat, ang,
                np.float32(mat.shape[1] / 2.0 - 1.3),
                c.choice([True, False])).set(numba=True)


@recipe("reconstruction.apply_ramp_filter",
        "reconstruction.apply_circular_ramp_filter")
def _(c, name):
    if name == "apply_ramp_filter":
        mat = sino(c)
    else:
        size = c.integer(20, 33)
        mat = sino(c, width=size, height=size)
    return Call(getattr(rec, name), mat,
                filter_name=c.choice([None, "hann"]), pad=c.choice([None, 6]),
                pad_mode=c.choice(["edge", "reflect"]))


@recipe("reconstruction.windows")
def _(c, _n):
    name = c.choice([None, "hann", "parzen", "triang"])
    num = c.integer(8, 40)
    kind = c.choice([0, 1, 2])
    if kind == 0:
        return Call(rec.make_smoothing_window, name, num)
    if kind == 1:
        return Call(rec.make_2d_ramp_window, c.integer(5, 9), num, name)
    return Call(rec.make_circular_ramp_window, num, name)


@recipe("reconstruction.mapping_coordinate")
def _(c, _n):
    return Call(rec.generate_mapping_coordinate, *shape_(c), *shape_(c))


@recipe("reconstruction.metric_center")
def _(c, _n):
    mat, center = half_turn(c, 33, 25)
    mat = np.float32(mat)
    kw = {}
    metric = c.choice(["entropy", "sharpness", "autocorrelation"])
    return Call(rec.find_center_based_slice_metric, mat, int(center) - 3,
                int(center) + 3, step=1.0, radius=1, zoom=1.0, metric=metric,
                method=c.choice(["fbp", "dfi"]), gpu=False, apply_log=False,
                ncore=1, angles=angles_of(c, len(mat)), **kw).set(
                    numba=True, vary={"ncore": [2, 3, None]})


@recipe("reconstruction.visual")
def _(c, _n):
    mat, center = half_turn(c, 33, 25)
    mat = np.float32(mat)
    out = fresh_name(c, "visual")
    return Call(rec.find_center_visual_slices, mat, out, int(center) - 2,
                int(center) + 2, step=1, zoom=c.choice([1.0, 0.6]),
                method=c.choice(["fbp", "dfi"]), gpu=False, apply_log=False,
                ncore=1, angles=angles_of(c, len(mat))).set(
                    numba=True, read=tifs, vary={"ncore": [2, 3, None]})


# ------------------------------------------------------------------ vertrec

def proj_data(c, num=None):
    shape = (num or c.integer(9, 16), c.integer(3, 6), c.integer(18, 26))
    data = noise(c.rng, shape, 0.3, 1.2)
    kind = c.choice([np.float32, np.uint16], "dtype")
    data = cast(c, data, kind)
    kw = {}
    if c.choice([0, 1]):
        kw = dict(flat_field=cast(c, noise(c.rng, shape[1:], 1.3, 1.6), kind),
                  dark_field=cast(c, noise(c.rng, shape[1:], 0, .1), kind))
    kw["angles"] = c.choice([None, np.linspace(0, np.pi, shape[0])])
    kw.update(crop=c.choice([(0, 0, 0, 0), (1, 0, 1, 2)]), gpu=False,
              show_progress=False, ncore=1, chunk_size=30,
              ramp_filter=c.choice(["after", "before"]),
              apply_log=c.choice([True, False]),
              masking=c.choice([True, False]), pad=c.choice([None, 0, 9]))
    return data, kw


@recipe("vertrec.one", "vertrec.multiple", "vertrec.angles")
def _(c, name):
    data, kw = proj_data(c)
    width = data.shape[2] - kw["crop"][2] - kw["crop"][3]
    center = width / 2.0 - 0.7
    mid = width // 2
    if name == "one":
        call = Call(vr.vertical_reconstruction, data, mid, center,
                    alpha=c.choice([0.0, 30.0]), **kw)
    elif name == "multiple":
        call = Call(vr.vertical_reconstruction_multiple, data, mid - 2,
                    mid + 2, center, alpha=c.choice([0.0, 30.0]), **kw)
    else:
        call = Call(vr.vertical_reconstruction_different_angles, data,
                    [mid, mid + 2],
                    c.choice([[0.0, 45.0], [10.0, 80.0]]),
                    center, **kw)
    return call.set(numba=True, tol=2e-5, vary={
        "ncore": [2, 3, None], "chunk_size": [1, 4, 1000],
        "prefer": ["processes"]})


@recipe("vertrec.metric")
def _(c, _n):
    data, kw = proj_data(c)
    for key in ("flat_field", "dark_field", "crop", "pad", "masking"):
        kw.pop(key, None)
    center = data.shape[2] / 2.0 - 0.7
    return Call(vr.find_center_vertical_slice, data, data.shape[2] // 2,
                center - 2, center + 2, step=1.0,
                metric=c.choice(["entropy", "sharpness"]),
                return_metric=True, **kw).set(
                    numba=True, tol=1e-4,
                    vary={"ncore": [2, None], "chunk_size": [3]})


@recipe("vertrec.visual")
def _(c, _n):
    data, kw = proj_data(c)
    for key in ("flat_field", "dark_field", "crop", "pad", "show_progress"):
        kw.pop(key, None)
    center = data.shape[2] / 2.0 - 0.7
    return Call(vr.find_center_visual_vertical_slices, data,
                fresh_name(c, "vertical"), data.shape[2] // 2, center - 1,
                center + 1, step=1.0, display=False, prefer="threads",
                **kw).set(numba=True, read=tifs, tol=2e-5,
                          vary={"ncore": [2, None], "chunk_size": [3]})


@recipe("vertrec.kernel", "vertrec.kernel_chunk")
def _(c, name):
    data = noise(c.rng, (c.integer(8, 14), c.integer(3, 6), 21), 0, 1)
    ang = np.linspace(0, np.pi, len(data)).astype(np.float32)
    line = (np.arange(21) - 10.0).astype(np.float32)
    off = np.full(21, 1.5, np.float32)
    if name == "kernel":
        return Call(vr.vertical_back_projection_cpu, data, ang, line, off,
                    np.float32(9.7), c.choice([True, False])).set(numba=True)
    return Call(vr.vertical_back_projection_cpu_chunk, data, ang,
                np.vstack([line, off, line * 0.7]),
                np.vstack([off, line, line * 0.7]), np.float32(9.7),
                c.choice([True, False])).set(numba=True)


# ------------------------------------------------------------ postprocessing

@recipe("post.statistics", "post.downsample", "post.rescale")
def _(c, name):
    mat = volume(c) if c.choice([0, 1]) and name != "downsample" else sino(c)
    if name == "statistics":
        return Call(post.get_statistical_information, mat,
                    percentile=c.choice([(0, 100), (5, 95)]),
                    denoise=c.choice([True, False]))
    if name == "downsample":
        cell = tuple(c.integer(1, 3) for _ in range(mat.ndim))
        return Call(post.downsample, mat, cell,
                    method=c.choice(["mean", "median", "max"]))
    return Call(post.rescale, mat, nbit=c.choice([8, 16]),
                minmax=c.choice([None, (0.1, 1.2)]))


def dataset(c, name):
    vol = volume(c)
    kind = c.choice(["array", "tif", "hdf"])
    if name == "reslice_dataset" and kind == "array":
        kind = "hdf"
    if kind == "array":
        return vol, {}
    base = given(c, name)
    if kind == "tif":
        for i, mat in enumerate(vol):
            losa.save_image(base + "/im_{:03d}.tif".format(i), mat)
        return base, {}
    path = os.path.join(base, "vol.hdf")
    with h5py.File(path, "w") as fout:
        fout["entry/data"] = vol
    return path, {"key_path": "entry/data"}


@recipe("post.statistics_dataset", "post.downsample_dataset",
        "post.rescale_dataset", "post.reslice_dataset")
def _(c, name):
    src, kw = dataset(c, name)
    kw["crop"] = c.choice([(0, 0, 0, 0, 0, 0), (1, 0, 0, 1, 1, 1)])
    if name == "statistics_dataset":
        return Call(post.get_statistical_information_dataset, src,
                    percentile=c.choice([(0, 100), (10, 80)]), skip=2, **kw)
    out = fresh_name(c, "out")
    if name == "downsample_dataset":
        if c.choice([0, 1]) and not isinstance(src, str):
            out = None
        return Call(post.downsample_dataset, src, out, (2, 1, 2),
                    rescaling=c.choice([True, False]), skip=1,
                    overwrite=True, **kw).set(
                        read=None if out is None else lambda _: tifs(out))
    if name == "rescale_dataset":
        if c.choice([0, 1]) and not isinstance(src, str):
            out = None
        return Call(post.rescale_dataset, src, out, nbit=c.choice([8, 16]),
                    skip=1, overwrite=True, **kw).set(
                        read=None if out is None else lambda _: tifs(out))
    return Call(post.reslice_dataset, src, out, axis=c.choice([1, 2]),
                rotate=c.choice([0.0, 13.0]), chunk=16, ncore=1,
                rescaling=c.choice([True, False]), skip=1,
                show_progress=False, overwrite=True, **kw).set(
                    read=lambda _: tifs(out),
                    vary={"ncore": [2, 3, None], "chunk": [1, 3]})


@recipe("post.ring_fft", "post.ring_wavelet")
def _(c, name):
    size = c.integer(32, 44)
    mat = sino(c, width=size, height=size, dtype=floats(c))
    sort = c.choice([True, False])
    if name == "ring_fft":
        return Call(post.remove_ring_based_fft, mat, u=8, n=4, v=1, sort=sort)
    return Call(post.remove_ring_based_wavelet_fft, mat, level=2, size=1,
                wavelet_name="db5", sort=sort)


# ------------------------------------------------------------------- utility

@recipe("utility.parallel")
def _(c, _n):
    vol = volume(c, lo=9, hi=14)
    axis = c.choice([0, 1, 2])
    pick = c.choice([0, 1, 2])
    if pick == 0:
        func, para, kw = rem.remove_stripe_based_sorting, [3, 1], {}
    elif pick == 1:
        func, para, kw = ndi.gaussian_filter, (1, 2), {"mode": "nearest"}
    else:
        func, para, kw = rem.remove_stripe_based_normalization, 2, {
            "num_chunk": 2}
    return Call(util.parallel_process_slices, vol, func, para, axis=axis,
                ncore=1, **kw).set(vary={"ncore": [2, 3, 8, None],
                                         "prefer": ["processes"]})


@recipe("utility.mapping")
def _(c, _n):
    mat = sino(c)
    y, x = np.mgrid[:20, :25] * 1.1
    return Call(util.mapping, mat, x, y, order=c.choice([0, 1, 3]),
                mode=c.choice(["reflect", "nearest"]))


@recipe("utility.circle_mask")
def _(c, _n):
    return Call(util.make_circle_mask, c.integer(5, 40), c.uniform(0.3, 1.1))


@recipe("utility.sort_forward", "utility.sort_backward")
def _(c, name):
    mat, axis = sino(c), c.choice([0, 1])
    if name == "sort_forward":
        return Call(util.sort_forward, mat, axis=axis)
    got, index = util.sort_forward(mat, axis=axis)
    return Call(util.sort_backward, got, index, axis=axis)


@recipe("utility.separate_frequency")
def _(c, _n):
    mat, axis = sino(c), c.choice([0, 1])
    win = None
    if c.choice([0, 1]):
        win = util.make_2d_gaussian_window(*mat.shape, 4, 4)
        win = np.hanning(mat.shape[axis])
    return Call(util.separate_frequency_component, mat, axis=axis,
                window=win)


@recipe("utility.fitted")
def _(c, _n):
    return Call(util.generate_fitted_image, sino(c), c.choice([1, 2]),
                axis=c.choice([0, 1]), num_chunk=c.choice([1, 3]))


@recipe("utility.detect_stripe")
def _(c, _n):
    lst = c.rng.normal(1, 0.01, c.integer(20, 60))
    lst[c.integer(3, 15)] += 1.0
    return Call(util.detect_stripe, lst.astype(floats(c)), 3.0)


@recipe("utility.coefficient")
def _(c, _n):
    return Call(util.calculate_regularization_coefficient, c.integer(5, 20),
                0.001)


@recipe("utility.window_2d")
def _(c, _n):
    kind = c.choice([0, 1, 2, 3])
    w, h = shape_(c)
    if kind == 0:
        return Call(util.make_2d_butterworth_window, w, h, 5, 1, 4)
    if kind == 1:
        return Call(util.make_2d_damping_window, w, h, 3,
                    window_name=c.choice(["gaussian", "butter"]))
    if kind == 2:
        return Call(util.make_2d_gaussian_window, h, w, 4, 6)
    return Call(util.transform_1d_window_to_2d,
                np.hanning(w).astype(floats(c)), order=c.choice([0, 1]))


@recipe("utility.decompose", "utility.compose", "utility.wavelet_filter")
def _(c, name):
    mat = sino(c, 66, 80)
    if name == "decompose":
        return Call(util.apply_wavelet_decomposition, mat, "db3",
                    level=c.choice([None, 2]))
    data = util.apply_wavelet_decomposition(mat, "db3", level=2)
    if name == "compose":
        return Call(util.apply_wavelet_reconstruction, data, "db3",
                    ignore_level=c.choice([None, 1, 2]))
    return Call(util.apply_filter_to_wavelet_component, data,
                level=c.choice([None, 1, [1, 2]]), order=c.choice([0, 1, 2]),
                method=c.choice([None, "gaussian_filter"]),
                para=c.choice([None, [(1, 5)]])
                if name else None)


@recipe("utility.check_level")
def _(c, _n):
    return Call(util.check_level, c.choice([None, 1, [1, 2]]), 3)


@recipe("utility.interpolate_stripe")
def _(c, _n):
    mat = sino(c)
    mask = np.zeros(mat.shape[1], c.choice([np.float32, np.float64]))
    k = c.integer(3, mat.shape[1] - 8)
    mask[k:k + c.integer(1, 4)] = 1
    return Call(util.interpolate_inside_stripe, mat, mask)


@recipe("utility.polar")
def _(c, _n):
    kind = c.choice([0, 1, 2, 3])
    if kind == 0:
        return Call(util.rectangular_from_polar, *shape_(c), *shape_(c))
    if kind == 1:
        return Call(util.polar_from_rectangular, *shape_(c), *shape_(c))
    size = c.integer(20, 36)
    mat = sino(c, width=size, height=size)
    func = util.transform_slice_forward if kind == 2 else \
        util.transform_slice_backward
    return Call(func, mat)


@recipe("utility.gaussian_filter", "utility.regularization_filter",
        "utility.regularizer_1d")
def _(c, name):
    mat = sino(c)
    if name == "gaussian_filter":
        return Call(util.apply_gaussian_filter, mat, 4, 6,
                    pad=c.choice([None, 5]))
    if name == "regularization_filter":
        return Call(util.apply_regularization_filter, mat, 0.001,
                    axis=c.choice([0, 1]), ncore=1).set(
                        vary={"ncore": [2, 3, 8, None]})
    line = mat[3].astype(floats(c))
    return Call(util.apply_1d_regularizer, line,
                util.calculate_regularization_coefficient(len(line), 0.01))


@recipe("utility.detect_sample")
def _(c, _n):
    return Call(util.detect_sample, sino(c, 40, 60),
                sino_type=c.choice(["180", "360"]))


def grid(c):
    rows = c.integer(3, 4)
    meta = np.zeros((rows - 1, 3, 2))
    meta[:, :, 0] = np.asarray([c.integer(3, 8)
                                for _ in range(rows - 1)])[:, None]
    meta[:, :, 1] = c.choice([0, 1])
    return meta


@recipe("utility.fix_non_sample", "utility.locate_slice",
        "utility.locate_slice_chunk")
def _(c, name):
    meta = grid(c)
    if name == "fix_non_sample":
        meta[0, 1] = 0
        meta[-1, 2] = 0
        return Call(util.fix_non_sample_areas, meta,
                    direction=c.choice(["horizontal", "vertical"]))
    if name == "locate_slice":
        return Call(util.locate_slice, c.integer(0, 40), 20, meta)
    return Call(util.locate_slice_chunk, 5, 40, 20, meta)


@recipe("utility.spiral")
def _(c, _n):
    return Call(util.generate_spiral_positions, 3.0, 12, 100, 120,
                spiral_shape=c.choice([1.0, 1.4]))


@recipe("utility.visual_sinograms")
def _(c, _n):
    mat, center = half_turn(c, 33, 25)
    return Call(util.find_center_visual_sinograms, np.float32(mat),
                fresh_name(c, "sino"), int(center) - 2, int(center) + 2,
                step=1, zoom=c.choice([1.0, 0.5])).set(read=tifs)


# --------------------------------------------------------------- correlation

@recipe("correlation.normalize")
def _(c, _n):
    mat = volume(c) if c.choice([0, 1]) else sino(c)
    return Call(cl.normalize_image, mat)


@recipe("correlation.map", "correlation.shift")
def _(c, name):
    if c.choice([0, 1]):
        ref, mat = texture(c, (24, 24)), texture(c, (14, 14))
    else:
        ref, mat = texture(c, (3, 24, 24)), texture(c, (3, 14, 14))
    dt = floats(c)
    ref, mat = ref.astype(dt), mat.astype(dt)
    if name == "map":
        return Call(cl.generate_correlation_map, ref, mat).set(numba=True)
    return Call(cl.find_shift_based_correlation_map, ref, mat, margin=4,
                axis=c.choice([None, 0, 1]) if ref.ndim == 2 else None,
                method=c.choice(["diff", "poly_fit"]),
                size=c.choice([3, 5])).set(numba=True)


@recipe("correlation.peak")
def _(c, _n):
    y, x = np.mgrid[:11, :11]
    mat = np.exp(-((y - 5.3) ** 2 + (x - 4.8) ** 2) / 8.0).astype(floats(c))
    big = c.choice([True, False])
    return Call(cl.locate_peak, mat if big else -mat, max_peak=big,
                dim=c.choice([1, 2]), method=c.choice(["diff", "poly_fit"]),
                size=c.choice([3, 5]))


@recipe("correlation.local", "correlation.umpa")
def _(c, name):
    dt = floats(c)
    ref, mat = stacks(c, 3, 26, 28, dt)
    kw = dict(win_size=5, margin=3, gpu=False, ncore=1, chunk_size=100,
              method=c.choice(["diff", "poly_fit"]), size=c.choice([3, 5]))
    if name == "umpa":
        call = Call(cl.find_local_shifts_umpa, ref, mat,
                    dark_signal=c.choice([True, False]), **kw)
    else:
        dim = c.choice([1, 2])
        norm = c.choice([True, False]) if dim == 2 else False
        call = Call(cl.find_local_shifts, ref, mat, dim=dim, norm=norm,
                    norm_global=False, **kw)
        if dim == 2 and c.choice([0, 1]):
            call.args = [ref[0].copy(), mat[0].copy()]
    # rounding of the chunk normalisation reaches ambiguous peaks
    return call.set(numba=True, tol=2e-3, vary={
        "ncore": [2, 3, None], "chunk_size": [1, 7, None]})


@recipe("correlation.global")
def _(c, _n):
    ref, mat = stacks(c, 2, 60, 62)
    ref, mat = ref[0].copy(), mat[0].copy()
    kw = c.choice([dict(list_ij=[[25, 28, 33], [25, 31, 28]]),
                   dict(num_point=5)])
    return Call(cl.find_global_shift_based_local_shifts, ref, mat, 15, 6,
                global_value=c.choice(["median", "mixed", "mean"]), ncore=1,
                norm=c.choice([True, False]),
                method=c.choice(["diff", "poly_fit"]), size=c.choice([3, 5]),
                return_list=c.choice([True, False]), **kw).set(
                    numba=True, vary={"ncore": [2, 3, None]})


# --------------------------------------------------------------- calibration

def dots_image(c):
    shape = c.integer(60, 80), c.integer(60, 80)
    y, x = np.mgrid[:shape[0], :shape[1]]
    mat = np.full(shape, 2.0)
    cy, cx = c.uniform(25, 35), c.uniform(25, 35)
    mat -= 1.2 / (1 + np.exp(2 * (np.hypot(y - cy, x - cx) - 8)))
    return mat + 0.01 * c.rng.standard_normal(shape)


@recipe("calibration.background", "calibration.background_fft",
        "calibration.threshold", "calibration.binarize",
        "calibration.distance")
def _(c, name):
    mat = dots_image(c).astype(floats(c))
    if name == "background":
        return Call(calib.normalize_background, mat, size=9)
    if name == "background_fft":
        return Call(calib.normalize_background_based_fft, mat, sigma=5,
                    pad=c.choice([None, 8]))
    if name == "threshold":
        return Call(calib.calculate_threshold, mat)
    if name == "binarize":
        norm = c.choice([True, False])
        return Call(calib.binarize_image, mat,
                    threshold=None if norm else c.choice([None, 1.4]),
                    norm=norm,
                    denoise=c.choice([True, False]))
    two = np.roll(mat, (2, -3), axis=(0, 1))
    return Call(calib.calculate_distance, mat, two, threshold=1.4)


@recipe("calibration.invert", "calibration.dot_size",
        "calibration.check_dot", "calibration.select_dot")
def _(c, name):
    mask = (dots_image(c) < 1.4)
    mask[2:5, 2:5] = True
    mask = mask.astype(c.choice([np.float32, np.float64, np.int16]))
    if name == "invert":
        return Call(calib.invert_dot_contrast, mask)
    if name == "dot_size":
        return Call(calib.get_dot_size, mask, size_opt=c.choice(["max",
                                                                 "min"]))
    if name == "check_dot":
        return Call(calib.check_dot_size, mask[2:5, 2:5], 5, 12)
    return Call(calib.select_dot_based_size, mask, 200, ratio=0.3)


@recipe("calibration.ellipse", "calibration.tilt_roll")
def _(c, name):
    t = np.linspace(0, 2 * np.pi, c.integer(20, 50), endpoint=False)
    x, y = 300 + 100 * np.cos(t) + 2 * np.sin(t), 50 + 12 * np.sin(t)
    if c.choice([0, 1]):
        x, y = list(x), list(y)
    if name == "ellipse":
        return Call(calib.fit_points_to_ellipse, np.asarray(x),
                    np.asarray(y))
    pick = c.choice([0, 1, 2])
    if pick == 0:
        return Call(calib.find_tilt_roll, np.asarray(x), np.asarray(y),
                    method=c.choice(["ellipse", "linear"]))
    func = [None, calib.find_tilt_roll_based_linear_fit,
            calib.find_tilt_roll_based_ellipse_fit][pick]
    return Call(func, np.asarray(x), np.asarray(y))


# ---------------------------------------------------------------- simulation

@recipe("simulation.sinogram", "simulation.noise", "simulation.stripe",
        "simulation.xray", "simulation.background")
def _(c, name):
    if name == "sinogram":
        size = c.integer(20, 30)
        mat = smooth(c.rng, (size, size), 3, 0, 1).astype(floats(c))
        return Call(sim.make_sinogram, mat, np.linspace(0, np.pi, 12),
                    pad_rate=c.choice([0.5, 0.2]))
    mat = sino(c, dtype=floats(c))
    if name == "noise":
        return Call(sim.add_noise, mat, noise_ratio=0.1)
    if name == "stripe":
        return Call(sim.add_stripe_artifact, mat, 2,
                    c.choice([10, mat.shape[1] - 2]), strength_ratio=0.3,
                    stripe_type=c.choice(["partial", "full", "dead",
                                          "fluctuating"]))
    if name == "xray":
        return Call(sim.convert_to_Xray_image, mat,
                    global_max=c.choice([None, 4.0]))
    return Call(sim.add_background_fluctuation, mat, strength_ratio=0.2)


@recipe("simulation.masks")
def _(c, _n):
    size = c.integer(20, 40)
    func = c.choice([sim.make_elliptic_mask, sim.make_rectangular_mask,
                     sim.make_triangular_mask])
    return Call(func, size, c.choice([(3.0, -2.0), 1.0]),
                c.choice([9.0, 12.0, (8.0, 14.0)]), c.choice([0.0, 35.0]))


@recipe("simulation.targets")
def _(c, _n):
    return Call(c.choice([sim.make_line_target, sim.make_face_phantom]),
                c.integer(64, 90))


# ----------------------------------------------------------------------- io

@recipe("io.reference_stacks", "io.reference_stacks_dls", "io.tif_stack",
        "io.image_stack")
def _(c, name):
    base = given(c, name)
    num, shape = 4, (9, 11)
    flat = noise(c.rng, shape, 1.5, 1.9)
    dark = noise(c.rng, shape, 0.0, 0.1)
    kw = dict(crop=c.choice([(0, 0, 0, 0), (1, 0, 2, 1)]))
    if c.choice([0, 1]):
        kw.update(flat_field=flat, dark_field=dark)
    vols = [noise(c.rng, (3, num) + shape, 0.2, 1.2) for _ in range(2)]
    if name == "tif_stack":
        for i in range(num):
            losa.save_image(base + "/im_{:03d}.tif".format(i), vols[0][0, i])
        return Call(losa.get_tif_stack, base, idx=c.choice([None, 2]), **kw)
    paths = [[], []]
    for i in range(3):
        for k, stem in enumerate(("ref", "sam")):
            path = os.path.join(base, "{}_{}.hdf".format(stem, i))
            with h5py.File(path, "w") as fout:
                fout["entry/data/data"] = vols[k][i]
                fout["entry/instrument/detector/image_key"] = np.zeros(num)
            paths[k].append(path)
    if name == "reference_stacks":
        return Call(losa.get_reference_sample_stacks, 1, *paths,
                    "entry/data/data", "entry/data/data", **kw)
    if name == "image_stack":
        return Call(losa.get_image_stack, c.choice([0, 1]), paths[0],
                    data_key="entry/data/data", **kw)
    keys = "entry/instrument/detector/image_key"
    for path in paths[0]:
        with h5py.File(path, "a") as fout:
            fout[keys][0] = 2
            fout[keys][1] = 1
    return Call(losa.get_reference_sample_stacks_dls, 1, paths[0],
                data_key="entry/data/data", image_key=keys, **kw)


@recipe("io.load_multiple", "io.save_multiple", "io.save_image",
        "io.load_image")
def _(c, name):
    vol = volume(c, dtype=c.choice([np.float32, np.uint8, np.uint16]))
    base = given(c, name)
    names = [base + "/im_{:03d}.tif".format(i) for i in range(len(vol))]
    if name.startswith("load"):
        for path, mat in zip(names, vol):
            losa.save_image(path, mat)
        if name == "load_image":
            return Call(losa.load_image, names[0])
        return Call(losa.load_image_multiple, names, ncore=1).set(
            vary={"ncore": [2, 3, None], "prefer": ["processes"]})
    out = fresh_name(c, "saved")
    if name == "save_image":
        return Call(losa.save_image, out + "/one.tif", vol[0]).set(
            read=lambda _: tifs(out))
    axis = c.choice([0, 1, 2])
    targets = [out + "/im_{:03d}.tif".format(i)
               for i in range(vol.shape[axis])]
    return Call(losa.save_image_multiple, targets, vol, axis=axis,
                overwrite=True, ncore=1).set(
                    read=lambda _: tifs(out),
                    vary={"ncore": [2, 3, None], "prefer": ["processes"]})


@recipe("io.coefficients")
def _(c, _n):
    out = fresh_name(c, "coef")
    return Call(losa.save_distortion_coefficient, out + "/c.txt", 12.5, 13.5,
                c.choice([list(LIST_FACT), np.asarray(LIST_FACT)])).set(
                    read=lambda _: losa.load_distortion_coefficient(
                        out + "/c.txt"))


@recipe("io.tif_to_hdf", "io.hdf_to_tif", "io.emulator")
def _(c, name):
    vol = volume(c)
    base = given(c, name)
    if name == "hdf_to_tif":
        with h5py.File(base + "/v.hdf", "w") as fout:
            fout["entry/data"] = vol
        out = fresh_name(c, "tifs")
        return Call(conv_io.extract_tif_from_hdf, base + "/v.hdf", out,
                    "entry/data", axis=c.choice([0, 1]),
                    crop=c.choice([(0, 0, 0, 0), (1, 0, 1, 1)])).set(
                        read=lambda _: tifs(out))
    for i, mat in enumerate(vol):
        losa.save_image(base + "/im_{:03d}.tif".format(i), mat)
    if name == "emulator":
        def load(path):
            emu = conv_io.HdfEmulatorFromTif(path)
            return [np.asarray(emu[1]), np.asarray(emu[:, 1:3, 2]),
                    np.asarray(emu[1:4])]
        return Call(load, base).set(where=conv_io.HdfEmulatorFromTif)
    out = fresh_name(c, "conv") + "/v.hdf"

    def back(_):
        with h5py.File(out, "r") as fin:
            return fin["entry/data"][()]
    return Call(conv_io.convert_tif_to_hdf, base, out,
                crop=c.choice([(0, 0, 0, 0), (1, 0, 1, 1)])).set(read=back)
