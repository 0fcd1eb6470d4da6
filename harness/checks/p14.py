"""P14: centre-of-rotation and overlap finders recover the true geometry."""
import numpy as np
import algotom.prep.calculation as calc
from scipy import ndimage as ndi
from vlib import gaussian_sino, smooth

RULE = ("a class is one (finder, axis offset sign, window, side given or "
        "detected, denoise/normalization/blend options, workers, "
        "downsampling) combination whose estimate was compared with the "
        "geometry that produced the data")
ASSUMPTIONS = ["noise below one percent of the signal",
               "enough structure: at least eight objects across the view"]


def sino_180(case, ncol, nrow, center, limit=0.33):
    sino, _, _ = gaussian_sino(case.rng, ncol, nrow, center=center, num=12,
                               limit=limit, smin=1.5, smax=0.05 * ncol)
    sino = sino / sino.max()
    return sino + case.rng.normal(0, 0.002, sino.shape)


def drops(case):
    """Options of the mask in Fourier space."""
    kw = {}
    if case.choice([0, 1]):
        kw["hor_drop"] = case.choice([1, 2, 4, 6, 9])
    if case.choice([0, 1]):
        kw["ver_drop"] = case.choice([1, 2, 3])
    case.note(**kw)
    return kw


def vo(case):
    big = case.index % 12 == 11
    tall = case.index % 12 == 7
    ncol = case.integer(1290, 1500, "ncol") if big else \
        case.integer(90, 180, "ncol")
    nrow = case.integer(500, 600) if big else case.integer(91, 181)
    if tall:
        nrow = case.choice([1810, 2701]) + case.integer(0, 60)
    elif not big and case.choice([0, 0, 1]):
        nrow = ncol
    step = case.choice([0.25, 0.5], "step")
    dsp = case.choice([True, False], "dsp") if not big and not tall else True
    ncore = case.choice([1, 2, None], "ncore")
    middle = (ncol - 1) / 2.0
    offset = case.uniform(-0.04, 0.04) * ncol
    kw = {}
    if case.choice([True, False], "range"):
        offset = case.uniform(-0.10, 0.10) * ncol
        kw = dict(start=middle + offset - case.integer(6, 12),
                  stop=middle + offset + case.integer(6, 12))
    center = middle + offset
    sino = sino_180(case, ncol, nrow, center, 0.28)
    case.note(center=center, nrow=nrow, **kw)
    kw.update(drops(case))
    dtype = case.choice([np.float32, np.float64])
    got = calc.find_center_vo(sino.astype(dtype), step=step, dsp=dsp,
                              ncore=ncore, ratio=case.choice([0.5, 0.7]),
                              **kw)
    case.check(abs(got - center) <= 0.9, "vo",
               "centre {} instead of {:.3f}".format(got, center))
    pos = (got - 0.5 * (big and ncol >= 1280 and ncol // 640 % 2)) / step
    case.check(abs(pos - round(pos)) < 1e-3, "vo-step",
               "estimate {} is not on a grid of {}".format(got, step))
    case.seen("vo", big, tall, dsp, step, ncore, "start" in kw,
              "hor_drop" in kw, "ver_drop" in kw, offset > 0)


def wide(case):
    """Detectors so wide that the coarse search skips several columns."""
    ncol = case.cycle([case.integer(2580, 2700), case.integer(3220, 3300)])
    nrow = case.integer(860, 940)
    middle = (ncol - 1) / 2.0
    # Often half-way between two columns of the downsampled sinogram
    bins = ncol // 640
    center = middle + case.uniform(-25, 25)
    if case.uniform(0, 1) < 0.7:
        center = bins * round(center / bins) - 0.5 + case.uniform(-0.4, 0.4)
    sino = sino_180(case, ncol, nrow, center, 0.2).astype(np.float32)
    radius = case.choice([0.5, 0.5, 1, 2], "radius")
    lo, hi = case.integer(8, 30), case.integer(8, 30)
    case.note(ncol=ncol, nrow=nrow, center=center, lo=lo, hi=hi)
    got = calc.find_center_vo(sino, start=center - lo, stop=center + hi,
                              step=0.5, radius=radius)
    case.check(abs(got - center) <= 0.9, "vo-wide",
               "centre {} instead of {:.3f}".format(got, center))
    case.seen("wide", ncol > 3000, radius)


def steps(case):
    """The coarse and the fine search used separately."""
    ncol, nrow = case.integer(90, 150, "ncol"), case.integer(91, 151)
    center = (ncol - 1) / 2.0 + case.uniform(-5, 5)
    sino = sino_180(case, ncol, nrow, center, 0.28).astype(np.float32)
    ncore = case.choice([1, 3, None], "ncore")
    case.note(center=center)
    kw = drops(case)
    kw.update(ratio=case.choice([0.4, 0.5, 0.75], "ratio"), ncore=ncore,
              denoise=case.choice([True, True, False], "denoise"))
    raw = calc.coarse_search_cor(sino, center - 9, center + 9, **kw)
    case.check(abs(raw - center) <= 1.6, "coarse", "centre {} instead of "
               "{:.3f}".format(raw, center))
    step = case.choice([0.1, 0.25, 0.5], "step")
    start = case.choice([raw, center + case.uniform(-1.5, 1.5)])
    radius = case.choice([2, 3, 4, 2.5], "radius")
    got = calc.fine_search_cor(sino, start, radius, step, **kw)
    case.check(abs(got - center) <= step / 2 + 0.6, "fine", "centre {} "
               "instead of {:.3f}".format(got, center))
    pos = (got - (start - radius)) / step
    case.check(abs(pos - round(pos)) < 1e-3, "fine-step",
               "estimate is not on the requested grid")
    case.seen("steps", ncore, step, kw["ratio"], kw["denoise"],
              "hor_drop" in kw, "ver_drop" in kw)


def pair_options(case):
    opt = dict(denoise=case.choice([True, False], "denoise"),
               norm=case.choice([True, False], "norm"),
               use_overlap=case.choice([True, False], "use_overlap"),
               ncore=case.choice([1, 2, None], "ncore"))
    return opt


def scene_pair(case, nrow, n1, n2, overlap, side, gain_on):
    """Two views of one wide random scene with a known overlap."""
    total = n1 + n2 + 10
    up = 4
    scene = ndi.gaussian_filter(case.rng.standard_normal((nrow, total * up)),
                                (0.7, 2.2 * up), mode="nearest")
    scene = scene / np.abs(scene).max() + 2.0
    first = int(round(4 * up))

    def cut(pos, num):
        xs = first + pos * up + np.arange(num) * up
        return ndi.map_coordinates(
            scene, np.meshgrid(np.arange(nrow), xs, indexing="ij"), order=3)

    left_w = n1 if side == 1 else n2
    right_w = n2 if side == 1 else n1
    left, right = cut(0.0, left_w), cut(left_w - overlap, right_w)
    mat1, mat2 = (left, right) if side == 1 else (right, left)
    if gain_on:
        mat2 = mat2 * case.uniform(0.7, 1.4, "gain")
    return mat1, mat2


def overlap(case):
    opt = pair_options(case)
    nrow = case.integer(20, 40)
    n1, n2 = case.integer(70, 110, "n1"), case.integer(70, 110, "n2")
    side = case.choice([0, 1], "side")
    win = case.choice([16, 20, 25, 200, min(n1, n2) // 2], "win")
    eff = min(win, min(n1, n2) // 2)
    true = case.uniform(eff + 1, min(n1, n2) - 1)
    given = case.cycle([None, side], "given")
    mat1, mat2 = scene_pair(case, nrow, n1, n2, true, side,
                            opt["norm"] and not opt["use_overlap"])
    case.note(overlap=true)
    got = calc.find_overlap(mat1, mat2, win, side=given, **opt)
    case.require(len(got) == 3 and got[1] == side, "side",
                 "side {} instead of {}".format(got[1], side))
    case.check(abs(got[0] - true) <= 0.6, "overlap",
               "overlap {} instead of {:.3f}".format(got[0], true))
    # centre of the matching window in the first image
    half = int(np.clip(win, 6, min(n1, n2) // 2 - 1)) // 2
    pos = n1 - true + half if side == 1 else true - half
    case.check(abs(got[2] - pos) <= 0.6, "position",
               "window centre {} instead of {:.3f}".format(got[2], pos))
    case.seen("overlap", side, given is None, opt["denoise"], opt["norm"],
              opt["use_overlap"], win >= 200 or win == min(n1, n2) // 2)
    if given is None:
        # detecting the side must not change what is measured on that side
        want = calc.find_overlap(mat1, mat2, win, side=side, **opt)
        swap = dict(opt, denoise=opt["norm"], norm=opt["denoise"])
        as_swapped = opt["denoise"] != opt["norm"] and np.allclose(
            got, calc.find_overlap(mat1, mat2, win, side=side, **swap),
            rtol=0, atol=1e-9)
        case.near(got, want, "auto-side-swaps-denoise-and-norm" if as_swapped
                  else "auto-side", "side detected against side given",
                  rtol=0, atol=1e-6)
    case.raises(ValueError, "height", "images of different heights",
                calc.find_overlap, mat1, mat2[:-1], win, side=side)


def multiple(case):
    """Neighbours in a list are matched pairwise."""
    nrow, num = 24, case.integer(2, 3, "num")
    opt = pair_options(case)
    side = case.choice([0, 1], "side")
    width = case.integer(70, 90)
    true = [case.uniform(24, 45) for _ in range(num)]
    scene = smooth(case.rng, (nrow, 400), sigma=(0.7, 2.0), lo=1.0, hi=3.0)
    mats, pos = [], 20.0 if side == 1 else 300.0
    for k in range(num + 1):
        xs = pos + np.arange(width)
        mats.append(ndi.map_coordinates(
            scene, np.meshgrid(np.arange(nrow), xs, indexing="ij"), order=3))
        if k < num:
            pos = pos + (width - true[k]) * (1 if side == 1 else -1)
    if case.choice([0, 1]):
        # height not a multiple of anything
        mats = [m[:nrow - 1].astype(np.float32) for m in mats]
    win = case.choice([17, 18, 21], "win")
    got = calc.find_overlap_multiple(mats, win,
                                     side=case.choice([None, side]), **opt)
    case.require(len(got) == num, "multiple-number", "{}".format(len(got)))
    case.note(true=true)
    for k in range(num):
        case.check(got[k][1] == side and abs(got[k][0] - true[k]) <= 0.7,
                   "multiple", "pair {}: {} instead of {:.3f}, side {}"
                   .format(k, got[k][:2], true[k], side))
    case.raises(ValueError, "multiple-one", "one image",
                calc.find_overlap_multiple, mats[:1], 18)
    case.seen("multiple", num, side, opt["denoise"], opt["use_overlap"])


def center_360(case):
    opt = pair_options(case)
    ncol = case.integer(90, 130, "ncol")
    side = case.choice([0, 1], "side")
    true = case.uniform(26, 50)
    center = (true - 1) / 2.0 if side == 0 else ncol - (true + 1) / 2.0
    n = case.integer(40, 60)
    sino, _, _ = gaussian_sino(case.rng, ncol, 2 * n + 1, center=center,
                               sweep=2 * np.pi, num=40,
                               limit=(ncol - true / 2) / ncol, smin=1.5,
                               smax=4.0)
    sino = sino / sino.max() + 0.2
    win = case.choice([14, 17, 20], "win")
    given = case.cycle([None, side], "given")
    case.note(center=center)
    cor, ov, sd, pos = calc.find_center_360(sino.astype(np.float32), win,
                                            side=given, **opt)
    case.require(sd == side, "360-side", "side {} instead of {}".format(
        sd, side))
    case.check(abs(cor - center) <= 0.5, "360-centre",
               "centre {} instead of {:.3f}".format(cor, center))
    case.check(abs(ov - true) <= 1.0, "360-overlap",
               "overlap {} instead of {:.3f}".format(ov, true))
    case.seen("360", side, given is None, opt["denoise"], opt["norm"],
              opt["use_overlap"])


def view_pair(case, nrow, ncol, center, flip, sigma=1.6):
    """Projections half a turn apart: mirrored about the axis."""
    scene = ndi.gaussian_filter(case.rng.standard_normal((nrow, 4 * ncol)),
                                sigma, mode="nearest")
    scene = scene / np.abs(scene).max() + 2.0
    ys = np.arange(nrow)
    xs = 1.5 * ncol + np.arange(ncol) - center
    mat1 = ndi.map_coordinates(scene, np.meshgrid(ys, xs, indexing="ij"),
                               order=3)
    xs = 1.5 * ncol - (np.arange(ncol) - center)
    mat2 = ndi.map_coordinates(scene, np.meshgrid(ys, xs, indexing="ij"),
                               order=3)
    if not flip:
        mat2 = np.fliplr(mat2)
    return mat1, mat2


def projections(case):
    nrow, ncol = case.integer(60, 100), case.integer(90, 140, "ncol")
    flip = case.choice([True, False], "flip")
    method = case.cycle(["overlap", "phase"], "method")
    span = 0.2 if method == "overlap" else 0.12
    center = (ncol - 1) / 2.0 + case.uniform(-span, span) * ncol
    # phase correlation needs fine texture to tell it from the fixed borders
    mat1, mat2 = view_pair(case, nrow, ncol, center, flip,
                           1.6 if method == "overlap" else 0.6)
    case.note(center=center)
    if method == "phase":
        gradient = case.choice([True, False], "gradient")
        got = calc.find_center_based_phase_correlation(
            mat1, mat2, flip=flip, gradient=gradient)
        tag = gradient
    else:
        kw = dict(win_width=case.choice([None, 18]),
                  chunk_height=case.choice([None, 20, 0.6]),
                  start_row=case.choice([None, 5, nrow]))
        kw.update(pair_options(case))
        case.note(**{k: repr(v) for k, v in kw.items()})
        got = calc.find_center_projection(mat1, mat2, flip=flip, **kw)
        tag = tuple(kw[k] is None for k in ("win_width", "chunk_height",
                                            "start_row"))
    tol = 0.5 if abs(center - (ncol - 1) / 2.0) > 1.5 else 0.8
    case.check(abs(got - center) <= tol, "projection",
               "{}: centre {} instead of {:.3f}".format(method, got, center))
    case.seen("projection", method, flip, tag)


def shift(case):
    """Translation between two views of the same scene."""
    nrow, ncol = case.integer(60, 110), case.integer(60, 110)
    gradient = case.choice([True, False], "gradient")
    ty, tx = case.uniform(-8, 8, "ty"), case.uniform(-8, 8, "tx")
    if not gradient or case.choice([True, False], "whole"):
        ty, tx = round(ty), round(tx)
    if gradient:
        scene = ndi.gaussian_filter(
            case.rng.standard_normal((nrow + 40, ncol + 40)), 0.6)
        ys, xs = np.arange(nrow) + 20.0, np.arange(ncol) + 20.0
        mat2 = ndi.map_coordinates(
            scene, np.meshgrid(ys, xs, indexing="ij"), order=3)
        mat1 = ndi.map_coordinates(
            scene, np.meshgrid(ys - ty, xs - tx, indexing="ij"), order=3)
    else:
        # without the gradient the views have to be periodic
        mat2 = ndi.gaussian_filter(case.rng.standard_normal((nrow, ncol)),
                                   1.0, mode="wrap")
        mat1 = np.roll(mat2, (ty, tx), axis=(0, 1))
    case.note(shape=(nrow, ncol), ty=ty, tx=tx)
    got = calc.find_shift_based_phase_correlation(mat1, mat2,
                                                  gradient=gradient)
    case.near(got, [ty, tx], "shift", "translation", rtol=0, atol=0.5)
    case.seen("shift", gradient, np.sign(ty), np.sign(tx))


def bias(case):
    """Estimates scatter around the truth, without a systematic offset."""
    method = case.cycle(["vo", "fine", "overlap", "360", "projection",
                         "phase"], "method")
    errs = []
    for _ in range(21):
        if method in ("vo", "fine"):
            ncol, nrow = case.integer(90, 130), case.integer(91, 131)
            center = (ncol - 1) / 2.0 + case.uniform(-4, 4)
            sino = sino_180(case, ncol, nrow, center, 0.28)
            if method == "vo":
                got = calc.find_center_vo(sino, ncore=1)
            else:
                got = calc.fine_search_cor(sino, center + case.uniform(-1, 1),
                                           3, 0.25, ncore=1)
        elif method == "overlap":
            side = case.integer(0, 1)
            center = case.uniform(25, 60)
            mats = scene_pair(case, 24, 80, 70, center, side, False)
            got = calc.find_overlap(*mats, 18, side=side, ncore=1)[0]
        elif method == "360":
            ncol, true = 100, case.uniform(26, 50)
            side = case.integer(0, 1)
            center = (true - 1) / 2.0 if side == 0 \
                else ncol - (true + 1) / 2.0
            sino, _, _ = gaussian_sino(
                case.rng, ncol, 81, center=center, sweep=2 * np.pi, num=40,
                limit=(ncol - true / 2) / ncol, smin=1.5, smax=4.0)
            got = calc.find_center_360(sino, 16, side=side, ncore=1)[0]
        else:
            ncol = case.integer(90, 120)
            center = (ncol - 1) / 2.0 + case.choice([-1, 1]) * case.uniform(
                0.03, 0.1) * ncol
            mats = view_pair(case, 60, ncol, center, True,
                             1.6 if method == "projection" else 0.6)
            got = calc.find_center_projection(*mats, ncore=1) \
                if method == "projection" \
                else calc.find_center_based_phase_correlation(*mats)
        errs.append(float(got) - center)
    med = float(np.median(errs))
    case.note(median=med, worst=float(np.max(np.abs(errs))))
    case.check(abs(med) <= 0.17, "bias", "{}: median error {:.3f} pixel over "
               "{} data sets".format(method, med, len(errs)))
    case.seen("bias", method)


def register(ctx):
    ctx.family("bias", 6, 60, bias)
    ctx.family("vo", 24, 400, vo)
    ctx.family("wide", 4, 40, wide)
    ctx.family("steps", 20, 150, steps)
    ctx.family("overlap", 60, 900, overlap)
    ctx.family("multiple", 16, 240, multiple)
    ctx.family("center_360", 40, 600, center_360)
    ctx.family("projections", 50, 800, projections)
    ctx.family("shift", 40, 800, shift)
    ctx.expect_tags("bias", 6)
    ctx.expect_tags("vo", 10)
    ctx.expect_tags("overlap", 15)
    ctx.expect_tags("center_360", 10)
    ctx.expect_tags("projections", 8)
