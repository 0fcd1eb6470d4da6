"""P29: GPU backends give the CPU result, and fall back without a GPU."""
import contextlib
import io
import os
import subprocess
import sys
import warnings
import h5py
import numpy as np
from numba import cuda
import algotom.prep.phase as ps
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.correlation as cl
from checks.p21 import displaced
from vlib import Inconclusive, noise, phantom

RULE = ("a class is one (function, dimension, option, block shape) "
        "combination run on the GPU code and on the CPU code")
ASSUMPTIONS = ["GPU kernels execute in numba's CUDA simulator (no GPU in "
               "the sandbox): same source, threads and blocks, numpy "
               "arithmetic",
               "peaks of a correlation map are compared where they are "
               "unambiguous (away from the map's edge)"]
BLOCKS = [(16, 16), (4, 4), (8, 3), (5, 7), (1, 1), (2, 16)]
FOLDER = os.path.dirname(os.path.abspath(__file__))


def block_of(case):
    return case.choice(BLOCKS, "block")


def angles_of(case, num):
    kind = case.choice(["half", "full", "random", "negative"], "angles")
    if kind == "half":
        return np.linspace(0, np.pi, num)
    if kind == "full":
        return np.linspace(0, 2 * np.pi, num)
    if kind == "random":
        return case.rng.uniform(-7, 7, num)
    return -np.linspace(0.1, 3.0, num)


def off_edge(width, angles, center, sign=-1.0):
    """Pixels with no ray within rounding of the detector's two ends."""
    grid = np.arange(width) - 0.5 * (width - 1)
    ang = np.float64(np.float32(angles))[:, None, None]
    pos = grid[None, None, :] * np.cos(ang) + sign * grid[None, :, None] * \
        np.sin(ang) + center
    near = np.minimum(np.abs(pos), np.abs(pos - (width - 1)))
    return np.all(near > 1e-4 * width, axis=0)


def backproject(case):
    """The four GPU back-projectors against the CPU ones."""
    which = case.cycle(["slice", "chunk", "vertical", "vertical-chunk"],
                       "which")
    num, width = case.integer(1, 9, "num"), case.integer(1, 19, "width")
    ang = angles_of(case, num)
    cen = case.choice([0.5 * (width - 1), case.uniform(0, width),
                       case.uniform(-width, 2 * width)], "center")
    pad = case.choice([False, True], "edge_pad")
    block = block_of(case)
    f4 = np.float32
    dtype = case.choice([np.float32, np.float64], "dtype")
    if which in ("slice", "chunk"):
        high = case.integer(1, 4, "slices")
        vol = noise(case.rng, (num, high, width), -1, 1).astype(dtype)
        if case.choice([0, 1]):
            vol = np.asfortranarray(vol)
        want = np.stack([rec.back_projection_cpu(
            np.ascontiguousarray(vol[:, i], dtype=f4), f4(ang), f4(cen), pad)
            for i in range(high)], axis=1)
        if which == "slice":
            got = np.stack([rec.back_projection_gpu(
                vol[:, i], ang, cen, block=block, edge_pad=pad)
                for i in range(high)], axis=1)
        else:
            got = rec.back_projection_gpu_chunk(vol, ang, cen, block=block,
                                                edge_pad=pad)
        sure = np.ones((width, width), bool) if pad else \
            off_edge(width, ang, cen)
        sure = sure[:, None, :]
    else:
        high = case.integer(1, 7, "height")
        vol = noise(case.rng, (num, high, width), -1, 1).astype(dtype)
        number = 1 if which == "vertical" else case.integer(1, 4, "slices")
        xs = case.rng.uniform(-width, width, (number, width))
        ys = case.rng.uniform(-width, width, (number, width))
        got, want = [], []
        for x, y in zip(xs, ys):
            want.append(vr.vertical_back_projection_cpu(
                f4(vol), f4(ang), f4(x), f4(y), f4(cen), pad))
        if which == "vertical":
            got = [vr.vertical_back_projection_gpu(
                vol, ang, xs[0], ys[0], cen, edge_pad=pad, block=block)]
        else:
            got = vr.vertical_back_projection_gpu_chunk(
                vol, ang, xs, ys, cen, edge_pad=pad, block=block)
        want = np.asarray(want)
        pos = xs[:, None] * np.cos(ang)[:, None] + \
            ys[:, None] * np.sin(ang)[:, None] + cen
        near = np.minimum(np.abs(pos), np.abs(pos - (width - 1)))
        sure = np.ones((number, width), bool) if pad else \
            np.all(near > 1e-4 * width, axis=1)
        sure = sure[:, None, :]
    got = np.asarray(got)
    case.require(got.shape == want.shape, "shape", "{} instead of {}".format(
        got.shape, want.shape))
    case.check(got.dtype == np.float32, "dtype", str(got.dtype))
    case.near(np.where(sure, got, 0), np.where(sure, want, 0),
              "back-projection", which, rtol=1e-4, atol=1e-5 * num * 10)
    case.count("GPU back-projections")
    case.seen("backproject", which, pad, block)


def reconstruct(case):
    func = case.cycle([rec.fbp_reconstruction, rec.bpf_reconstruction],
                      "func")
    three = case.index % 4 >= 2
    high = case.integer(1, 4, "slices")
    num, width = case.integer(8, 20, "num"), case.integer(10, 22, "width")
    log = case.choice([True, False], "log")
    shape = (num, high, width) if three else (num, width)
    data = noise(case.rng, shape, 0.2, 1)
    cen = 0.5 * (width - 1) + case.uniform(-4, 4, "off")
    ang = None if case.choice([0, 1]) else angles_of(case, num)
    ratio = case.choice([None, 1.0, 0.7, 0.0], "ratio")
    opt = dict(angles=ang, ratio=ratio, filter_name=case.choice(
        [None, "hann", "hamming"], "filter"), pad=case.choice(
            [None, 0, 5], "pad"), apply_log=log,
        ncore=case.choice([1, 2, None], "ncore"))
    if case.choice([0, 1]):
        opt["pad_mode"] = case.choice(["edge", "reflect", "linear_ramp"],
                                      "pad_mode")
    want = func(data.copy(), cen, gpu=False, **opt)
    got = func(data.copy(), cen, gpu=True, block=block_of(case), **opt)
    true = np.linspace(0, np.pi, num) if ang is None else ang
    sure = off_edge(width, true, cen)
    case.require(got.shape == want.shape, "shape", "{} instead of {}".format(
        got.shape, want.shape))
    if func is rec.bpf_reconstruction:
        # the projections continue past the edge: no jump there
        sure = np.ones_like(sure)
    sure = sure[:, None, :] if three else sure
    scale = np.abs(want).max() + 1e-3
    case.near(np.where(sure, got, 0), np.where(sure, want, 0),
              "reconstruction", func.__name__, rtol=1e-3, scale=scale)
    case.count("GPU reconstructions")
    case.seen("reconstruct", func.__name__, three, high == 1, ratio, log)


def vertical(case):
    """Entry points of the vertical reconstruction."""
    num, high = case.integer(9, 20, "num"), case.integer(4, 8, "height")
    width = case.integer(10, 20, "width")
    data = noise(case.rng, (num, high, width), 0.2, 1)
    cen = 0.5 * (width - 1) + case.uniform(-3, 3, "off")
    ang = None if case.choice([0, 1]) else angles_of(case, num)
    opt = dict(angles=ang, chunk_size=case.choice([1, 4, 7, None, 30],
                                                  "chunk"),
               ramp_filter=case.choice(["before", "after", None], "ramp"),
               apply_log=case.choice([True, False], "log"),
               filter_name=case.choice([None, "hann"]),
               pad=case.choice([None, 0, 3]), show_progress=False,
               masking=case.choice([True, False], "masking"), ncore=2,
               prefer="threads")
    if case.choice([0, 1]):
        opt["crop"] = (1, 0, 1, 2)
        width -= 3
        cen = 0.5 * (width - 1) + case.uniform(-2, 2)
    if case.choice([0, 1]):
        opt["flat_field"] = noise(case.rng, data.shape[1:], 0.8, 1.2)
        opt["dark_field"] = noise(case.rng, data.shape[1:], 0.0, 0.1)
    alpha = case.choice([0.0, 90.0, 180.0, case.uniform(0, 180)], "alpha")
    idx = case.integer(0, width - 1, "slice")
    which = case.cycle(["single", "multiple", "angles", "centre"], "which")
    src = data
    if case.choice([0, 0, 1], "hdf"):
        path = os.path.join(case.dir, "p.hdf")
        with h5py.File(path, "w") as fout:
            fout["d"] = data
        src = h5py.File(path, "r")["d"]

    def work(gpu):
        kw = dict(opt, gpu=gpu)
        if gpu:
            kw["block"] = block
        if which == "single":
            return vr.vertical_reconstruction(src, idx, cen, alpha=alpha,
                                              **kw)
        if which == "multiple":
            return vr.vertical_reconstruction_multiple(
                src, max(0, idx - 3), idx, cen, alpha=alpha,
                step_index=step, **kw)
        if which == "angles":
            return vr.vertical_reconstruction_different_angles(
                src, [idx, width - 1 - idx, idx], [alpha, 30.0, 90.0], cen,
                **kw)
        kw.pop("masking")
        kw.pop("flat_field", None)
        kw.pop("dark_field", None)
        kw.pop("crop", None)
        kw.pop("filter_name")
        kw.pop("pad")
        kw.pop("prefer")
        return vr.find_center_vertical_slice(
            data, idx, cen - 1, cen + 1, 0.5, metric="custom",
            metric_function=lambda img: float(np.std(img)),
            return_metric=True, alpha=alpha, sigma=0, **kw)

    block, step = block_of(case), case.choice([1, 2])
    if which == "centre" and opt["ramp_filter"] is None:
        opt["ramp_filter"] = "after"
    try:
        want = work(False)
        got = work(True)
    finally:
        if src is not data:
            src.file.close()
    if which == "centre":
        case.near(got[0], want[0], "candidates", "centres")
        case.near(got[1], want[1], "metrics", "metrics", rtol=5e-2)
    else:
        want, got = np.asarray(want), np.asarray(got)
        case.require(got.shape == want.shape, "shape",
                     "{} instead of {}".format(got.shape, want.shape))
        # a ray within rounding of the detector's end counts or not
        tol = 1e-3 * np.abs(want).max() + 1e-6
        bad = np.abs(got - want) > tol
        limit = 0.02 if opt["ramp_filter"] == "before" else 0.0
        columns = np.mean(np.any(bad, axis=tuple(range(want.ndim - 1))))
        case.check(columns <= max(limit, 2.01 / want.shape[-1] if limit
                                  else 0), "vertical",
                   "{}: {:.0%} of the columns differ, worst {:.3g} of "
                   "{:.3g}".format(which, columns, np.abs(got - want).max(),
                                   np.abs(want).max()))
    case.count("GPU vertical reconstructions")
    case.seen("vertical", which, opt["ramp_filter"], opt["apply_log"],
              alpha in (0.0, 90.0, 180.0))


def maps(case):
    """Correlation maps and the shift found from them."""
    three = case.index % 2 == 1
    dtype = case.choice([np.float64, np.float32, np.uint16, np.uint8,
                         np.int16], "dtype")
    depth = case.integer(1, 3)
    h, w = case.integer(6, 18), case.integer(6, 18)
    h1, w1 = case.integer(2, h), case.integer(2, w)
    shape = (depth, h, w) if three else (h, w)
    ref = noise(case.rng, shape, 0, 250).astype(dtype)
    mat = noise(case.rng, shape[:-2] + (h1, w1), 0, 250).astype(dtype)
    if case.choice([0, 1]):
        y, x = case.integer(0, h - h1), case.integer(0, w - w1)
        mat = ref[..., y:y + h1, x:x + w1].copy()
    block = block_of(case)
    want = cl.generate_correlation_map(ref, mat, gpu=False)
    got = cl.generate_correlation_map(ref, mat, gpu=True, block=block)
    case.near(got, want, "map", "correlation map", atol=2e-3)
    margin = case.integer(1, 3)
    if min(h, w) > 2 * margin + 4:
        one, two = displaced(case.rng, (h + 8, w + 8), case.uniform(-.9, .9),
                             case.uniform(-.9, .9), num=depth)
        if not three:
            one, two = one[0], two[0]
        kw = dict(margin=margin, method=case.choice(["diff", "poly_fit"]),
                  dim=case.choice([1, 2]), axis=None)
        want = cl.find_shift_based_correlation_map(one, two, gpu=False, **kw)
        got = cl.find_shift_based_correlation_map(one, two, gpu=True,
                                                  block=block, **kw)
        case.near(got, want, "shift", "shift", atol=5e-3)
    case.count("GPU correlation maps")
    case.seen("maps", three, np.dtype(dtype).name, block)


def inner(lst, margin):
    """Where no peak sits on the border of its correlation map."""
    return np.all([np.abs(s) < margin - 0.6 for s in lst], axis=0)


def shifts(case):
    """Local and global shifts."""
    which = case.cycle(["2d", "dim1", "dim2", "hybrid", "umpa", "umpa-dark",
                        "points", "speckle"], "which")
    win, margin = case.choice([3, 5, 7, 4], "win"), case.integer(2, 3)
    edge = win // 2 + margin
    h, w = (2 * edge + case.integer(3, 9) for _ in range(2))
    if which == "dim1":
        h, w = h + 6, w + 4
    # one constant displacement; slabs one row high see one direction
    sx, sy = case.uniform(-.9, .9, "sx"), case.uniform(-.9, .9, "sy")
    if which == "dim1":
        sx, sy = 0.0, case.uniform(-.3, .3)
    depth = 1 if which in ("2d", "points") else case.integer(1, 3, "depth")
    if which in ("dim1", "umpa-dark"):
        depth = 4
    ref, mat = displaced(case.rng, (h, w), sx, sy, num=depth)
    dtype = case.choice([np.float64, np.float32, np.uint16], "dtype")
    if dtype is np.uint16:
        ref, mat = ref * 1000, mat * 1000
    ref, mat = ref.astype(dtype), mat.astype(dtype)
    chunk = case.choice([1, 3, 5, None, 100], "chunk")
    block = block_of(case)
    kw = dict(win_size=win, margin=margin, chunk_size=chunk)
    src = [ref, mat]
    if which in ("2d", "points"):
        src = [ref[0], mat[0]]
    keep = None
    if which in ("dim1", "dim2", "hybrid", "umpa") and \
            case.choice([0, 0, 1], "hdf"):
        path = os.path.join(case.dir, "s.hdf")
        with h5py.File(path, "w") as fout:
            fout["r"], fout["m"] = ref, mat
        keep = h5py.File(path, "r")
        src = [keep["r"], keep["m"]]
    norm = case.choice([True, False], "norm")
    glob = keep is None and case.choice([True, False], "norm_global")
    if which == "2d" and norm:
        # each chunk is normalized on its own (documented: norm_global)
        kw["chunk_size"] = None
    state = int(case.rng.integers(2 ** 31))

    def work(gpu):
        np.random.seed(state)
        extra = dict(gpu=gpu, ncore=1)
        if which == "points":
            kw1 = dict(win_size=win, margin=margin, num_point=case_num,
                       global_value=value, return_list=True, norm=norm)
            if gpu:
                kw1["block"] = block[0] * block[1]
            lst = cl.find_global_shift_based_local_shifts(
                *src, **kw1, **extra)
            np.random.seed(state)
            kw1["return_list"] = False
            return list(lst), cl.find_global_shift_based_local_shifts(
                *src, **kw1, **extra)
        if gpu:
            extra["block"] = block
        if which.startswith("umpa"):
            return cl.find_local_shifts_umpa(
                *src, dark_signal=which != "umpa", **kw, **extra), None
        if which == "speckle":
            return ps.retrieve_phase_based_speckle_tracking(
                *src, find_shift="correl", dim=2, norm=norm,
                norm_global=glob, dark_signal=False, return_shift=True,
                **kw, **extra), None
        if which == "hybrid" and gpu:
            extra["gpu"] = "hybrid"
            extra["method"] = method
        elif which == "hybrid":
            extra["method"] = method
        return cl.find_local_shifts(
            *src, dim=1 if which == "dim1" else 2, norm=norm,
            norm_global=glob, **kw, **extra), None

    method = case.choice(["diff", "poly_fit"], "method")
    case_num = case.integer(1, 40, "points")
    value = case.choice(["median", "mean", "mixed"])
    if which == "speckle" and min(h, w) < 2 * (margin + 2) + 6:
        which = "dim2"
    try:
        want, total = work(False)
        got, total2 = work(True)
    finally:
        if keep is not None:
            keep.close()
    case.require(len(got) == len(want), "number", str(len(got)))
    sure = inner(want[:2], margin)
    for num, name in enumerate(["x-shift", "y-shift"]):
        a, b = np.asarray(got[num]), np.asarray(want[num])
        case.require(a.shape == b.shape, "shape", "{} instead of {}".format(
            a.shape, b.shape))
        if which in ("2d", "dim2", "hybrid", "umpa", "umpa-dark"):
            frame = a.copy()
            frame[edge:-edge, edge:-edge] = 0
            case.check(not frame.any(), "frame", name + " outside the "
                       "searched area")
        diff = np.abs(a - b)[sure]
        # a narrow or flat peak may be located on its other side
        wrong = np.mean(diff > 0.02) if diff.size else 0.0
        case.check(wrong <= 0.03, name, "{}: {:.1%} of the {} differ, worst "
                   "{:.3g}".format(which, wrong, name, np.max(
                       diff, initial=0)))
    if which == "umpa-dark":
        for num, name in ((2, "transmission"), (3, "dark-field")):
            a, b = np.asarray(got[num]), np.asarray(want[num])
            case.require(a.shape == b.shape, "shape", name)
            ok = np.abs(a - b) <= 0.02 * np.abs(b) + 0.02
            case.check(np.mean(ok[sure]) > 0.9 if sure.any() else True, name,
                       "{:.0%} of the {} agree".format(np.mean(ok[sure]),
                                                       name))
    if which == "points" and sure.all():
        case.near(total2, total, "global", value, atol=0.02)
    case.count("GPU shift maps")
    case.count("compared positions", int(np.sum(sure)))
    case.seen("shifts", which, np.dtype(dtype).name, norm, chunk)


def centres(case):
    """Centre search by slice metric."""
    num, width = 31, case.integer(28, 36, "width")
    cen = 0.5 * (width - 1) + case.uniform(-2, 2, "off")
    ang = np.linspace(0, np.pi, num)
    u = np.arange(width) - cen
    img = phantom(case.rng, 16, 3)
    sino = np.zeros((num, width))
    for y, x in zip(*np.nonzero(img > 0.2)):
        s = (x - 7.5) * np.cos(ang) - (y - 7.5) * np.sin(ang)
        sino += np.exp(-(u[None] - s[:, None]) ** 2 / 3.0) * img[y, x]
    lo = int(cen) - 3
    kw = dict(step=1.0, zoom=1.0, method="fbp", apply_log=False, ncore=1,
              metric="entropy")
    with contextlib.redirect_stdout(io.StringIO()):
        got = rec.find_center_based_slice_metric(
            np.float32(sino), lo, lo + 6, gpu=True, **kw)
        want = rec.find_center_based_slice_metric(
            np.float32(sino), lo, lo + 6, gpu=False, **kw)
    case.near(got, want, "centre", "centre", atol=0.5)
    case.seen("centres", width)


def fallback(case):
    """A child without GPU (and without simulator): warning, CPU result."""
    env = dict(os.environ)
    env.pop("NUMBA_ENABLE_CUDASIM", None)
    path = os.path.join(case.dir, "out.txt")
    res = subprocess.run(
        [sys.executable, "-B", os.path.join(FOLDER, "nogpu.py"), path,
         str(int(case.rng.integers(2 ** 31)))], env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    if not os.path.isfile(path):
        raise Inconclusive("no answer: " + res.stdout.decode()[-500:])
    lines = open(path).read().splitlines()
    if lines == ["GPU"]:
        return
    case.check(lines and lines[-1] == "done", "fallback-crash",
               res.stdout.decode()[-300:])
    for line in lines[:-1]:
        name, verdict = line.split(" ", 1)
        case.check(verdict == "ok", "fallback-" + name,
                   "{} without a GPU: {}".format(name, verdict))
        case.seen("fallback", name)


def register(ctx):
    if not cuda.is_available():
        raise Inconclusive("CUDA simulator not active")
    warnings.simplefilter("ignore")
    ctx.family("backproject", 80, 4000, backproject)
    ctx.family("reconstruct", 48, 2000, reconstruct)
    ctx.family("vertical", 40, 1500, vertical)
    ctx.family("maps", 60, 2000, maps)
    ctx.family("shifts", 64, 1600, shifts)
    ctx.family("centres", 1, 12, centres)
    ctx.family("fallback", 1, 3, fallback, 300)
    ctx.expect_tags("backproject", 25)
    ctx.expect_tags("reconstruct", 16)
    ctx.expect_tags("vertical", 12)
    ctx.expect_tags("maps", 25)
    ctx.expect_tags("shifts", 20)
