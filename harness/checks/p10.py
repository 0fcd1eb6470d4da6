"""P10: tilted sinograms and profiles are lines of the rotated images."""
import os
import h5py
import numpy as np
import algotom.prep.correction as corr
from vlib import noise
from checks.p06 import bilinear, shape_of

RULE = ("a class is one (entry point, tilt sign and size, row position, "
        "subset option, container) combination compared with a direct "
        "bilinear evaluation of the rotation about the image centre")
ASSUMPTIONS = ["floating-point pixel data"]


def reference(mat, rows, angle):
    height, width = mat.shape
    xc, yc = (width - 1) / 2.0, (height - 1) / 2.0
    a = np.deg2rad(angle)
    x = np.arange(width)[None, :] - xc
    y = np.asarray(rows, dtype=float)[:, None] - yc
    return bilinear(mat, yc + x * np.sin(a) + y * np.cos(a),
                    xc + x * np.cos(a) - y * np.sin(a))


def setup(case):
    height, width = shape_of(case)
    angle = case.cycle([0.0, 0.5, -0.5, 3.0, -3.0, 12.0, -12.0, 45.0, -70.0,
                        90.0, 180.0], "angle")
    if angle not in (0.0, 90.0, 180.0):
        angle += case.uniform(-0.4, 0.4)
    return height, width, angle


def rows_of(case, height):
    where = case.choice(["all", "top", "bottom", "mid", "one"], "range")
    a = case.integer(0, height - 1)
    b = case.integer(a, height - 1)
    start, stop = {"all": (0, height - 1), "top": (0, b), "mid": (a, b),
                   "bottom": (a, height - 1), "one": (a, a)}[where]
    return where, start, stop


def sinogram(case):
    height, width, angle = setup(case)
    depth = case.integer(1, 6)
    data = noise(case.rng, (depth, height, width))
    opt, sel = {}, list(range(depth))
    if case.choice([True, False], "subset"):
        start = case.integer(0, depth - 1)
        stop = case.integer(start + 1, depth)
        step = case.integer(1, 3)
        opt = {case.choice(["option", "opt"]): (start, stop, step)}
        sel = list(range(start, stop, step))
    use_hdf = case.choice([True, False], "hdf")
    obj, fin = data, None
    if use_hdf:
        path = os.path.join(case.dir, "d.h5")
        with h5py.File(path, "w") as fout:
            fout["d"] = data
        fin = h5py.File(path, "r")
        obj = fin["d"]
    case.note(shape=data.shape, opt=opt)
    try:
        for row in sorted({0, height - 1, case.integer(0, height - 1)}):
            want = np.asarray([reference(data[i], [row], angle)[0]
                               for i in sel])
            case.near(corr.generate_tilted_sinogram(obj, row, angle, **opt),
                      want, "tilted-row", "tilted sinogram {}".format(row),
                      rtol=0, atol=2e-4)
            if angle == 0.0:
                case.near(corr.generate_tilted_sinogram(obj, row, 0.0, **opt),
                          data[sel][:, row], "no-tilt", "zero tilt", rtol=0,
                          atol=2e-4)
        where, start, stop = rows_of(case, height)
        want = np.asarray([reference(data[i], range(start, stop + 1), angle)
                           for i in sel])
        got = corr.generate_tilted_sinogram_chunk(obj, start, stop, angle,
                                                  **opt)
        case.near(got, want, "tilted-chunk", "tilted chunk {}..{} of {}"
                  .format(start, stop, height), rtol=0, atol=2e-4)
    finally:
        if fin is not None:
            fin.close()
    case.seen("sino", np.sign(angle), abs(angle) > 20, where, bool(opt),
              use_hdf)


def profile(case):
    height, width, angle = setup(case)
    mat = noise(case.rng, (height, width))
    case.note(shape=mat.shape)
    for row in sorted({0, height - 1, case.integer(0, height - 1)}):
        case.near(corr.generate_tilted_profile_line(mat, row, angle),
                  reference(mat, [row], angle)[0], "line",
                  "tilted line {}".format(row), rtol=0, atol=2e-4)
    where, start, stop = rows_of(case, height)
    got = corr.generate_tilted_profile_chunk(mat, start, stop, angle)
    case.near(got, reference(mat, range(start, stop + 1), angle), "lines",
              "tilted lines {}..{}".format(start, stop), rtol=0, atol=2e-4)
    # the sinogram and the flat-field line must be sampled alike
    sino = corr.generate_tilted_sinogram_chunk(mat[None], start, stop, angle)
    case.near(sino[0], got, "line-vs-sinogram",
              "lines of an image against its tilted sinogram", rtol=0,
              atol=2e-4)
    case.seen("line", np.sign(angle), abs(angle) > 20, where)


def register(ctx):
    ctx.family("sinogram", 130, 2500, sinogram)
    ctx.family("profile", 130, 2500, profile)
    ctx.expect_tags("sinogram", 30)
    ctx.expect_tags("profile", 15)
