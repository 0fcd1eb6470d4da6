"""P06: distortion correction is the same map for images, rows and chunks."""
import os
import h5py
import numpy as np
import algotom.prep.correction as corr
from vlib import noise, smooth

RULE = ("a class is one (entry point, distortion sign/strength, centre "
        "position, row range relative to the image, subset option, data "
        "container) combination compared with a direct bilinear evaluation "
        "of the backward model")
ASSUMPTIONS = ["distortions within the range that lens calibration produces "
               "(local magnification 0.6 to 1.5)",
               "floating-point pixel data"]


def model(case, height, width):
    """Backward coefficients with a bounded displacement at the corner."""
    xc = case.choice([(width - 1) / 2.0, case.uniform(0.2, 0.8) * width,
                      -3.0, width + 2.5])
    yc = case.choice([(height - 1) / 2.0, case.uniform(0.2, 0.8) * height,
                      -4.0, height + 3.5])
    kind = case.cycle(["identity", "barrel", "pincushion", "mixed", "scale",
                       "folding"], "model")
    rmax = np.hypot(max(xc, width - xc), max(yc, height - yc))
    if kind == "identity":
        facts = [1.0] + [0.0] * case.integer(0, 4)
    elif kind == "scale":
        facts = [case.choice([0.8, 0.95, 1.1, 1.25])]
    elif kind == "folding":
        # strong enough for the path of a row to turn back inside the image
        xc = case.uniform(0.1, 0.9) * width
        yc = case.uniform(-0.2, 1.2) * height
        rmax = np.hypot(max(xc, width - xc), max(yc, height - yc))
        a = case.choice([-1, 1]) * case.uniform(0.3, 0.8)
        facts = [1.0, a / rmax, -a * case.uniform(0.5, 1.2) / rmax ** 2]
    else:
        num = case.integer(2, 5)
        sign = {"barrel": -1, "pincushion": 1, "mixed": 0}[kind]
        facts = [1.0]
        for i in range(1, num):
            s = sign if sign else case.choice([-1, 1])
            facts.append(s * case.uniform(0.01, 0.25) / (num - 1) / (i + 1)
                         / rmax ** i)
    case.note(xc=xc, yc=yc, facts=facts)
    return xc, yc, facts, kind


def bilinear(mat, y, x):
    height, width = mat.shape
    y = np.clip(y, 0, height - 1)
    x = np.clip(x, 0, width - 1)
    y0 = np.minimum(np.floor(y).astype(int), max(height - 2, 0))
    x0 = np.minimum(np.floor(x).astype(int), max(width - 2, 0))
    y1, x1 = np.minimum(y0 + 1, height - 1), np.minimum(x0 + 1, width - 1)
    fy, fx = y - y0, x - x0
    mat = mat.astype(np.float64)
    return ((1 - fy) * ((1 - fx) * mat[y0, x0] + fx * mat[y0, x1])
            + fy * ((1 - fx) * mat[y1, x0] + fx * mat[y1, x1]))


def reference(mat, xc, yc, facts):
    height, width = mat.shape
    yu, xu = np.mgrid[:height, :width].astype(np.float64)
    xu, yu = xu - xc, yu - yc
    ru = np.hypot(xu, yu)
    fact = sum(c * ru ** i for i, c in enumerate(facts))
    return bilinear(mat, yc + fact * yu, xc + fact * xu)


def shape_of(case):
    return (case.choice([case.integer(2, 8), case.integer(20, 60)]),
            case.choice([case.integer(2, 8), case.integer(20, 60)]))


def image(case):
    height, width = shape_of(case)
    mat = case.choice([noise, smooth])(case.rng, (height, width))
    mat = mat.astype(case.choice([np.float32, np.float64]))
    xc, yc, facts, kind = model(case, height, width)
    case.note(shape=mat.shape)
    case.near(corr.unwarp_projection(mat, xc, yc, facts),
              reference(mat, xc, yc, facts), "image",
              "corrected projection", rtol=0, atol=2e-4)
    if kind == "identity":
        case.near(corr.unwarp_projection(mat, xc, yc, facts), mat,
                  "identity", "identity model", rtol=0, atol=2e-4)
    case.seen("image", kind, height < 9, width < 9, xc < 0, yc < 0,
              xc > width, yc > height)


def rows(case):
    height, width = shape_of(case)
    depth = case.integer(1, 7)
    data = noise(case.rng, (depth, height, width))
    xc, yc, facts, kind = model(case, height, width)
    opt, sel = {}, list(range(depth))
    if case.choice([True, False], "subset"):
        start = case.integer(0, depth - 1)
        stop = case.integer(start + 1, depth)
        step = case.integer(1, 3)
        opt = {case.choice(["option", "opt"]): (start, stop, step)}
        sel = list(range(start, stop, step))
    want = np.asarray([reference(data[i], xc, yc, facts) for i in sel])
    case.note(shape=data.shape, opt=opt)
    obj, fin = data, None
    use_hdf = case.choice([True, False], "hdf")
    if use_hdf:
        path = os.path.join(case.dir, "d.h5")
        with h5py.File(path, "w") as fout:
            fout["d"] = data
        fin = h5py.File(path, "r")
        obj = fin["d"]
    try:
        for row in {0, height - 1, case.integer(0, height - 1)}:
            got = corr.unwarp_sinogram(obj, row, xc, yc, facts, **opt)
            case.near(got, want[:, row, :], "row",
                      "sinogram row {}".format(row), rtol=0, atol=2e-4)
        where = case.choice(["all", "all-1", "top", "bottom", "mid", "one"],
                            "range")
        a = case.integer(0, height - 1)
        b = case.integer(a + 1, height)
        start, stop = {"all": (0, height), "all-1": (0, -1), "top": (0, b),
                       "bottom": (a, height), "mid": (a, b),
                       "one": (a, a + 1)}[where]
        got = corr.unwarp_sinogram_chunk(obj, start, stop, xc, yc, facts,
                                         **opt)
        stop = height if stop == -1 else stop
        case.near(got, want[:, start:stop, :], "chunk",
                  "sinogram chunk {}:{} of {} rows".format(start, stop,
                                                           height),
                  rtol=0, atol=2e-4)
    finally:
        if fin is not None:
            fin.close()
    case.seen("rows", kind, where, bool(opt), use_hdf)


def register(ctx):
    ctx.family("image", 120, 2500, image)
    ctx.family("rows", 160, 3000, rows)
    ctx.expect_tags("image", 20)
    ctx.expect_tags("rows", 30)
