"""P25: simulated phantoms, projections and artefacts obey their model."""
import itertools
import warnings
import numpy as np
import algotom.util.simulation as sim
from vlib import noise, smooth, digest, gaussian_sino, blob_image

RULE = ("a class is one (function, size parity, option) combination compared "
        "with geometry, exact line integrals, the documented formula or the "
        "distribution of the requested noise")
ASSUMPTIONS = ["blobs are well sampled and away from the border of the "
               "projected image",
               "sinograms are floating-point and positive where an artefact "
               "is added"]


# -------------------------------------------------------------- shapes

def local(size, center, angle):
    """Coordinates in the frame of the shape; y points up."""
    cx, cy = center if isinstance(center, tuple) else (center, center)
    y, x = np.mgrid[:size, :size]
    x, y = x - size // 2 - cx, -(y - size // 2) - cy
    a = np.deg2rad(angle)
    return x * np.cos(a) + y * np.sin(a), -x * np.sin(a) + y * np.cos(a)


def shape_args(case):
    n = case.integer(40, 150, "n")
    length = (case.uniform(6, .5 * n), case.uniform(6, .5 * n))
    center = (case.uniform(-.25, .25) * n, case.uniform(-.25, .25) * n)
    if case.choice([0, 0, 1], "scalar length"):
        length = length[0]
    if case.choice([0, 0, 1], "scalar center"):
        center = center[0]
    angle = case.choice([0.0, 90.0, 180.0, case.uniform(-180, 180)], "angle")
    case.note(length=length, center=center)
    lx, ly = length if isinstance(length, tuple) else (length, length)
    return n, center, length, angle, lx, ly


def shapes(case):
    which = case.cycle(["ellipse", "rectangle", "triangle"], "shape")
    n, center, length, angle, lx, ly = shape_args(case)
    x, y = local(n, center, angle)
    grow = 0.01 * max(lx, ly)
    if which == "ellipse":
        got = sim.make_elliptic_mask(n, center, length, angle)
        rad = np.hypot(2 * x / lx, 2 * y / ly)
        inside, outside = rad < 1 - 1e-6, rad > 1.01 + 1e-6
    elif which == "rectangle":
        got = sim.make_rectangular_mask(n, center, length, angle)
        rad = np.maximum(np.abs(2 * x / lx), np.abs(2 * y / ly))
        inside, outside = rad < 1 - 1e-6, rad > 1.01 + 1e-6
    else:
        if ly < 0.4 * lx:
            return
        got = sim.make_triangular_mask(n, center, length, angle)
        # the apex on the left, the base on the right
        slope = lx / np.hypot(lx, ly / 2)
        edge = np.minimum(lx / 2 - x, ((x + lx / 2) / lx * ly / 2
                                       - np.abs(y)) * slope)
        inside, outside = edge > 0.6, edge < -1.5 - 2 * grow
    case.require(got.shape == (n, n), "shape", "{}".format(got.shape))
    case.check(np.all((got == 0) | (got == 1)), "binary", "values")
    case.check(np.all(got[inside] == 1), "inside-" + which,
               "{} pixels missed".format((got[inside] == 0).sum()))
    case.check(np.all(got[outside] == 0), "outside-" + which,
               "{} pixels too many".format(got[outside].sum()))
    case.seen(which, n % 2, isinstance(length, tuple),
              isinstance(center, tuple), angle in (0.0, 90.0, 180.0))


def targets(case):
    n = case.integer(64, 420, "n")
    got = sim.make_line_target(n)
    case.require(got.shape == (n, n), "shape", "{}".format(got.shape))
    case.check(np.all((got == 0) | (got == 1)), "binary", "values")
    case.equal(got, got.T, "transpose", "transposed target")
    row = got[n // 2]
    runs = [(int(k), len(list(g))) for k, g in itertools.groupby(row)]
    # the border outside the circle
    lines = runs[(1 if runs[0][0] == 0 else 0):
                 (-1 if runs[-1][0] == 0 else None)]
    dark = [num for val, num in lines if val == 0]
    half = len(dark) // 2
    want = [i for i in range(1, half // 3 + 1) for _ in range(3)]
    case.check(len(dark) % 6 == 0 and dark == want + want, "widths",
               "line widths {}".format(dark))
    pos = 0
    for i, (val, num) in enumerate(lines):
        if val == 0:
            pos += 1
            if pos % 3:
                case.check(lines[i + 1][1] == num, "gaps",
                           "gap {} after a line of {}".format(
                               lines[i + 1][1], num))
    case.seen("target", n % 2, half // 3)


def face(case):
    n = case.integer(40, 200, "n")
    got = sim.make_face_phantom(n)
    case.require(got.shape == (n, n), "shape", "{}".format(got.shape))
    case.equal(sim.make_face_phantom(n), got, "repeat", "called twice")
    case.check(got.min() > -1e-6 and got.max() < 1 + 1e-6, "range",
               "{} to {}".format(got.min(), got.max()))
    x, y = local(n, 0.0, 0.0)
    lx, ly = n / 1.3, (0.95 if n > 64 else 0.9) * n
    rad = np.hypot(2 * x / lx, 2 * y / ly)
    case.check(np.all(got[rad > 1.01 + 1e-6] == 0), "outside", "outside")
    f = 0.91 if n > 64 else 0.86
    rim = np.hypot(2 * x / (f * n / 1.3), 2 * (y + .01 * n) / (f * n))
    ring = (rad < 1 - 1e-6) & (rim > 1.01 + 1e-6)
    case.check(np.all(np.abs(got[ring] - 1) < 1e-6), "rim", "the outline")
    odd = got if n % 2 else got[:, 1:]
    case.check(np.mean(np.abs(odd - odd[:, ::-1])) < 0.01 if n % 2 == 0
               else True, "mirror", "left and right differ")
    case.check(0.26 < got.mean() < 0.31, "mean", "mean of {:.3f}".format(
        got.mean()))
    # features: eye, pupil, nose, mouth
    h = n // 2

    def at(px, py):
        return got[int(round(h - py)), int(round(h + px))]
    case.near([at(.3 * h, .4 * h - 0.0), at(0, -.1 * h)], [0.0, 0.6],
              "features", "pupil and nose", atol=0.21)
    case.seen("face", n % 2, n > 64)


# ---------------------------------------------------------- projection

def sinogram(case):
    n = case.integer(48, 100, "n")
    c = n // 2 if n % 2 == 0 else (n - 1) / 2.0
    num = case.integer(3, 40, "num")
    sweep = case.choice([np.pi, np.pi * (1 - 1.0 / num), np.pi / 3], "sweep")
    kind = case.choice(["even", "random", "list"], "angles")
    angles = np.linspace(0, sweep, num)
    if kind == "random":
        angles = case.rng.uniform(-np.pi, np.pi, num)
    want, angles, blobs = gaussian_sino(
        case.rng, n, num, center=c, num=4, limit=0.2, smin=2.2,
        smax=.07 * n, angles=angles)
    mat = blob_image(blobs, n, c)
    mat = mat.astype(case.choice([np.float64, np.float32], "dtype"))
    kw = {"pad_rate": case.choice([0.5, 0.5, 1.0, 0.3], "pad_rate"),
          "pad_mode": case.choice(["edge", "constant"], "pad_mode")}
    given = list(angles) if kind == "list" else angles
    before = digest(mat), digest(angles)
    got = sim.make_sinogram(mat, given, **kw)
    case.check((digest(mat), digest(angles)) == before, "mutated", "inputs")
    case.require(got.shape == (num, n), "shape", "{}".format(got.shape))
    top = want.max()
    case.near(got, want, "integrals", "line integrals", rtol=2e-3, scale=top)
    case.near(got.sum(axis=1), np.full(num, mat.sum()), "mass",
              "mass of the projections", rtol=2e-3)
    # axis-aligned projections are plain sums
    axis = sim.make_sinogram(mat, np.asarray([0.0, np.pi / 2, np.pi]), **kw)
    case.near(axis[0], mat.sum(axis=0), "zero", "0 degree", rtol=2e-3,
              scale=top)
    pos = np.arange(n)
    flip = (2 * int(np.ceil(c)) - pos) if n % 2 == 0 else n - 1 - pos
    ok = (flip >= 0) & (flip < n)
    case.near(axis[1][ok], mat.sum(axis=1)[flip[ok]], "right",
              "90 degrees", rtol=2e-3, scale=top)
    case.near(axis[2][ok], axis[0][flip[ok]], "half-turn", "180 degrees",
              rtol=2e-3, scale=top)
    # one angle at a time; linear
    i = case.integer(0, num - 1)
    one = sim.make_sinogram(mat, np.asarray([angles[i]]), **kw)
    case.near(one[0], got[i], "single", "single angle", rtol=1e-6, scale=top)
    other = smooth(case.rng, (n, n), 3)
    mix = sim.make_sinogram(2.0 * mat - 0.5 * other, given, **kw)
    two = sim.make_sinogram(other, given, **kw)
    case.near(mix, 2.0 * got - 0.5 * two, "linear", "combination", rtol=1e-5,
              scale=float(np.abs(mix).max() + np.abs(two).max()))
    # objects which reach the border are continued as requested
    mode = case.choice(["constant", "edge", "reflect", "mean", "linear_ramp",
                        "wrap"], "border")
    rate = case.choice([0.5, 0.25, 0.8, 0.0], "border rate")
    full = other + 3.0
    pad = int(rate * n)
    wide = np.pad(full, pad, mode=mode)
    ref = sim.make_sinogram(wide, given, pad_rate=0)[:, pad:n + pad]
    got = sim.make_sinogram(full, given, pad_rate=rate, pad_mode=mode)
    case.near(got, ref, "border", "continued by " + mode, rtol=1e-5)
    got = sim.make_sinogram(full, np.zeros(1), pad_rate=rate, pad_mode=mode)
    if n % 2:
        case.near(got[0], wide.sum(axis=0)[pad:n + pad], "border-sum",
                  "0 degree, continued by " + mode, rtol=2e-3)
    case.raises(ValueError, "square", "oblong image", sim.make_sinogram,
                mat[1:], given)
    with warnings.catch_warnings(record=True) as found:
        warnings.simplefilter("always")
        sim.make_sinogram(mat[:16, :16], np.asarray([0, 90.0]))
    case.check(len(found) > 0, "degrees", "no warning for degrees")
    case.seen("sinogram", n % 2, kind, kw["pad_rate"], kw["pad_mode"],
              str(mat.dtype))


# ----------------------------------------------------------- artefacts

def positive(case, shape):
    mat = noise(case.rng, shape, 0.5, 2.0).astype(
        case.choice([np.float64, np.float32], "dtype"))
    return mat


def add_noise(case):
    shape = case.integer(60, 120), case.integer(60, 120)
    mat = positive(case, shape)
    if case.choice([0, 1], "zeros"):
        mat[:, :case.integer(1, 20)] = 0
    ratio = case.choice([0.02, 0.1, 0.5], "ratio")
    before = digest(mat)
    got = sim.add_noise(mat, ratio)
    case.check(digest(mat) == before, "mutated", "input changed")
    case.require(got.shape == shape, "shape", "{}".format(got.shape))
    level = mat[mat != 0].mean() * ratio
    dif = (got - mat.astype(np.float64)) / level
    tol = 6 * 0.5 / np.sqrt(dif.size)
    case.check(abs(dif.mean() - 1) < tol, "mean",
               "mean of {:.4f} levels".format(dif.mean()))
    case.check(abs(dif.std() - 0.5) < tol, "std",
               "deviation of {:.4f} levels".format(dif.std()))
    flat = (dif.ravel() - 1) / 0.5
    case.check(abs(np.mean(flat ** 4) - 3) < 8 * np.sqrt(96 / dif.size),
               "normal", "fourth moment of {:.2f}".format(np.mean(flat ** 4)))
    case.check(abs(np.mean(flat[1:] * flat[:-1])) < 6 / np.sqrt(dif.size),
               "independent", "neighbours are correlated")
    case.check(np.any(sim.add_noise(mat, ratio) != got), "random",
               "same noise twice")
    case.near(sim.add_noise(mat, 0.0), mat, "none", "no noise", atol=1e-12)
    case.seen("noise", ratio, str(mat.dtype))


def stripes(case):
    shape = case.integer(20, 100), case.integer(20, 60)
    mat = positive(case, shape)
    kind = case.cycle(["partial", "full", "dead", "fluctuating"], "type")
    size = case.integer(1, 5, "size")
    pos = case.choice([0, -5, shape[1] - size, shape[1] + 4,
                       case.integer(0, shape[1] - size)], "position")
    ratio = case.choice([0.0, 0.2, 0.55, 1.0, 1.7, -0.3], "ratio")
    before = digest(mat)
    got = sim.add_stripe_artifact(mat, size, pos, ratio, kind)
    case.check(digest(mat) == before, "mutated", "input changed")
    case.require(got.shape == shape and got.dtype == mat.dtype, "shape",
                 "{} {}".format(got.shape, got.dtype))
    p = min(max(pos, 0), shape[1] - size)
    s = min(max(ratio, 0.0), 1.0)
    rest = np.ones(shape[1], bool)
    rest[p:p + size] = False
    case.equal(got[:, rest], mat[:, rest], "rest",
               "columns outside the stripe")
    old = mat[:, ~rest].astype(np.float64)
    new = got[:, ~rest].astype(np.float64)
    if kind == "full":
        case.near(new, (1 - s) * old, "full", "full stripe", atol=1e-6)
    elif kind == "dead":
        case.near(new, np.full(new.shape, s * mat.max()), "dead",
                  "dead stripe", atol=1e-6)
    elif kind == "fluctuating":
        level = mat[mat != 0].mean() * s
        dif = new - old
        case.check(abs(dif.std() - level) < 6 * level / np.sqrt(dif.size)
                   + 1e-6, "fluctuating", "deviation {:.3f} of {:.3f}".format(
                       dif.std(), level))
        case.check(abs(dif.mean()) < 6 * level / np.sqrt(dif.size) + 1e-6,
                   "fluctuating-mean", "{:.3f}".format(dif.mean()))
        if size > 1 and s > 0:
            case.check(np.abs(dif[:, 0] - dif[:, 1]).max() > 1e-4,
                       "fluctuating-columns", "same noise in each column")
    else:
        n = shape[0]
        start = int((1 - s) * n)
        gain = np.ones(n)
        gain[start:] = np.linspace(1, 1 - s, n - start)
        rank = np.argsort(np.argsort(old, axis=0), axis=0)
        if np.diff(np.sort(old, axis=0), axis=0).min() > 0:
            case.near(new, old * gain[rank], "partial", "partial stripe",
                      atol=1e-6)
    case.seen("stripe", kind, size, s, pos < 0, pos >= shape[1] - size)


def xray(case):
    shape = case.integer(2, 40), case.integer(2, 40)
    mat = positive(case, shape)
    if case.choice([0, 1], "integers"):
        mat = (100 * mat).astype(case.choice([np.uint8, np.int32], "int"))
    top = case.choice([None, 3.0, 400], "global_max")
    before = digest(mat)
    got = sim.convert_to_Xray_image(mat, top)
    case.check(digest(mat) == before, "mutated", "input changed")
    num = mat.max() if top is None else top
    case.near(got, np.exp(-mat.astype(np.float64) / num), "formula",
              "X-ray image", rtol=1e-6)
    case.seen("xray", top, str(mat.dtype))


def beam(n, sigma):
    return np.exp(-(np.arange(n) - (n - 1) / 2) ** 2 / 2 / sigma ** 2)


def background(case):
    shape = case.integer(5, 60), case.integer(20, 90)
    mat = positive(case, shape)
    s = case.choice([0.0, 0.1, 0.2, 0.4, 0.6], "strength")
    before = digest(mat)
    got = sim.add_background_fluctuation(mat, s)
    case.check(digest(mat) == before, "mutated", "input changed")
    case.require(got.shape == shape, "shape", "{}".format(got.shape))
    n = shape[1]
    prof = got.astype(np.float64) / mat
    case.check(prof.min() > -1e-9 and prof.max() < 1 + 1e-5, "range",
               "factors of {} to {}".format(prof.min(), prof.max()))
    if s == 0:
        case.near(prof, np.tile(beam(n, .5 * n), (shape[0], 1)), "none",
                  "steady beam", rtol=1e-5)
        case.seen("beam", s, n % 2)
        return
    most = s * n * 0.25 + 1
    for row in prof:
        # every row: a rolled Gaussian; its width from the largest values
        best = None
        for shift in range(-int(most) - 1, int(most) + 2):
            line = np.roll(row, -shift)
            low, mid = line[n // 4], line[n // 2]
            a, b = n // 4 - (n - 1) / 2, n // 2 - (n - 1) / 2
            if not 0 < low < mid:
                continue
            sigma = np.sqrt((a * a - b * b) / 2 / np.log(mid / low))
            err = np.abs(line - beam(n, sigma)).max()
            if best is None or err < best[0]:
                best = err, sigma, shift
        case.require(best is not None and best[0] < 2e-4, "profile",
                     "not a shifted Gaussian beam: {}".format(best))
        case.check(abs(best[2]) <= most, "shift", "shift of {}".format(
            best[2]))
        case.check(.5 * (1 - s) * n * .999 <= best[1] <= .5 * n * 1.001,
                   "width", "width of {:.3f} columns".format(best[1] / n))
    case.check(shape[0] < 5 or prof.std(axis=0).max() > 0, "rows",
               "all rows are the same")
    case.seen("beam", s, n % 2)


def register(ctx):
    ctx.family("shapes", 360, 8000, shapes)
    ctx.family("targets", 24, 300, targets)
    ctx.family("face", 40, 160, face)
    ctx.family("sinogram", 100, 1600, sinogram)
    ctx.family("add_noise", 60, 1200, add_noise)
    ctx.family("stripes", 240, 6000, stripes)
    ctx.family("xray", 60, 1200, xray)
    ctx.family("background", 60, 800, background)
    ctx.expect_tags("shapes", 15)
    ctx.expect_tags("targets", 4)
    ctx.expect_tags("sinogram", 15)
    ctx.expect_tags("stripes", 40)
