"""P11: stitched and joined images reproduce the scene they sample."""
import numpy as np
import algotom.prep.conversion as conv
from vlib import integers

RULE = ("a class is one (entry point, side, integer or fractional overlap, "
        "normalization, gain, dtype, requested width) combination whose "
        "output was compared with the continuous scene both inputs sample")
ASSUMPTIONS = ["scene varies slowly compared with a pixel, so that sub-pixel "
               "shifts are resolvable by interpolation",
               "overlap of at least one pixel; at least two rows"]


class Scene:
    """Sum of Gaussians over x, different for every row, plus a level."""

    def __init__(self, rng, nrow, width, smin=3.0):
        num = max(4, int(width / 10))
        self.x = rng.uniform(-5, width + 5, (nrow, num))
        self.s = rng.uniform(smin, 2 * smin, (nrow, num))
        self.a = rng.uniform(0.2, 1.0, (nrow, num))
        self.base = rng.uniform(0.5, 1.0, (nrow, 1))

    def __call__(self, xs):
        xs = np.asarray(xs, dtype=np.float64)
        diff = (xs[None, None, :] - self.x[:, :, None]) / self.s[:, :, None]
        return (self.a[:, :, None] * np.exp(-0.5 * diff ** 2)).sum(axis=1) \
            + self.base


def best_shift(got, scene, cols, origin, sub):
    """Error against the scene for the origin shifts a stitch may choose."""
    errs = []
    for d in sorted({0.0, sub / 2, -sub / 2, sub, -sub}):
        errs.append((np.max(np.abs(got[:, cols] -
                                   scene(cols + origin + d))), d))
    return min(errs)


def sub_of(overlap):
    return overlap - int(np.round(overlap + 1.0e-3))


def pick_width(case, lo, hi, name):
    kind = case.cycle(["int", "frac", "frac"], name + "_kind")
    val = case.integer(lo, hi)
    if kind == "frac":
        val = val + case.choice([0.5, 0.25, -0.3, case.uniform(-0.5, 0.5)])
    else:
        val = case.choice([val, float(val)])
    case.note(**{name: val})
    return val, kind


def stitch(case):
    n1, n2 = case.integer(30, 70, "n1"), case.integer(30, 70, "n2")
    nrow = case.integer(2, 5)
    overlap, kind = pick_width(case, 6, 22, "overlap")
    side = case.choice([0, 1], "side")
    norm = case.choice([True, False], "norm")
    gain = case.choice([1.0, 1.7, 0.6]) if norm else 1.0
    left_w = n1 if side == 1 else n2
    scene = Scene(case.rng, nrow, n1 + n2)
    left = scene(np.arange(left_w))
    right_w = n2 if side == 1 else n1
    right = scene(np.arange(right_w) + left_w - overlap)
    mat1, mat2 = (left, right) if side == 1 else (right, left)
    mat2 = mat2 * gain
    dtype = case.choice([np.float32, np.float64], "dtype")
    base = n1 + n2 - int(np.round(overlap + 1.0e-3))
    total = case.choice([None, base - 5, base, base + 7], "total_width")
    case.note(gain=gain)
    got = conv.stitch_image(mat1.astype(dtype), mat2.astype(dtype), overlap,
                            side, norm=norm, total_width=total)
    width = base if total is None else max(total, base)
    case.require(got.shape == (nrow, width), "stitch-width",
                 "shape {} instead of {}".format(got.shape, (nrow, width)))
    cols = np.arange(6, base - 6)
    err, _d = best_shift(got, scene, cols, 0.0, sub_of(overlap))
    tol = 1e-5 if kind == "int" else 0.012
    if norm and kind == "frac":
        tol = 0.02
    case.check(err <= tol, "stitch-scene", "scene misplaced by {:.4g} "
               "(overlap {}, side {})".format(err, overlap, side))
    if kind == "int":
        case.near(got[:, :base], scene(np.arange(base)), "stitch-exact",
                  "integer overlap", rtol=1e-5)
    if width > base:
        case.equal(got[:, base:], np.repeat(got[:, base - 1:base],
                                            width - base, axis=1),
                   "stitch-pad", "extra columns repeat the last one")
    if not norm:
        other = conv.stitch_image(mat2.astype(dtype), mat1.astype(dtype),
                                  overlap, 1 - side, norm=False,
                                  total_width=total)
        case.near(other, got, "stitch-swap", "roles of the images swapped",
                  rtol=1e-5)
    case.seen("stitch", kind, side, norm, gain, total is None, dtype.__name__)


def stitch_integer(case):
    """Camera images come as integers; weights must not be truncated."""
    n1, n2 = case.integer(8, 20), case.integer(8, 20)
    nrow = case.integer(1, 4)
    overlap = case.integer(1, 7, "overlap")
    side = case.choice([0, 1], "side")
    dtype = case.cycle([np.uint8, np.uint16, np.int32, np.float32], "dtype")
    norm = case.choice([True, False], "norm")
    mat1 = integers(case.rng, (nrow, n1), 50, 250, dtype)
    mat2 = integers(case.rng, (nrow, n2), 50, 250, dtype)
    got = conv.stitch_image(mat1, mat2, overlap, side, norm=norm)
    a, b = mat1.astype(np.float64), mat2.astype(np.float64)
    if side == 1:
        o1, o2 = a[:, n1 - overlap:], b[:, :overlap]
    else:
        o1, o2 = a[:, :overlap], b[:, n2 - overlap:]
    if norm:
        fact = o1.mean() / o2.mean()
        b, o2 = b * fact, o2 * fact
    down = np.linspace(1.0, 0.0, overlap)
    if side == 1:
        mid = o1 * down + o2 * (1 - down)
        want = np.hstack([a[:, :n1 - overlap], mid, b[:, overlap:]])
    else:
        mid = o2 * down + o1 * (1 - down)
        want = np.hstack([b[:, :n2 - overlap], mid, a[:, overlap:]])
    case.near(got, want, "ramp", "linear-ramp blend of {} images".format(
        np.dtype(dtype).name), rtol=1e-5)
    w1, w2 = conv.make_weight_matrix(mat1, mat2, overlap, side)
    again = conv.stitch_image(mat1, mat2, overlap, side, wei_mat1=w1,
                              wei_mat2=w2, norm=norm)
    case.near(again, got, "given-weights", "precomputed weights", rtol=1e-5)
    case.seen("ramp", np.dtype(dtype).name, side, norm, overlap == 1)


def join(case):
    n1, n2 = case.integer(30, 60, "n1"), case.integer(30, 60, "n2")
    nrow = case.integer(2, 5)
    gap, kind = pick_width(case, 1, 9, "gap")
    side = case.choice([0, 1], "side")
    norm = case.cycle([False, False, True], "norm")
    left_w = n1 if side == 1 else n2
    right_w = n2 if side == 1 else n1
    scene = Scene(case.rng, nrow, n1 + n2 + 10, smin=6.0)
    left = scene(np.arange(left_w))
    right = scene(np.arange(right_w) + left_w + gap)
    mat1, mat2 = (left, right) if side == 1 else (right, left)
    mat1, mat2 = mat1.astype(np.float32), mat2.astype(np.float32)
    gap_int = int(np.round(gap + 1.0e-3))
    base = n1 + n2 + gap_int
    total = case.choice([None, base - 5, base + 7], "total_width")
    got = conv.join_image(mat1, mat2, gap, side, norm=norm,
                          total_width=total)
    width = base if total is None else max(total, base)
    case.require(got.shape == (nrow, width), "join-width",
                 "shape {} instead of {}".format(got.shape, (nrow, width)))
    got = got.astype(np.float64)
    if width > base:
        case.equal(got[:, base:], np.repeat(got[:, base - 1:base],
                                            width - base, axis=1),
                   "join-pad", "extra columns repeat the last one")
    if norm:
        # image 2 is brought to the level of image 1 at the joint
        m2 = mat2 * 1.9
        got2 = conv.join_image(mat1, m2, gap, side, norm=True,
                               total_width=total)
        case.near(got2, got, "join-norm", "gain of image 2", rtol=1e-4)
        case.seen("join-norm", kind, side)
        return
    lo, hi = left_w - 4, left_w + gap_int + 5
    cols = np.concatenate([np.arange(5, lo), np.arange(hi, base - 5)])
    err, _d = best_shift(got, scene, cols, 0.0, sub_of(gap))
    tol = 1e-5 if kind == "int" else 0.008
    case.check(err <= tol, "join-scene", "scene misplaced by {:.4g} (gap {},"
               " side {})".format(err, gap, side))
    if kind == "int":
        a, b = left_w - 3, left_w + gap_int + 3
        ref = scene(np.arange(base))
        frac = (np.arange(a, b + 1) - a) / float(b - a)
        ref[:, a:b + 1] = ref[:, a:a + 1] * (1 - frac) + ref[:, b:b + 1] * frac
        case.near(got[:, :base], ref, "join-exact", "integer gap", rtol=1e-5)
    case.seen("join", kind, side, total is None)


def multiple(case):
    """Lists are handled as successive two-image operations."""
    num = case.integer(2, 4, "num")
    nrow = case.integer(2, 4)
    what = case.cycle(["stitch", "join"], "what")
    scene = Scene(case.rng, nrow, 220, smin=6.0)
    lo, hi = 100.0, 100.0 + case.integer(30, 40)
    mats = [scene(np.arange(lo, hi))]
    todo, holes = [], []
    for _ in range(num - 1):
        size = case.integer(30, 40)
        amount = case.integer(6, 12) if what == "stitch" \
            else case.integer(1, 5)
        side = case.choice([0, 1])
        step = -amount if what == "stitch" else amount
        if side == 1:
            start = hi + step
            holes.append((hi - 3, hi + amount + 3))
            hi = start + size
        else:
            start = lo - step - size
            holes.append((lo - amount - 4, lo + 3))
            lo = start
        mats.append(scene(start + np.arange(size)))
        todo.append((amount, side))
    total = case.choice([None, int(hi - lo) + 6])
    func = conv.stitch_image_multiple if what == "stitch" \
        else conv.join_image_multiple
    case.note(todo=todo, total=total)
    got = func(mats, todo, norm=False, total_width=total)
    width = int(hi - lo)
    # images of different levels: kept apart, or brought to the first one
    pair = conv.stitch_image if what == "stitch" else conv.join_image
    gains = case.rng.uniform(0.4, 2.0, num)
    gained = [m * g for m, g in zip(mats, gains)]
    for norm in (True, False):
        want = gained[0]
        for mat, (amount, side) in zip(gained[1:], todo):
            want = pair(want, mat, amount, side, norm=norm)
        out = func(gained, todo, norm=norm)
        case.near(out, want, "multiple-norm", "{} of {} images, norm {}"
                  .format(what, num, norm), rtol=1e-5)
        if what == "stitch" and norm:
            case.near(out, scene(lo + np.arange(width)) * gains[0],
                      "multiple-gain", "images of different levels",
                      rtol=1e-4)
    case.require(got.shape == (nrow, max(width, total or 0)),
                 "multiple-width", "{} instead of {}".format(
                     got.shape, (nrow, max(width, total or 0))))
    xs = lo + np.arange(width)
    keep = np.ones(width, dtype=bool)
    if what == "join":
        for (a, b) in holes:
            keep &= ~((xs >= a) & (xs <= b))
    case.near(got[:, :width][:, keep], scene(xs[keep]), "multiple-scene",
              "{} of {} images".format(what, num), rtol=1e-4)
    case.raises(ValueError, "multiple-one", "a single image", func,
                mats[:1], [])
    case.seen("multi", what, num, tuple(t[1] for t in todo))


def refuse(case):
    a = np.ones((4, 12), np.float32)
    b = np.ones((5, 12), np.float32)
    func = case.cycle([conv.stitch_image, conv.join_image])
    case.raises(ValueError, "height", "images of different heights", func, a,
                b, 4, case.index % 2)
    case.seen("refuse", func.__name__, case.index % 2)


def register(ctx):
    ctx.family("stitch", 120, 2500, stitch)
    ctx.family("stitch_integer", 80, 1500, stitch_integer)
    ctx.family("join", 90, 2000, join)
    ctx.family("multiple", 60, 1200, multiple)
    ctx.family("refuse", 4, 4, refuse)
    ctx.expect_tags("stitch", 20)
    ctx.expect_tags("stitch_integer", 12)
    ctx.expect_tags("join", 8)
    ctx.expect_tags("multiple", 10)
