"""P16: zinger and blob removal act only on the defects."""
import numpy as np
import scipy.ndimage as ndi
import algotom.prep.removal as rem
import algotom.util.utility as util
from vlib import smooth, noise, digest

RULE = ("a class is one (method, defect position, size, data type, option) "
        "combination; the set of changed pixels is compared with the planted "
        "defects on every pixel of every image")
ASSUMPTIONS = ["backgrounds vary by less than the threshold over a "
               "neighbourhood, except where a reference formula is used"]


def place(case, shape, size, count):
    """Blocks far enough from each other, anywhere including the borders.

    The image is seen as periodic, the way the method looks at it.
    """
    mask = np.zeros(shape, dtype=bool)
    busy = np.zeros(shape, dtype=bool)
    where = set()
    for _ in range(count):
        hei = case.integer(1, size)
        wid = case.integer(1, size)
        spot = case.choice(["any", "top", "left", "bottom", "right",
                            "corner"])
        y = case.integer(0, shape[0] - hei)
        x = case.integer(0, shape[1] - wid)
        if spot in ("top", "corner"):
            y = 0
        if spot == "bottom":
            y = shape[0] - hei
        if spot in ("left", "corner"):
            x = 0
        if spot == "right":
            x = shape[1] - wid
        pad = 2 * size + 1
        rows = np.arange(y - pad, y + hei + pad) % shape[0]
        cols = np.arange(x - pad, x + wid + pad) % shape[1]
        if busy[np.ix_(rows, cols)].any():
            continue
        busy[np.ix_(rows, cols)] = True
        mask[y:y + hei, x:x + wid] = True
        where.add(spot)
    return mask, where


def neighbours(mat, size):
    """Mean of the 8 pixels at the given distance, by index arithmetic."""
    nrow, ncol = mat.shape
    total = np.zeros(mat.shape)
    for dy in (-size, 0, size):
        for dx in (-size, 0, size):
            if dy or dx:
                rows = (np.arange(nrow) + dy) % nrow
                cols = (np.arange(ncol) + dx) % ncol
                total += mat[np.ix_(rows, cols)]
    return total / 8.0


def zinger(case):
    size = case.cycle([1, 2, 3, 5], "size")
    threshold = case.choice([0.05, 0.1, 0.3], "threshold")
    shape = (case.integer(4 * size + 8, 70), case.integer(4 * size + 8, 70))
    dtype = case.choice([np.float32, np.float64, np.uint16], "dtype")
    level = 20000 if dtype == np.uint16 else 1.0
    back = smooth(case.rng, shape, 4.0, 1.0, 1.0 + 0.4 * threshold)
    back = (level * back.astype(np.float64)).astype(dtype)
    mask, where = place(case, shape, size, case.integer(0, 5))
    mat = back.copy()
    gain = case.rng.uniform(1.0 + 2.5 * threshold, 2.5, shape)
    mat[mask] = (back * gain)[mask].astype(dtype)
    case.note(shape=shape, zingers=int(mask.sum()))
    before = digest(mat)
    opt = {}
    if size * size <= size or case.choice([True, False]):
        # one-pixel size checking keeps single pixels only
        if size == 1:
            opt = {"check_size": case.choice([True, False], "check_size")}
    got = rem.remove_zinger(mat, threshold, size=size, **opt)
    case.check(digest(mat) == before, "mutated", "the input changed")
    case.require(got.shape == mat.shape and got.dtype == dtype, "shape",
                 "{} {}".format(got.shape, got.dtype))
    case.equal(got[~mask], mat[~mask], "elsewhere",
               "pixels outside the zingers")
    want = neighbours(back.astype(np.float64), size)
    case.near(got[mask], want[mask], "replaced", "pixels of the zingers",
              rtol=1e-5, atol=1.01 if dtype == np.uint16 else 1e-6)
    for axis in (0, 1):
        case.equal(rem.remove_zinger(np.flip(mat, axis), threshold, size=size,
                                     **opt)[~np.flip(mask, axis)],
                   np.flip(got, axis)[~np.flip(mask, axis)], "mirror",
                   "mirrored image")
    case.equal(rem.remove_zinger(mat.T.copy(), threshold, size=size,
                                 **opt)[~mask.T], got.T[~mask.T],
               "transposed", "transposed image")
    case.count("zinger_pixels", int(mask.sum()))
    for spot in where or ["none"]:
        case.seen("zinger", size, spot, np.dtype(dtype).name)


def components(mask):
    """4-connected components by flood filling."""
    left = {tuple(p) for p in np.argwhere(mask)}
    parts = []
    while left:
        todo = [left.pop()]
        part = []
        while todo:
            y, x = todo.pop()
            part.append((y, x))
            for n in ((y + 1, x), (y - 1, x), (y, x + 1), (y, x - 1)):
                if n in left:
                    left.remove(n)
                    todo.append(n)
        parts.append(part)
    return parts


def pick(mask, limit):
    keep = np.zeros(mask.shape, dtype=bool)
    for part in components(mask):
        if len(part) <= limit:
            for p in part:
                keep[p] = True
    return keep


def formula(case):
    """Any image: flagged pixels are those above the neighbours' mean."""
    size = case.cycle([1, 2, 3, 4], "size")
    threshold = case.uniform(0.02, 1.0, "threshold")
    shape = (case.integer(2 * size + 2, 30), case.integer(2 * size + 2, 30))
    mat = noise(case.rng, shape, 0.2, 1.5).astype(case.choice(
        [np.float32, np.float64], "dtype"))
    if case.choice([0, 0, 1], "zeros"):
        mat[case.rng.random(shape) < 0.5] = 0
    check = case.choice([False, True], "check_size")
    ave = neighbours(mat.astype(np.float64), size)
    ave[ave == 0] = 1.0
    high = mat / ave - 1.0
    if np.any(np.abs(high - threshold) < 1e-5):
        return
    flag = high > threshold
    if check:
        flag = pick(flag, size)
    want = np.where(flag, ave, mat)
    got = rem.remove_zinger(mat, threshold, size=size, check_size=check)
    case.equal(got[~flag], mat[~flag], "elsewhere", "unflagged pixels")
    case.near(got, want, "formula", "zinger removal", rtol=1e-5)
    case.count("flagged", int(flag.sum()))
    case.seen("formula", size, check, int(flag.sum()) > 0)


def selection(case):
    shape = (case.integer(1, 20), case.integer(1, 20))
    mask = case.rng.random(shape) < case.choice([0.05, 0.2, 0.4, 0.5],
                                                "density")
    if case.choice([0, 1], "shapes") and min(shape) > 9:
        # a bent chain with a larger object reaching into its box
        mask[:] = False
        mask[2:5, 2] = mask[4, 2:5] = True
        mask[2, 4:9] = True
        mask[:2, 8] = True
    dtype = case.choice([np.float32, np.uint8, bool], "dtype")
    limit = case.integer(1, 9, "limit")
    got = rem.select_zinger(mask.astype(dtype), limit)
    case.equal(got.astype(bool), pick(mask, limit), "components",
               "selected objects")
    case.check(rem.check_zinger_size(mask.astype(np.float32), limit)
               == (mask.sum() <= limit), "size", "size of an object")
    case.count("objects", len(components(mask)))
    case.seen("selection", limit, int(mask.sum()) > 0)


def blob_fill(case):
    shape = (case.integer(1, 12), case.integer(5, 60))
    dtype = case.choice([np.float32, np.float64, np.uint16], "dtype")
    slope = case.choice([True, False], "slope")
    if slope:
        mat = (1000 + 10 * np.arange(shape[1])[None, :] + 100 *
               np.arange(shape[0])[:, None]).astype(dtype)
    else:
        mat = noise(case.rng, shape, 1000, 3000).astype(dtype)
    mask = np.zeros(shape, dtype=case.choice([np.float32, bool, np.uint8],
                                             "mask"))
    spots = set()
    for i in range(shape[0]):
        for _ in range(case.integer(0, 3)):
            wid = case.integer(1, max(1, shape[1] // 3))
            pos = case.choice(["any", "left", "right", "all"])
            j = {"any": case.integer(0, shape[1] - wid), "left": 0,
                 "right": shape[1] - wid, "all": 0}[pos]
            mask[i, j:j + (shape[1] if pos == "all" else wid)] = 1
            spots.add(pos)
    bad = mat.copy()
    if slope and dtype != np.uint16:
        bad[mask > 0] *= 1.7
    mask_b, bad_b = digest(mask), digest(bad)
    case.note(shape=shape)
    for name in ("2d", "1d"):
        if name == "2d":
            got = rem.remove_blob(bad, mask)
        else:
            got = np.asarray([rem.remove_blob_1d(bad[i], mask[i])
                              for i in range(shape[0])])
        case.check(digest(mask) == mask_b, "mask-mutated-" + name,
                   "the mask changed")
        case.check(digest(bad) == bad_b, "mutated-" + name,
                   "the image changed")
        case.require(got.shape == shape and got.dtype == dtype, "shape",
                     "{} {}".format(got.shape, got.dtype))
        inner = mask > 0
        inner[:, :2] = False
        inner[:, -2:] = False
        case.equal(got[~inner], bad[~inner], "elsewhere-" + name,
                   "pixels outside the mask")
        want = bad.astype(np.float64)
        for i in range(shape[0]):
            good = np.flatnonzero(~inner[i])
            want[i, inner[i]] = np.interp(np.flatnonzero(inner[i]), good,
                                          want[i, good])
        case.near(got, want, "interpolated-" + name, "filled image",
                  rtol=1e-6, atol=1.01 if dtype == np.uint16 else 1e-3)
    case.raises(ValueError, "shape-refused", "mask of another shape",
                rem.remove_blob, bad, mask[:, 1:])
    case.count("filled", int(inner.sum()))
    for spot in spots or ["none"]:
        case.seen("fill", spot, np.dtype(dtype).name, mask.dtype.name)


def detected(line, snr):
    """Reference of the stripe detection; None where it cannot decide."""
    srt = np.sort(line)
    num = len(line)
    drop = int(0.25 * num)
    x = np.arange(num, dtype=np.float64)
    xs, ys = x[drop:num - drop - 1], srt[drop:num - drop - 1]
    slope = ((xs - xs.mean()) * (ys - ys.mean())).sum() / (
        (xs - xs.mean()) ** 2).sum()
    inter = ys.mean() - slope * xs.mean()
    end = inter + slope * x[-1]
    level = abs(end - inter)
    if abs(level - 1e-5) < 1e-7:
        return None
    if level < 1e-5:
        return "refused"
    mask = np.zeros(num, dtype=bool)
    hi, lo = abs(srt[-1] - end) / level, abs(inter - srt[0]) / level
    if min(abs(hi - snr), abs(lo - snr)) < 1e-4:
        return None
    for ok, thr, low in ((hi >= snr, end + level * snr * 0.5, False),
                         (lo >= snr, inter - level * snr * 0.5, True)):
        if ok:
            if np.abs(line - thr).min() < 1e-6:
                return None
            mask |= (line <= thr) if low else (line > thr)
    return mask


def detect(case):
    num = case.integer(8, 300, "num")
    snr = case.uniform(1.1, 6.0, "snr")
    kind = case.cycle(["uniform", "normal", "high", "low", "both", "flat"],
                      "kind")
    line = 1.0 + 0.02 * case.rng.standard_normal(num)
    if kind == "uniform":
        line = 1.0 + 0.1 * case.rng.random(num)
    if kind == "flat":
        line = np.full(num, 0.7) + 1e-9 * case.rng.random(num)
    pos = case.rng.integers(0, num, 3)
    if kind in ("high", "both"):
        line[pos[0]] += 0.8
    if kind in ("low", "both"):
        line[pos[1]] -= 0.6
    want = detected(line, snr)
    if want is None:
        return
    before = digest(line)
    if isinstance(want, str):
        case.raises(ValueError, "noise-free", "line without noise",
                    util.detect_stripe, line, snr)
    else:
        got = util.detect_stripe(line, snr)
        case.equal(got.astype(bool), want, "reference", "detected stripes")
        perm = case.rng.permutation(num)
        case.equal(util.detect_stripe(line[perm], snr), got[perm],
                   "permutation", "shuffled line")
        case.equal(util.detect_stripe(3.0 * line, snr), got, "scale",
                   "scaled line")
        case.equal(util.detect_stripe(line + 0.25, snr), got, "offset",
                   "raised line")
        if kind == "high" and num > 40 and snr < 4:
            case.check(got[pos[0]] == 1.0, "missed", "strong stripe missed")
    case.check(digest(line) == before, "mutated", "the input changed")
    case.seen("detect", kind, snr > 3)


def blob_mask(case):
    rows, cols = case.integer(30, 70), case.integer(80, 130)
    side = case.integer(3, 9, "side")
    size = 2 * side + case.integer(4, 10)
    snr = case.choice([2.5, 3.0, 4.0], "snr")
    flat = 1.0 + 0.02 * case.rng.random((rows, cols))
    if case.choice([0, 1], "profile"):
        # a slow illumination profile is not a blob
        flat *= 1.0 + 0.002 * np.sin(np.arange(cols) / 40.0)[None, :]
    blob = np.zeros((rows, cols), dtype=bool)
    spot = case.cycle(["centre", "any", "left", "right", "top", "none"],
                      "spot")
    if spot != "none":
        y = case.integer(2, rows - side - 2)
        x = case.integer(size, cols - side - size)
        if spot == "centre":
            y, x = (rows - side) // 2, (cols - side) // 2
        if spot == "top":
            y = 0
        if spot == "left":
            x = 0
        if spot == "right":
            x = cols - side
        blob[y:y + side, x:x + side] = True
    up = case.choice([True, False], "bright")
    mat = np.where(blob, flat * (1.4 if up else 0.6), flat)
    dtype = case.choice([np.float32, np.float64, np.uint16], "dtype")
    if dtype == np.uint16:
        mat = 30000 * mat
    mat = mat.astype(dtype)
    before = digest(mat)
    got = rem.generate_blob_mask(mat, size, snr)
    case.check(digest(mat) == before, "mutated", "the input changed")
    case.require(got.shape == mat.shape, "shape", "{}".format(got.shape))
    case.check(set(np.unique(got)) <= {0.0, 1.0}, "binary",
               "values {}".format(np.unique(got)[:5]))
    flag = got > 0
    core = ndi.binary_erosion(blob, np.ones((3, 3)), border_value=1)
    core[:, :2] = core[:, -2:] = False
    near = ndi.binary_dilation(blob, np.ones((5, 5)))
    if spot not in ("left", "right"):
        # the median over a row cannot tell a blob touching its end
        case.check(flag[core].all(), "missed", "{} of {} pixels of the blob "
                   "missed".format(int((~flag[core]).sum()),
                                   int(core.sum())))
        # extreme noise may be marked, but only exceptionally
        case.check(flag[~near].mean() < 0.02, "false", "{} pixels away from "
                   "the blob marked".format(int(flag[~near].sum())))
    # reference, row by row
    med = ndi.median_filter(mat, (2, 2))
    for i in case.rng.permutation(rows)[:12]:
        base = ndi.median_filter(med[i], size)
        want = detected((med[i] / base).astype(np.float64), snr)
        if want is None or isinstance(want, str):
            continue
        want[:2] = want[-2:] = False
        grown = want.copy()
        grown[1:] |= want[:-1]
        grown[:-1] |= want[1:]
        case.equal(flag[i], grown, "reference", "row {}".format(i))
        case.count("rows_compared")
    fixed = rem.remove_blob(mat, got)
    case.equal(fixed[~flag], mat[~flag], "fill-elsewhere",
               "pixels outside the mask after filling")
    if spot in ("centre", "any", "top"):
        far = np.abs(fixed.astype(np.float64) / (flat * (
            30000 if dtype == np.uint16 else 1)) - 1.0)
        case.check(far[core].max() < 0.1, "not-filled",
                   "the blob remains ({:.2f})".format(far[core].max()))
    case.seen("mask", spot, up, np.dtype(dtype).name)


def register(ctx):
    ctx.family("zinger", 240, 6000, zinger)
    ctx.family("formula", 240, 6000, formula)
    ctx.family("selection", 300, 8000, selection)
    ctx.family("blob_fill", 240, 6000, blob_fill)
    ctx.family("detect", 300, 8000, detect)
    ctx.family("blob_mask", 120, 2500, blob_mask)
    ctx.expect_tags("zinger", 30)
    ctx.expect_tags("formula", 6)
    ctx.expect_tags("selection", 10)
    ctx.expect_tags("blob_fill", 16)
    ctx.expect_tags("detect", 9)
    ctx.expect_tags("blob_mask", 15)
