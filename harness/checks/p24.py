"""P24: slices of vertically overlapping grid rows."""
import numpy as np
import algotom.util.utility as util
from vlib import noise, digest

RULE = ("a class is one (rows, side, overlap pattern, kind of request) "
        "combination; every slice of every sampled grid is requested alone "
        "and inside ranges")
ASSUMPTIONS = ["integer overlaps, at most two rows share a slice"]


def grid(case):
    rows = case.cycle([2, 3, 4, 5, 2, 3], "rows")
    height = case.integer(8, 40, "height")
    side = case.choice([0, 1], "side")
    kind = case.choice(["any", "small", "zero", "one", "half"], "kind")
    limit = height // 2
    overs = []
    for _ in range(rows - 1):
        val = {"any": case.integer(2, limit), "small": case.integer(2, 3),
               "zero": case.choice([0, 2, 4]), "one": case.choice([1, 2, 3]),
               "half": limit}[kind]
        overs.append(val)
    case.note(overlaps=overs)
    cols = case.integer(1, 3)
    dtype = case.choice([np.int16, np.int64, np.float32, np.float64],
                        "dtype")
    meta = np.zeros((rows - 1, cols, 2), dtype=dtype)
    meta[:, :, 0] = np.asarray(overs)[:, None]
    meta[:, :, 1] = side
    return rows, height, side, overs, meta, kind


def oracle(idx, rows, height, side, overs):
    """Grid rows (row, slice, weight) of one slice of the whole volume."""
    found = []
    for i in range(rows):
        first = i * height - sum(overs[:i])
        if first <= idx < first + height:
            pos = idx - first
            found.append([i, pos if side == 1 else height - 1 - pos, 1.0])
    if len(found) == 2:
        i = found[0][0]
        first = (i + 1) * height - sum(overs[:i + 1])
        num = overs[i]
        down = 0.5 if num == 1 else (idx - first) / (num - 1.0)
        found[0][2], found[1][2] = 1.0 - down, down
    return found


def slices(case):
    rows, height, side, overs, meta, kind = grid(case)
    total = rows * height - sum(overs)
    before = digest(meta)
    shared = 0
    for idx in range(total):
        got = util.locate_slice(idx, height, meta)
        want = oracle(idx, rows, height, side, overs)
        case.require(len(got) == len(want) >= 1, "rows-found",
                     "slice {}: {} rows".format(idx, len(got)))
        case.near(np.asarray([[float(v) for v in g] for g in got]), want,
                  "location", "slice {}".format(idx), rtol=0, atol=1e-5)
        shared += len(got) == 2
    case.check(len(util.locate_slice(total, height, meta)) == 0
               and len(util.locate_slice(-1, height, meta)) == 0,
               "outside", "rows found for slices outside the volume")
    case.check(digest(meta) == before, "mutated", "the metadata changed")
    case.count("slices", total)
    case.count("shared", shared)
    case.seen(rows, side, kind, len(set(overs)) > 1)


def check_chunk(case, grid_, start, stop):
    rows, height, side, overs, meta, kind = grid_
    got = util.locate_slice_chunk(start, stop, height, meta)
    flat = {}
    last = -1
    for part in got:
        case.check(len({p[0] for p in part}) == 1, "mixed-rows",
                   "one list of several grid rows")
        case.check(part[0][0] > last, "order", "grid rows not in order")
        last = part[0][0]
        step = 1 if side == 1 else -1
        pos = [int(p[1]) for p in part]
        case.check(all(b - a == step for a, b in zip(pos, pos[1:])), "order",
                   "slices of a row not consecutive")
        for row, pos, fact in part:
            first = row * height - sum(overs[:row])
            idx = first + (int(pos) if side == 1 else height - 1 - int(pos))
            flat.setdefault(idx, []).append([row, int(pos), float(fact)])
    case.check(sorted(flat) == list(range(start, stop)), "coverage",
               "range {}:{} covered by {}".format(start, stop, sorted(flat)))
    for idx in sorted(flat):
        want = oracle(idx, rows, height, side, overs)
        case.near(flat[idx], want, "location", "slice {} of {}:{}".format(
            idx, start, stop), rtol=0, atol=1e-5)
        case.near(sum(f[2] for f in flat[idx]), 1.0, "unity",
                  "weights of slice {}".format(idx), rtol=0, atol=1e-5)
    return len(got)


def chunks(case):
    grid_ = grid(case)
    rows, height, side, overs, meta, kind = grid_
    total = rows * height - sum(overs)
    before = digest(meta)
    parts = check_chunk(case, grid_, 0, total)
    case.check(parts == rows, "rows-found", "{} of {} rows".format(
        parts, rows))
    for _ in range(6):
        start = case.integer(0, total - 1)
        stop = case.integer(start + 1, total)
        check_chunk(case, grid_, start, stop)
        case.count("ranges")
    case.check(len(util.locate_slice_chunk(5, 5, height, meta)) == 0,
               "empty", "an empty range found slices")
    case.raises(ValueError, "reversed", "stop before start",
                util.locate_slice_chunk, 5, 4, height, meta)
    case.check(digest(meta) == before, "mutated", "the metadata changed")
    case.seen(rows, side, kind, len(set(overs)) > 1)


def volume(case):
    """The rows cut from a volume give the volume back."""
    rows, height, side, overs, meta, kind = grid(case)
    total = rows * height - sum(overs)
    vol = noise(case.rng, (total, 5), 0.5, 2.0).astype(np.float64)
    cells = []
    for i in range(rows):
        first = i * height - sum(overs[:i])
        cell = vol[first: first + height]
        cells.append(cell if side == 1 else cell[::-1])
    start = case.integer(0, total - 2)
    stop = case.integer(start + 1, total)
    back = np.zeros((stop - start, 5))
    for part in util.locate_slice_chunk(start, stop, height, meta):
        for row, pos, fact in part:
            first = row * height - sum(overs[:row])
            idx = first + (pos if side == 1 else height - 1 - pos)
            back[idx - start] += cells[row][pos] * fact
    case.near(back, vol[start:stop], "volume", "volume put together")
    one = case.integer(0, total - 1)
    got = sum(cells[row][pos] * fact for row, pos, fact
              in util.locate_slice(one, height, meta))
    case.near(got, vol[one], "slice", "slice put together")
    case.seen(rows, side, kind)


def empty_cells(case):
    """Overlaps of cells without a sample are copied from neighbours."""
    nrow, ncol = case.integer(1, 6), case.integer(1, 6)
    share = case.choice([0.2, 0.5, 0.8])
    meta = np.zeros((nrow, ncol, 2), dtype=case.choice([np.float32,
                                                        np.int16]))
    meta[:, :, 0] = case.rng.integers(10, 99, (nrow, ncol))
    meta[:, :, 1] = case.rng.integers(0, 2, (nrow, ncol))
    hole = case.rng.random((nrow, ncol)) < share
    meta[hole] = 0
    case.note(meta=meta[:, :, 0].tolist())
    before = digest(meta)
    out = {}
    for way in ("horizontal", "vertical"):
        got = util.fix_non_sample_areas(meta, direction=way)
        out[way] = got
        case.check(digest(meta) == before, "mutated", "the input changed")
        case.require(got.shape == meta.shape, "shape", "{}".format(got.shape))
        case.equal(got[~hole], meta[~hole], "measured",
                   "measured overlaps changed")
        pairs = {tuple(v) for v in meta[~hole].tolist()}
        for i, j in zip(*np.nonzero(hole)):
            near = [(i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)]
            near = [n for n in near if 0 <= n[0] < nrow and 0 <= n[1] < ncol]
            val = tuple(got[i, j].tolist())
            known = [tuple(meta[n].tolist()) for n in near if not hole[n]]
            # neighbours in the preferred direction go first
            first = [tuple(meta[n].tolist()) for n in near if not hole[n]
                     and (n[1] == j if way == "horizontal" else n[0] == i)]
            if first:
                case.check(val in first, "neighbour", "cell {} {} is not one "
                           "of {}".format((i, j), val, first))
            elif known:
                case.check(val in known, "neighbour", "cell {} {} is not one "
                           "of {}".format((i, j), val, known))
            else:
                case.check(val in pairs or val == (0, 0), "invented",
                           "cell {} got {}".format((i, j), val))
                if val != (0, 0):
                    beside = [tuple(got[n].tolist()) for n in near]
                    case.check(val in beside, "far", "cell {} got {} of none "
                               "of its neighbours".format((i, j), val))
        case.count("holes", int(hole.sum()))
    swap = util.fix_non_sample_areas(np.swapaxes(meta, 0, 1).copy(),
                                     direction="vertical")
    case.equal(out["horizontal"], np.swapaxes(swap, 0, 1), "transposed",
               "transposed grid in the other direction")
    again = util.fix_non_sample_areas(out["horizontal"])
    if np.all(out["horizontal"][:, :, 0] != 0):
        case.equal(again, out["horizontal"], "idempotent", "second run")
    case.seen(nrow > 1, ncol > 1, int(hole.sum()) > 0, share)


def spiral(case):
    step = case.uniform(2.0, 12.0, "step")
    num = case.integer(1, 60, "num")
    shape = case.choice([1.0, 0.0, 0.5, 2.3], "shape")
    hei, wid = case.integer(60, 400), case.integer(60, 400)
    phi = 2 * np.pi * (1 + np.sqrt(5)) / 2 + shape * np.pi
    k = np.arange(num)
    want = np.stack([step * np.sqrt(k) * np.cos(k * phi),
                     step * np.sqrt(k) * np.sin(k * phi)], axis=1)
    out = (np.abs(want[:, 0]) > wid // 2) | (np.abs(want[:, 1]) > hei // 2)
    if out.any():
        case.raises(ValueError, "outside", "positions out of the field",
                    util.generate_spiral_positions, step, num, hei, wid,
                    shape)
    else:
        got = util.generate_spiral_positions(step, num, hei, wid, shape)
        case.near(got, want, "positions", "spiral", rtol=1e-5)
        case.check(np.all(np.abs(got[:, 0]) <= wid / 2) and np.all(
            np.abs(got[:, 1]) <= hei / 2), "field", "out of the field")
        far = np.linalg.norm(got, axis=1)
        case.near(far, step * np.sqrt(k), "radius", "radii", rtol=1e-5)
    case.seen("out" if out.any() else "in", shape)


def register(ctx):
    ctx.family("slices", 60, 1500, slices)
    ctx.family("chunks", 120, 3000, chunks)
    ctx.family("volume", 120, 3000, volume)
    ctx.family("empty_cells", 120, 4000, empty_cells)
    ctx.family("spiral", 60, 1000, spiral)
    ctx.expect_tags("slices", 12)
    ctx.expect_tags("chunks", 20)
    ctx.expect_tags("volume", 16)
    ctx.expect_tags("empty_cells", 5)
    ctx.expect_tags("spiral", 5)
