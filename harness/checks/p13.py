"""P13: helical scans give the sinogram of one sample height per index."""
import os
import h5py
import numpy as np
import algotom.prep.conversion as conv
import algotom.prep.calculation as calc

RULE = ("a class is one (half/full turn, entry point, container, dtype of "
        "data and fields, crop, blob mask, explicit angles) combination "
        "whose sinogram was compared with the sample rows that produced the "
        "simulated helical dataset")
ASSUMPTIONS = ["sample linear along the vertical and horizontal direction, "
               "so that row interpolation is exact",
               "field of view exceeds the height travelled in the requested "
               "turn and one step by one pixel or more"]


def build(case, full):
    """Helical dataset of a sample known for every height and angle."""
    scan = case.cycle(["180", "360"], "scan_type")
    num_proj = case.integer(5, 14, "num_proj")
    px = case.choice([1.0, 0.5, 2.5, case.uniform(0.1, 4.0)], "pixel_size")
    travel = case.uniform(2.0, 12.0)      # rows moved in the requested turn
    # everything in whole fractions of a pixel: rows are hit exactly
    aligned = case.choice([False, False, True], "aligned")
    if aligned:
        num_proj = case.choice([5, 9], "num_proj")
        px = case.choice([1.0, 0.5, 2.0], "pixel_size")
        travel = case.choice([0.25, 0.5, 1.0], "step") * (num_proj - 1)
    pitch = travel * px * (2.0 if scan == "180" else 1.0)
    width = case.integer(8, 14)
    step_rows = pitch / (2.0 * (num_proj - 1)) / px
    height = int(np.ceil(travel + step_rows)) + case.integer(1, 8)
    crop = case.choice([(0, 0, 0, 0), (case.integer(0, 2), case.integer(0, 2),
                                       case.integer(0, 2),
                                       case.integer(0, 2))], "crop")
    height0, width0 = height + crop[0] + crop[1], width + crop[2] + crop[3]
    y_step = pitch / (2.0 * (num_proj - 1))
    fov = px * height
    y_start = case.uniform(-20, 20)
    length = pitch * case.uniform(1.3, 2.2) * (1.0 if scan == "180" else 2.0)
    if full:
        length += fov
    if aligned:
        y_start = round(y_start) * px
        length = round(length / px) * px
    y_stop = y_start + length
    total = int(np.floor(length / y_step)) + 3
    y_s = y_start + (pitch / 2 if scan == "180" else pitch)
    y_e = y_stop - (pitch / 2 if scan == "180" else pitch)
    # sample: value = a + b*row + c*x, different for every projection
    a = case.rng.uniform(-0.01, 1.0, total)
    b = case.rng.uniform(-0.1, 0.4, total) / (height0 + length / px)
    c = case.rng.uniform(-0.1, 0.5, total) / width0
    rows = np.arange(height0)[None, :, None] - crop[0]
    move = (np.arange(total) * y_step / px)[:, None, None]
    xs = np.arange(width0)[None, None, :]
    data = a[:, None, None] + b[:, None, None] * (rows + move) \
        + c[:, None, None] * xs

    def truth(index, idx):
        y_pos = y_s + (index - 1) * px
        row = (y_e + fov - y_pos) / px - 1
        x = np.arange(crop[2], crop[2] + width)
        return a[idx][:, None] + b[idx][:, None] * row + c[idx][:, None] * x

    case.note(pitch=pitch, y_start=y_start, y_stop=y_stop,
              shape=data.shape)
    para = dict(num_proj=num_proj, pixel_size=px, y_start=y_start,
                y_stop=y_stop, pitch=pitch, scan_type=scan, crop=crop)
    return data, para, truth, (height0, width0), total, y_step, fov, (y_s,
                                                                      y_e)


def fields(case, shape, data):
    """Raw counts behind the normalized values."""
    kind = case.choice(["none", "float", "uint16", "dark-only"], "fields")
    if kind == "none":
        return data.astype(case.choice([np.float32, np.float64])), {}, kind
    flat = case.rng.integers(9000, 12000, shape).astype(np.float64)
    dark = case.rng.integers(3200, 3600, shape).astype(np.float64)
    if kind == "dark-only":
        flat[:] = 1.0
        return data * (1.0 - dark) + dark, {"dark": dark}, kind
    raw = data * (flat - dark) + dark
    # values below the dark level occur behind dense samples
    if kind == "uint16":
        raw = np.clip(np.round(raw), 0, 65535)
        return (raw.astype(np.uint16), {"flat": flat.astype(np.uint16),
                                        "dark": dark.astype(np.uint16)}, kind)
    return raw, {"flat": flat, "dark": dark}, kind


def run(case, full):
    data, para, truth, shape, total, y_step, fov, _ = build(case, full)
    raw, opt, kind = fields(case, shape, data)
    mask_on = case.choice([True, False], "mask")
    crop = para["crop"]
    if mask_on:
        mask = np.zeros(shape, np.float32)
        for r in range(shape[0]):
            s = case.integer(crop[2] + 3, shape[1] - crop[3] - 4)
            mask[r, s:s + case.integer(1, 2)] = 1.0
        opt["mask"] = mask
        # blob in the optics: those pixels are useless
        if raw.dtype.kind == "f":
            raw = np.where(mask[None] > 0, raw * 0.3 + 1.0, raw)
    angles = None
    if case.choice([True, False], "angles"):
        angles = np.sort(case.rng.uniform(0, 900, total))
        opt["angles"] = angles
    else:
        angles = np.arange(total) * 180.0 / (para["num_proj"] - 1)
    obj, fin = raw, None
    if case.choice([True, False], "hdf"):
        path = os.path.join(case.dir, "helix.h5")
        with h5py.File(path, "w") as fout:
            fout["d"] = raw
        fin = h5py.File(path, "r")
        obj = fin["d"]
    last = calc.calculate_maximum_index(
        para["y_start"], para["y_stop"], para["pitch"], para["pixel_size"],
        para["scan_type"])
    case.note(max_index=last)
    scale = 3e-4 if kind == "uint16" else 3e-5
    try:
        picked = sorted({0, 1, last, case.integer(0, last),
                         case.integer(0, last)})
        for index in picked:
            if not full:
                num = para["num_proj"] if para["scan_type"] == "180" \
                    else 2 * para["num_proj"] - 1
                sino, ang = conv.generate_sinogram_helical_scan(
                    index, obj, **para, **opt)
            else:
                # only indices whose whole pass was recorded
                try:
                    sino, ang = conv.generate_full_sinogram_helical_scan(
                        index, obj, **para, **opt)
                except ValueError as err:
                    need = need_range(para, index, y_step, fov)
                    case.check(need[0] < 0 or need[1] + 2 > total - 1,
                               "full-refused", "index {} refused although "
                               "projections {} are available: {}".format(
                                   index, need, err))
                    case.seen("full-refused", para["scan_type"])
                    continue
                need = need_range(para, index, y_step, fov)
                num = len(ang)
                case.check(abs(num - (need[1] - need[0] + 1)) <= 2,
                           "full-views", "{} views while the slice stays in "
                           "the field of view for {}".format(num, need))
            case.require(sino.shape[0] == num == len(ang), "views",
                         "{} views, {} angles instead of {}".format(
                             sino.shape[0], len(ang), num))
            pos = int(np.argmin(np.abs(angles - ang[0])))
            case.near(ang, angles[pos:pos + num], "angles",
                      "angles of consecutive projections", rtol=1e-9)
            want = truth(index, np.arange(pos, pos + num))
            case.near(sino, want, "full" if full else "sinogram",
                      "index {} of {} ({} scan)".format(
                          index, last, para["scan_type"]), rtol=scale)
            case.seen("full" if full else "turn", para["scan_type"], kind,
                      mask_on, "angles" in opt, fin is not None,
                      crop != (0, 0, 0, 0))
        if not full:
            for index in (-1, last + 1):
                case.raises(ValueError, "range", "index {} outside [0, {}]"
                            .format(index, last),
                            conv.generate_sinogram_helical_scan, index, obj,
                            **para, **opt)
    finally:
        if fin is not None:
            fin.close()


def need_range(para, index, y_step, fov):
    """First and last projection that sees the slice."""
    half = para["pitch"] / 2 if para["scan_type"] == "180" else para["pitch"]
    y_s, y_e = para["y_start"] + half, para["y_stop"] - half
    y_pos = y_s + (index - 1) * para["pixel_size"]
    first = int(np.ceil((y_e - y_pos) / y_step))
    last = int(np.floor((y_e - y_pos + fov - para["pixel_size"]) / y_step))
    return first, last


def turn(case):
    run(case, False)


def whole(case):
    run(case, True)


def extent(case):
    """Advertised heights and index range."""
    y0 = case.uniform(-50, 50)
    y1 = y0 + case.uniform(20, 200)
    pitch = case.uniform(1, 8)
    px = case.uniform(0.01, 2.0)
    for scan, turn_part in (("180", 0.5), ("360", 1.0)):
        y_s, y_e = calc.calculate_reconstructable_height(y0, y1, pitch, scan)
        case.near([y_s, y_e], [y0 + turn_part * pitch, y1 - turn_part * pitch],
                  "height", "reconstructable height", rtol=1e-9)
        last = calc.calculate_maximum_index(y0, y1, pitch, px, scan)
        case.check(y_s + (last - 1) * px <= y_e + 1e-6
                   < y_s + last * px + 2e-6, "max-index",
                   "last index {} does not end the range".format(last))
        case.seen("extent", scan)
    for func, args in ((calc.calculate_reconstructable_height,
                        (y0, y1, pitch)),
                       (calc.calculate_maximum_index, (y0, y1, pitch, px))):
        case.raises(ValueError, "scan-type", "unknown scan type", func, *args,
                    "270")


def register(ctx):
    ctx.family("turn", 100, 2000, turn)
    ctx.family("whole", 70, 1400, whole)
    ctx.family("extent", 40, 400, extent)
    ctx.expect_tags("turn", 25)
    ctx.expect_tags("whole", 12)
    ctx.expect_tags("extent", 2)
