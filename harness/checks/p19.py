"""P19: vertical slices equal the same cut of the reconstructed volume."""
import os
import h5py
import numpy as np
import scipy.ndimage as ndi
import algotom.rec.vertrec as vr
import algotom.rec.reconstruction as rec
import algotom.io.loadersaver as losa
from checks.p18 import ref_filter, smooth_win, energy, edges, spread, \
    follows
from vlib import noise, smooth, corr

RULE = ("a class is one (entry point, line angle range, slice parity, crop, "
        "projection range, chunking, flat/dark dtype, filter placement, mask, "
        "source) combination compared with an independent line "
        "back-projection or with a cut of the horizontal volume")
ASSUMPTIONS = ["CPU kernels", "projections, flat and dark finite"]


def line(idx, alpha, width):
    """Points of the slice, rotated about the middle pixel by alpha."""
    mid = width // 2
    t = np.arange(width) - mid
    s = idx - mid
    a = np.deg2rad(alpha)
    return (t * np.cos(a) + s * np.sin(a), t * np.sin(a) - s * np.cos(a))


def ref_line(proj, angles, xs, ys, center, edge):
    depth, height, width = proj.shape
    out = np.zeros((height, len(xs)))
    sure = np.ones(len(xs), bool)
    for n in range(depth):
        pos = xs * np.cos(angles[n]) + ys * np.sin(angles[n]) + center
        if not edge:
            sure &= (np.abs(pos) > 1e-3) & (np.abs(pos - width + 1) > 1e-3)
            ok = (pos >= 0) & (pos <= width - 1)
        else:
            ok = np.ones(len(xs), bool)
        cpos = np.clip(pos, 0, width - 1)
        lo = np.minimum(cpos.astype(int), max(width - 2, 0))
        w = cpos - lo
        hi = np.minimum(lo + 1, width - 1)
        row = proj[n][:, lo] * (1 - w) + proj[n][:, hi] * w
        out += np.where(ok[None, :], row, 0.0)
    return out, sure


def data_set(case, small=False):
    num = case.integer(5, 24 if small else 60, "num_proj")
    height = case.integer(1, 6, "height")
    width = case.integer(16, 40, "width")
    kind = case.choice(["f4", "f8", "u2", "u1"], "dtype")
    if kind[0] == "f":
        data = case.rng.uniform(0.2, 1.0, (num, height, width)).astype(kind)
    else:
        top = 200 if kind == "u1" else 50000
        data = case.rng.integers(top // 4, top, (num, height, width)).astype(
            kind)
    return data, kind


def fields(case, data, kind):
    """Flat and dark fields of the raw type; dark exceeds some samples."""
    mode = case.choice(["none", "both", "flat", "dark"], "fields")
    if kind == "u1" and mode == "none":
        mode = "both"
    flat = dark = None
    shape = data.shape[1:]
    top = float(np.max(data))
    if mode in ("both", "flat"):
        flat = (case.rng.uniform(0.8, 1.0, shape) * top).astype(kind)
    if mode in ("both", "dark"):
        dark = (case.rng.uniform(0.0, 0.35, shape) * top).astype(kind)
    if flat is not None and dark is not None and case.choice([0, 1]):
        dark[0, 0] = flat[0, 0]          # dead pixel
    return mode, flat, dark


def expected(data, flat, dark, log, crop, p0, p1):
    top, bot, left, right = crop
    h, w = data.shape[1:]
    sel = np.float64(data[p0:p1, top:h - bot, left:w - right])
    if flat is not None or dark is not None:
        f = np.ones((h, w)) if flat is None else np.float64(flat)
        d = np.zeros((h, w)) if dark is None else np.float64(dark)
        f, d = f[top:h - bot, left:w - right], d[top:h - bot, left:w - right]
        den = f - d
        den[den == 0] = 1.0
        sel = (sel - d) / den
    if log:
        sel = -np.log(np.where(sel <= 0, 1.0, sel))
    return sel


def entry(case):
    """All three entry points against an independent line reference."""
    data, kind = data_set(case)
    mode, flat, dark = fields(case, data, kind)
    num, height, width = data.shape
    crop = tuple(int(c) for c in case.choice(
        [(0, 0, 0, 0), (0, 0, 3, 2), (0, 0, 0, 5), (0, 0, 4, 0)], "crop"))
    if height > 2:
        crop = (case.integer(0, 1), case.integer(0, 1)) + crop[2:]
        case.note(crop=crop)
    p0 = case.choice([0, 0, 1, 2], "proj_start")
    p1 = case.choice([-1, num, num - 1], "proj_stop")
    stop = num if p1 == -1 else p1
    nproj = stop - p0
    wid = width - crop[2] - crop[3]
    center = case.choice([case.uniform(0, wid - 1), (wid - 1) / 2.0,
                          float(wid // 2)], "center")
    log = case.choice([True, False], "log")
    if log and kind == "f4" and mode == "none" and case.choice([0, 1]):
        data[case.rng.random(data.shape) < 0.02] = case.choice([0.0, -0.2])
        case.note(nonpositive=1)
    ramp = case.cycle(["before", "after", None], "ramp")
    name = case.choice([None, "hann", "parzen"], "filter")
    pad = case.choice([None, 0, 6], "pad")
    pmode = case.choice(["edge", "reflect"], "pad_mode")
    masking = case.choice([False, False, True], "masking")
    chunk = case.choice([1, 2, 7, 30, None, 1000, nproj - 1], "chunk")
    angles = None if case.choice([0, 1]) else \
        case.uniform(-1, 1) + np.linspace(0, np.pi * case.choice(
            [1.0, 2.0, -1.0]), nproj)
    true = np.linspace(0, np.pi, nproj) if angles is None else angles
    src = data
    if case.choice([0, 0, 1], "hdf"):
        src = h5py.File(os.path.join(case.dir, "a.h5"), "w").create_dataset(
            "d", data=data)
    sel = expected(data, flat, dark, log, crop, p0, stop)
    npad = min(int(0.15 * wid), 150) if pad is None else pad
    if ramp == "before":
        sel = np.stack([ref_filter(s, name, npad, pmode) for s in sel])

    def want(idx, alpha):
        xs, ys = line(idx, alpha, wid)
        img, sure = ref_line(sel, true, xs, ys, center, ramp != "before")
        if ramp == "after":
            full = wid + 2 * npad
            dist = np.arange(full) - int(np.ceil((full - 1) / 2))
            odd = dist % 2 != 0
            kern = np.where(dist == 0, 0.25, 0.0)
            kern[odd] = -1.0 / (np.pi * dist[odd]) ** 2
            win = np.abs(np.fft.fft(kern)) * np.fft.ifftshift(
                smooth_win(name, full))
            ext = np.pad(img, ((0, 0), (npad, npad)), mode=pmode)
            img = np.real(np.fft.ifft(np.fft.fft(ext, axis=1) * win, axis=1))[
                :, npad:npad + wid]
        img = img * np.pi / (nproj - 1)
        if masking:
            rad = int(min(center, wid - center))
            cut = (wid - 2 * rad) // 2
            keep = np.zeros(wid)
            keep[cut:cut + 2 * rad] = 1
            img = img * keep
        return img, sure

    opt = dict(flat_field=flat, dark_field=dark, angles=angles, crop=crop,
               proj_start=p0, proj_stop=p1, chunk_size=chunk,
               ramp_filter=ramp, filter_name=name, pad=pad, pad_mode=pmode,
               apply_log=log, gpu=False, ncore=case.choice([1, 3, None]),
               show_progress=False, masking=masking)

    def compare(got, idx, alpha, key):
        ref, sure = want(idx, alpha)
        got = np.asarray(got)
        if got.shape != ref.shape:
            case.fail(key, "shape {} instead of {}".format(got.shape,
                                                           ref.shape))
            return
        case.near(np.where(sure, got, 0), np.where(sure, ref, 0), key,
                  "slice {} at {} degrees".format(idx, alpha), rtol=3e-3,
                  scale=np.abs(ref).max() + 1e-6)

    alphas = [0.0, 90.0, 180.0, 45.0, 135.0, case.uniform(0, 180),
              case.uniform(46, 134)]
    alpha = float(case.choice(alphas, "alpha"))
    idx = case.integer(0, wid - 1, "slice")
    compare(vr.vertical_reconstruction(src, idx, center, alpha=alpha, **opt),
            idx, alpha, "single")
    step = case.choice([1, 2, 3], "step")
    i0 = case.integer(0, wid - 1)
    i1 = min(wid - 1, i0 + case.integer(0, 5))
    stop_idx = i1
    if wid - 1 - i0 < 8 and case.choice([0, 1]):
        i1, stop_idx = wid - 1, -1
    got = vr.vertical_reconstruction_multiple(
        src, i0, stop_idx, center, alpha=alpha, step_index=step, **opt)
    lst = list(range(i0, i1 + 1, step))
    case.require(len(got) == len(lst), "number", "{} slices of {}".format(
        len(got), len(lst)))
    for g, i in zip(got, lst):
        compare(g, i, alpha, "multiple")
    ids = [case.integer(0, wid - 1) for _ in range(3)]
    als = [float(case.choice(alphas)) for _ in range(3)]
    got = vr.vertical_reconstruction_different_angles(src, ids, als, center,
                                                      **opt)
    case.require(len(got) == 3, "number", "{} slices of 3".format(len(got)))
    for g, i, a in zip(got, ids, als):
        compare(g, i, a, "different-angles")
    case.seen("entry", ramp, mode, kind, crop[2:], p0, p1, chunk, masking,
              log, src is not data)
    bad = case.choice(["index", "center", "angles", "alpha", "crop", "flat"])
    o, i, c, a = dict(opt), idx, center, alpha
    if bad == "index":
        i = case.choice([-1, wid])
    elif bad == "center":
        c = case.choice([-0.5, wid - 0.5])
    elif bad == "angles":
        o["angles"] = np.zeros(nproj + case.choice([1, -1]))
    elif bad == "alpha":
        a = case.choice([-1.0, 181.0])
    elif bad == "crop":
        o["crop"] = (0, 0, width, 0)
    else:
        o["flat_field"] = np.ones((height + 1, width))
    case.raises(ValueError, "refuse-" + bad, bad, vr.vertical_reconstruction,
                src, i, c, alpha=a, **o)
    if src is not data:
        src.file.close()


def volume(case):
    """Rows and columns of the volume reconstructed slice by slice."""
    num, height = case.integer(31, 60, "num"), case.integer(1, 5, "height")
    width = 2 * case.integer(12, 24) + 1
    case.note(width=width)
    data = case.rng.uniform(0.2, 1.0, (num, height, width)).astype("f4")
    center = (width - 1) / 2.0 + case.uniform(-5, 5, "off")
    angles = None if case.choice([0, 1]) else \
        np.linspace(0, np.pi, num) + case.uniform(0, 2)
    opt = dict(angles=angles, filter_name=case.choice([None, "hann"]),
               pad=case.choice([None, 4]), apply_log=True, gpu=False)
    vol = rec.fbp_reconstruction(data, center, ratio=None, ncore=2, **opt)
    idx = case.integer(0, width - 1, "slice")
    same = dict(ramp_filter="before", show_progress=False,
                chunk_size=case.choice([7, 30, None], "chunk"), **opt)
    alpha = case.cycle([0.0, 90.0, 180.0], "alpha")
    got = vr.vertical_reconstruction(data, idx, center, alpha=alpha, **same)
    # rays that end within rounding of the detector belong to either side
    if alpha == 0.0:
        cut = vol[idx]
    elif alpha == 90.0:
        cut = vol[::-1, :, idx].T
    else:
        cut = vol[width - 1 - idx][:, ::-1]
    xs, ys = line(idx, alpha, width)
    true = np.linspace(0, np.pi, num) if angles is None else angles
    sure = ref_line(np.zeros((num, 1, width)), true, xs, ys, center,
                    False)[1]
    case.near(np.where(sure, got, 0), np.where(sure, cut, 0), "volume-cut",
              "slice {} at {}".format(idx, alpha), rtol=2e-3)
    case.seen("volume", alpha, angles is None, same["chunk_size"])


def centre(case):
    """Metric lists belong to the slices they claim; minimum returned."""
    num, height, width = 61, case.integer(8, 14), case.integer(40, 56, "wid")
    cen = (width - 1) / 2.0 + case.uniform(-3, 3, "off")
    ang = np.linspace(0, np.pi, num)
    u = np.arange(width) - cen
    proj = np.zeros((num, height, width))
    z = np.arange(height)[None, :, None]
    for _ in range(6):
        rad = case.uniform(2.0, 4.0)
        dist = case.uniform(0, 0.5 * min(cen, width - cen) - 0.5)
        phi = case.uniform(0, 6.3)
        s = dist * np.cos(ang + phi)
        prof = np.exp(-(u[None] - s[:, None]) ** 2 / (0.5 * rad ** 2))
        wz = np.exp(-(z - case.uniform(0, height)) ** 2 / 8.0)
        proj += prof[:, None, :] * wz
    data = np.float32(np.exp(-0.3 * proj))
    lo, hi = np.floor(cen) - 4, np.floor(cen) + 4
    step = case.choice([1.0, 0.5, 1], "step")
    if isinstance(step, int):
        lo, hi = int(lo), int(hi)
    idx = int(cen)
    kind = case.cycle(["custom", "entropy", "sharpness", "autocorrelation"],
                      "metric")
    sigma = case.choice([0, 2], "sigma")
    alpha = case.choice([0.0, 30.0, 90.0], "alpha")
    masking = case.choice([True, False], "masking")
    ramp = case.choice(["after", "before"], "ramp")
    opt = dict(alpha=alpha, ramp_filter=ramp, sigma=sigma, gpu=False,
               show_progress=False, masking=masking, chunk_size=20, ncore=2)
    if case.choice([True, False], "angles"):
        opt["angles"] = np.pi * np.linspace(0, 1, num) ** 1.3 + 0.2
    opt["apply_log"] = case.choice([True, True, False], "log")
    if opt["apply_log"] and not sigma and case.choice([0, 0, 1], "dead"):
        data[case.rng.random(data.shape) < 0.01] = case.choice([0.0, -0.1])
    kw = dict(metric=kind)
    if kind == "custom":
        kw = dict(metric_function=lambda img, a: a * float(np.std(img)),
                  a=3.0)
    lst, val = vr.find_center_vertical_slice(data, idx, lo, hi, step,
                                             return_metric=True, **kw, **opt)
    case.near(lst, np.arange(lo, hi + step / 2, step), "candidates",
              "searched centres")
    if isinstance(step, int):
        _, same = vr.find_center_vertical_slice(
            data, idx, float(lo), float(hi), 1.0, return_metric=True, **kw,
            **opt)
        case.near(val, same, "whole-centres", "metrics at centres given as "
                  "whole numbers", rtol=1e-6)
    best = vr.find_center_vertical_slice(data, idx, lo, hi, step, **kw, **opt)
    case.equal(best, lst[int(np.argmin(val))], "minimum", "best centre")
    inv = vr.find_center_vertical_slice(data, idx, lo, hi, step,
                                        invert_metric=True, **kw, **opt)
    case.equal(inv, lst[int(np.argmax(val))], "inverted", "inverted metric")
    same = dict(gpu=False, show_progress=False, alpha=alpha,
                ramp_filter=ramp, angles=opt.get("angles"),
                apply_log=opt["apply_log"], filter_name="hann")
    if kind != "custom":
        imgs = []
        vr.find_center_vertical_slice(
            data, idx, lo, hi, step, return_metric=True,
            metric_function=lambda img: imgs.append(np.array(img)) or 0.0,
            **opt)
        func = {"sharpness": edges, "autocorrelation": energy}.get(kind)
        if func is None:
            src = ndi.gaussian_filter(data, (0, sigma, sigma)) if sigma \
                else data
            mid = vr.vertical_reconstruction(src, idx, np.mean(lst), **same)
            func = spread(mid.min(), mid.max())
        follows(case, "named-metric", val, [func(img) for img in imgs], kind)
    if kind == "custom" and not masking:
        src = ndi.gaussian_filter(data, (0, sigma, sigma)) if sigma else data
        for i in (0, len(lst) // 2, len(lst) - 1):
            img = vr.vertical_reconstruction(src, idx, lst[i], **same)
            case.near(val[i], 3.0 * np.std(img), "metric-value",
                      "centre {}".format(lst[i]), rtol=1e-3)
    case.seen("centre", kind, sigma, alpha, masking, ramp)


def visual(case):
    data, _ = data_set(case, small=True)
    data = np.float32(data) / data.max()
    num, height, width = data.shape
    lo = case.integer(5, 8, "start")
    step = case.choice([1.0, 0.5], "step")
    hi = lo + case.integer(0, 3)
    idx = case.integer(0, width - 1, "slice")
    alpha = case.choice([0.0, 70.0, 90.0], "alpha")
    ramp = case.choice(["after", "before"], "ramp")
    log = case.choice([True, False], "log")
    ang = None if case.choice([0, 1], "angles") else \
        np.pi * np.linspace(0, 1, num) ** 1.3 + 0.2
    if log and case.choice([0, 1], "dead"):
        data[case.rng.random(data.shape) < 0.01] = 0.0
    folder = vr.find_center_visual_vertical_slices(
        data, case.dir, idx, lo, hi, step, alpha=alpha, ramp_filter=ramp,
        angles=ang,
        apply_log=log, gpu=False, ncore=2, prefer="threads", display=False,
        masking=False, chunk_size=9)
    want = {"center_{:.2f}.tif".format(c): c
            for c in np.arange(lo, hi + step / 2, step)}
    names = set(os.listdir(folder))
    case.check(names == set(want), "files", "{} instead of {}".format(
        sorted(names), sorted(want)))
    for name in names & set(want):
        ref = vr.vertical_reconstruction(
            data, idx, want[name], alpha=alpha, ramp_filter=ramp, angles=ang,
            apply_log=log, gpu=False, show_progress=False)
        case.near(losa.load_image(os.path.join(folder, name)), ref, "slice",
                  name, rtol=1e-3)
    case.seen("visual", alpha, ramp, log, step)


def register(ctx):
    ctx.family("entry", 60, 2000, entry)
    ctx.family("volume", 18, 600, volume)
    ctx.family("centre", 12, 240, centre)
    ctx.family("visual", 8, 160, visual)
    ctx.expect_tags("entry", 30)
    ctx.expect_tags("volume", 6)
    ctx.expect_tags("centre", 8)
    ctx.expect_tags("visual", 5)
