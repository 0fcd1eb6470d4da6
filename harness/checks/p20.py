"""P20: phase unwrapping, surface reconstruction and speckle phase."""
import numpy as np
import scipy.ndimage as ndi
import algotom.prep.phase as ps
from vlib import smooth, noise, corr

RULE = ("a class is one (method, aspect-ratio class, parity pair, number of "
        "wraps or option) combination whose true phase, surface or signal is "
        "known")
ASSUMPTIONS = ["phase differences of neighbouring pixels below pi",
               "surfaces band-limited well below the Nyquist frequency"]


def wrap(mat):
    return np.angle(np.exp(1j * mat))


def shape_of(case, lo=20, hi=70):
    height, width = case.cycle([(40, 40), (33, 57), (64, 31), (24, 80),
                                (51, 51), (90, 22), (0, 0), (0, 0)])
    if height == 0:
        height, width = case.integer(lo, hi), case.integer(lo, hi)
    case.note(shape=(height, width))
    return height, width


def offset_free(got, want):
    """got - want without the multiple of 2 pi (nearest)."""
    diff = np.asarray(got, dtype=np.float64) - want
    return diff - np.median(diff)


def true_phase(case, height, width):
    """Smooth phase with a chosen total range, steps below pi."""
    kind = case.choice(["tilt", "bump", "field", "mixed"], "kind")
    y, x = np.mgrid[:height, :width].astype(float)
    y, x = y / max(height, width), x / max(height, width)
    if kind == "tilt":
        phi = case.uniform(-1, 1) * x + case.uniform(-1, 1) * y
    elif kind == "bump":
        cy, cx = case.uniform(0, y.max()), case.uniform(0, x.max())
        phi = np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / 0.05)
    elif kind == "field":
        phi = smooth(case.rng, (height, width), 6).astype(float)
    else:
        phi = (x - 0.3) ** 2 - 2 * y * x + \
            0.3 * smooth(case.rng, (height, width), 8)
    step = max(np.abs(np.diff(phi, axis=0)).max(),
               np.abs(np.diff(phi, axis=1)).max(), 1e-6)
    steep = case.choice([0.02, 0.1, 0.4, 0.8], "steep")
    phi = phi * (steep * np.pi / step)
    return phi + case.uniform(-20, 20), kind, steep


def unwrap(case):
    height, width = shape_of(case)
    phi, kind, steep = true_phase(case, height, width)
    mat = wrap(phi)
    dtype = case.choice([np.float64, np.float32], "dtype")
    mat = mat.astype(dtype)
    wraps = int(np.ptp(phi) / (2 * np.pi))
    tol = 1e-7 if dtype == np.float64 else 2e-4
    scale = np.ptp(phi) + 1.0
    got = ps.unwrap_phase_based_cosine_transform(mat)
    case.check(np.abs(offset_free(got, phi)).max() <= tol * scale, "cosine",
               "cosine-transform unwrapping, worst error {} of range {}"
               .format(np.abs(offset_free(got, phi)).max(), scale))
    win = ps._make_cosine_window(height, width)
    case.equal(ps.unwrap_phase_based_cosine_transform(mat, window=win), got,
               "cosine-window", "given window against generated one")
    case.raises(ValueError, "cosine-window-size", "window of other size",
                ps.unwrap_phase_based_cosine_transform, mat,
                window=np.ones((height + 1, width)))
    # Fourier method: exact only for small steps, iterated to exactness
    fft0 = ps.unwrap_phase_based_fft(mat)
    case.check(np.shape(fft0) == mat.shape, "fft-shape",
               "shape {}".format(np.shape(fft0)))
    if steep <= 0.1:
        err = np.abs(offset_free(fft0, phi)).max()
        case.check(err <= 0.1 * scale, "fft",
                   "FFT unwrapping off by {} of range {}".format(err, scale))
    if steep <= 0.4:
        got = ps.unwrap_phase_iterative_fft(mat, iteration=8)
        # a multiple of 2 pi per pixel at most differs from the input
        res = wrap(got - mat)
        res = wrap(res - np.angle(np.mean(np.exp(1j * res))))
        case.check(np.abs(res).max() <= 5e-3, "fft-consistent",
                   "iterative FFT result is not congruent to the wrapped "
                   "phase: {}".format(np.abs(res).max()))
        err = np.abs(offset_free(got, phi)).max()
        case.check(err <= 5e-3 * scale, "fft-iterative",
                   "iterative FFT unwrapping off by {} of range {}".format(
                       err, scale))
        w1 = ps._make_window(2 * height, 2 * width, "forward")
        w2 = ps._make_window(2 * height, 2 * width, "backward")
        case.equal(ps.unwrap_phase_iterative_fft(
            mat, iteration=8, win_for=w1, win_back=w2,
            weight_map=np.ones_like(mat)), got, "fft-window",
            "given windows and unit weights against generated ones")
    if case.index % 5 == 0:
        for kw in ({"win_for": np.ones((height, width))},
                   {"win_back": np.ones((height, width))}):
            case.raises(ValueError, "fft-window-size", "window of the image "
                        "size", ps.unwrap_phase_based_fft, mat, **kw)
    # zero phase in, constant out
    const = case.uniform(-3, 3)
    flat = np.full((height, width), const)
    for name, func in (("cosine", ps.unwrap_phase_based_cosine_transform),
                       ("fft", ps.unwrap_phase_based_fft),
                       ("iterative", ps.unwrap_phase_iterative_fft)):
        out = func(flat)
        case.check(np.ptp(out) <= 1e-8, "flat-" + name,
                   "constant phase gives a range of {}".format(np.ptp(out)))
    case.seen("unwrap", kind, steep, min(wraps, 4), height > width,
              height % 2, width % 2, np.dtype(dtype).name)


def quality(case):
    """Phase derivative variance against a literal implementation."""
    height, width = case.integer(8, 24), case.integer(8, 24)
    size = case.choice([1, 3, 4, 5], "size")
    mat = wrap(4 * np.pi * smooth(case.rng, (height, width), 3).astype(float)
               + 0.3 * noise(case.rng, (height, width)))
    case.note(shape=(height, width))
    before = mat.copy()
    got = ps.get_quality_map(mat, size)
    win = 2 * (size // 2) + 1
    rad = win // 2
    pad = np.pad(mat, 1, mode="reflect")
    want = np.zeros((height, width))
    for axis in (1, 0):
        d = wrap(np.diff(pad, axis=axis))[:height, :width]
        ext = np.pad(d, rad, mode="symmetric")
        total = np.zeros((height, width))
        for i in range(height):
            for j in range(width):
                mean = ext[i:i + win, j:j + win].mean()
                rows = (np.arange(i - rad, i + rad + 1)) % height
                cols = (np.arange(j - rad, j + rad + 1)) % width
                total[i, j] = ((d[np.ix_(rows, cols)] - mean) ** 2).sum()
        want += np.sqrt(total)
    want /= win ** 2
    case.near(got, want, "quality", "phase derivative variance, window {}"
              .format(size), rtol=2e-4, atol=1e-5)
    case.equal(mat, before, "purity", "input after the call")
    # a noisy patch in a smooth phase is what the mask has to mark
    n = case.integer(60, 90)
    big = np.cumsum(np.ones((n, n)), axis=1) * 0.05
    big += 0.02 * case.rng.standard_normal((n, n))
    r0, c0 = case.integer(15, n - 30), case.integer(15, n - 30)
    big[r0:r0 + 10, c0:c0 + 10] += case.rng.uniform(-3, 3, (10, 10))
    qmap = ps.get_quality_map(wrap(big), 5)
    mask = ps.get_weight_mask(qmap, snr=case.choice([0.5, 1.5, 3.0]))
    case.check(set(np.unique(mask)) <= {0.0, 1.0}, "mask-binary",
               "weight mask holds {}".format(np.unique(mask)[:5]))
    inner = mask[r0 + 2:r0 + 8, c0 + 2:c0 + 8].mean()
    far = np.ones((n, n), dtype=bool)
    far[r0 - 6:r0 + 16, c0 - 6:c0 + 16] = False
    far[:6] = far[-6:] = False
    far[:, :6] = far[:, -6:] = False
    case.check(inner > 0.9 and mask[far].mean() < 0.2, "mask-place",
               "mask is {:.2f} in the noisy patch and {:.2f} elsewhere".format(
                   inner, mask[far].mean()))
    case.seen("quality", size, height % 2, width % 2)


def surf_offset(got, want):
    got = np.asarray(got, dtype=np.float64)
    return (got - got.mean()) - (want - want.mean())


def surface(case):
    height, width = shape_of(case, 24, 90)
    y, x = np.mgrid[:height, :width].astype(float)
    surf = np.zeros((height, width))
    gx, gy = np.zeros_like(surf), np.zeros_like(surf)
    model = np.zeros_like(surf)
    for _ in range(case.integer(1, 4)):
        kx, ky = case.integer(-2, 2), case.integer(-2, 2)
        if kx == 0 and ky == 0:
            kx = 1
        amp, ph = case.uniform(0.5, 3), case.uniform(0, 6.28)
        ax, ay = 2 * np.pi * kx / width, 2 * np.pi * ky / height
        arg = ax * x + ay * y + ph
        surf += amp * np.sin(arg)
        gx += amp * ax * np.cos(arg)
        gy += amp * ay * np.cos(arg)
        gain = (np.sin(ax) * ax + np.sin(ay) * ay) / (
            4 * (np.sin(ax / 2) ** 2 + np.sin(ay / 2) ** 2))
        model += gain * amp * np.sin(arg)
    scale = np.abs(surf).max()
    scs = ps.reconstruct_surface_from_gradient_SCS_method
    fc = ps.reconstruct_surface_from_gradient_FC_method
    got = scs(gx, gy, correct_negative=False)
    case.near(got, model, "scs-model", "SCS surface of Fourier modes",
              rtol=1e-4, atol=1e-5)
    err = np.abs(surf_offset(got, surf)).max()
    case.check(err <= 0.08 * scale, "scs-truth",
               "SCS surface off by {} of {}".format(err, scale))
    pad = case.choice([0, 1, 7, 20], "pad")
    mode = case.choice(["linear_ramp", "reflect", "edge", "wrap"], "mode")
    if mode in ("reflect", "wrap"):
        pad = min(pad, height - 1, width - 1)
    plain = scs(gx, gy, correct_negative=False, pad=pad, pad_mode=mode)
    # the same as padding by hand and cropping
    if pad:
        hand = scs(np.pad(gx, pad, mode=mode), np.pad(gy, pad, mode=mode),
                   correct_negative=False)[pad:pad + height, pad:pad + width]
    else:
        hand = got
    case.near(plain, hand, "scs-pad", "SCS with pad {}".format(pad),
              rtol=1e-5, atol=1e-6)
    # the offset belongs to the returned surface, not to its padding
    low = min(float(np.min(plain)), 0.0)
    case.near(scs(gx, gy, correct_negative=True, pad=pad, pad_mode=mode),
              np.float64(plain) - 2 * low, "scs-pad-negative",
              "offset correction of a padded surface", rtol=1e-4, atol=1e-4)
    # generated against given windows
    wins = ps._make_window_SCS_method(height + 2 * pad, width + 2 * pad)
    case.equal(scs(gx, gy, correct_negative=False, pad=pad, pad_mode=mode,
                   window=list(wins)), plain, "scs-window", "given window")
    case.raises(ValueError, "scs-window-size", "wrong window size", scs, gx,
                gy, window=[w[:-1] for w in wins], pad=pad, pad_mode=mode)
    # Frankot-Chellappa on the mirrored gradients
    got_fc = fc(gx, gy, correct_negative=False)

    def mirrored(mat):
        row = np.concatenate((mat, mat[:, ::-1]), axis=1)
        return np.concatenate((row[::-1], row), axis=0)

    u = np.fft.fftfreq(2 * width)[None, :]
    v = np.fft.fftfreq(2 * height)[:, None]
    den = 2 * np.pi * (u ** 2 + v ** 2)
    den[0, 0] = np.inf
    want = np.real(np.fft.ifft2(
        -1j * (u * np.fft.fft2(mirrored(gx)) + v * np.fft.fft2(mirrored(gy)))
        / den))[height:, :width]
    case.near(got_fc, want, "fc-model", "Frankot-Chellappa surface",
              rtol=2e-4, atol=1e-5)
    wins = ps._make_window_FC_method(2 * height, 2 * width)
    case.equal(fc(gx, gy, correct_negative=False, window=tuple(wins)), got_fc,
               "fc-window", "given window")
    for func, name in ((scs, "scs"), (fc, "fc")):
        base = got if name == "scs" else got_fc
        pos = func(gx, gy)
        low = float(np.min(base))
        shift = -2 * low if low < 0 else 0.0
        case.near(pos, base + shift, name + "-negative",
                  "negative offset correction", rtol=1e-5, atol=1e-5)
        case.check(np.min(pos) >= 0, name + "-positive", "negative surface")
        case.raises(ValueError, name + "-shape", "gradients of other shape",
                    func, gx, gy[:-1])
        zero = func(np.zeros_like(gx), np.zeros_like(gx))
        case.check(np.abs(zero).max() <= 1e-6, name + "-zero",
                   "zero gradients give {}".format(np.abs(zero).max()))
    case.seen("surface", height > width, max(height, width) / min(height,
              width) > 1.5, height % 2, width % 2, pad > 0, mode)


def bumps(case):
    """Isolated objects: the usual use, checked against the true surface."""
    height, width = shape_of(case, 48, 90)
    height, width = max(height, 44), max(width, 44)
    y, x = np.mgrid[:height, :width].astype(float)
    surf = np.zeros((height, width))
    gx, gy = np.zeros_like(surf), np.zeros_like(surf)
    for _ in range(case.integer(1, 3)):
        sig = case.uniform(3.0, min(height, width) / 11.0)
        cy = case.uniform(0.4, 0.6) * height
        cx = case.uniform(0.4, 0.6) * width
        amp = case.uniform(1, 5)
        g = amp * np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / (2 * sig ** 2))
        surf += g
        gx += -(x - cx) / sig ** 2 * g
        gy += -(y - cy) / sig ** 2 * g
    for name, func, kw, lim in (
            ("scs", ps.reconstruct_surface_from_gradient_SCS_method, {}, .06),
            ("scs-pad", ps.reconstruct_surface_from_gradient_SCS_method,
             {"pad": 15}, .06),
            ("fc", ps.reconstruct_surface_from_gradient_FC_method, {}, .12)):
        got = func(gx, gy, correct_negative=case.choice([True, False]), **kw)
        err = np.abs(surf_offset(got, surf)).max() / surf.max()
        case.check(err <= lim, name, "surface of an isolated object off by "
                   "{:.3f} of its height".format(err))
    case.seen("bumps", height > width, height % 2, width % 2)


def signals(case):
    """Transmission and dark-field against direct window statistics."""
    depth = case.integer(1, 3)
    win = case.choice([1, 3, 4, 7], "win")
    height = case.integer(26, 40)
    width = case.integer(26, 40)
    if case.index % 4 == 0:
        height = case.integer(70, 90)
    big = case.uniform(0, 3.9)
    shape = (height, width)
    ref = 10 + 5 * noise(case.rng, (depth,) + shape)
    sam = 8 + 3 * noise(case.rng, (depth,) + shape)
    xs = (smooth(case.rng, shape, 4) * 2 - 1) * big
    ys = (smooth(case.rng, shape, 4) * 2 - 1) * case.uniform(0, 3.9)
    margin = case.choice([None, 5, 6], "margin")
    two = depth == 1 and case.choice([True, False], "2d")
    ncore = case.choice([1, 3], "ncore") if case.index % 4 == 0 else 1
    case.note(shape=shape, depth=depth, big=big)
    trans, dark = ps.get_transmission_dark_field_signal(
        ref[0] if two else ref, sam[0] if two else sam, xs, ys, win,
        margin=margin, ncore=ncore)
    rad = win // 2
    ir, jr = np.rint(ys).astype(int), np.rint(xs).astype(int)
    lim = margin if margin is not None else int(
        np.ceil(max(np.abs(xs).max(), np.abs(ys).max())))
    pad = rad + lim
    want_t, want_d = np.ones(shape), np.ones(shape)
    size = 2 * rad + 1
    stat = []
    for mat in (ref, sam):
        view = np.lib.stride_tricks.sliding_window_view(
            mat.astype(float), (size, size), axis=(1, 2))
        stat.append((view.mean(axis=(3, 4)), view.std(axis=(3, 4))))
    (mr, sr), (ms, ss) = stat
    i, j = np.mgrid[pad:height - pad, pad:width - pad]
    p, q = i + ir[i, j], j + jr[i, j]
    ma, sa = mr[:, i - rad, j - rad], sr[:, i - rad, j - rad]
    mb, sb = ms[:, p - rad, q - rad], ss[:, p - rad, q - rad]
    want_t[i, j] = np.mean(mb / ma, axis=0)
    ok = sa > 0
    want_d[i, j] = np.mean(np.where(
        ok, (ma / mb) * sb / np.where(ok, sa, 1), 1.0), axis=0)
    core = (slice(pad, height - pad), slice(pad, width - pad))
    case.check(trans.shape == shape and dark.shape == shape, "shape",
               "{} for {}".format(trans.shape, shape))
    case.near(trans[core], want_t[core], "transmission",
              "ratio of the window means", rtol=1e-4, atol=1e-5)
    case.near(dark[core], want_d[core], "dark-field",
              "ratio of the window contrasts", rtol=2e-3, atol=1e-4)
    case.check(np.all(np.isfinite(trans)) and np.all(np.isfinite(dark)),
               "finite", "non-finite border")
    # identical stacks at zero shift
    zero = np.zeros(shape, dtype=np.float32)
    t1, d1 = ps.get_transmission_dark_field_signal(
        ref, ref * 0.5, zero, zero, max(win, 3), margin=2, ncore=1)
    case.near(t1, np.full(shape, 0.5), "half", "half intensity", rtol=1e-4)
    case.near(d1, np.ones(shape), "no-scatter", "no scattering", rtol=1e-3)
    case.seen("signals", depth, win, margin, two, ncore, int(big))


def texture(rng, shape, sigma=1.0):
    mat = ndi.gaussian_filter(rng.standard_normal(shape), sigma, mode="wrap")
    return 10 + 3 * (mat - mat.mean()) / mat.std()


def stacks(case):
    """Alignment of stacks by the shifts the finders return."""
    num = case.integer(1, 3)
    height, width = case.integer(70, 90), case.integer(70, 90)
    ref, sam, true = [], [], []
    for _ in range(num):
        base = texture(case.rng, (height + 24, width + 24), 1.5)
        sx, sy = case.uniform(-5, 5), case.uniform(-5, 5)
        moved = ndi.shift(base, (sy, sx), order=3, mode="reflect")
        ref.append(base[12:-12, 12:-12])
        sam.append(moved[12:-12, 12:-12])
        true.append((sx, sy))
    ref, sam, true = np.asarray(ref), np.asarray(sam), np.asarray(true)
    pts = [[30, 33, 37, 40, 35], [30, 36, 33, 39, 41]]
    glob = case.choice(["median", "mean", "mixed"], "global")
    method = case.choice(["diff", "poly_fit"], "method")
    case.note(true=true.round(3).tolist())
    opt = dict(global_value=glob, method=method, ncore=1,
               norm=case.choice([True, False], "norm"),
               size=case.choice([3, 5], "size") if method == "poly_fit"
               else 3)
    if case.choice([0, 1]):
        ref, sam = ref.astype(np.float32), sam.astype(np.float32)
    win, margin = case.choice([24, 25, 22], "win"), case.choice([8, 9, 10])
    got = ps.find_shift_between_image_stacks(ref, sam, win, margin, pts,
                                             **opt)
    case.near(got, -true, "stack-shift", "shift between the stacks",
              rtol=0, atol=0.15 if opt["size"] == 3 else 0.3)
    whole = ps.find_shift_between_image_stacks(
        ref, sam, win, margin, pts, sub_pixel=False,
        **dict(opt, global_value="median"))
    case.near(whole, -true, "stack-whole", "whole-pixel shifts", rtol=0,
              atol=0.65)
    case.check(np.all(np.asarray(whole) * 2 % 1 == 0), "stack-whole",
               "sub_pixel=False gives {}".format(whole))
    fine = ps.find_shift_between_image_stacks(ref[:1], sam[:1], win, margin,
                                              [30, 34], **opt)
    case.near(fine, -true[:1], "stack-point", "a single point", rtol=0,
              atol=0.3)
    al_ref, al_sam = ps.align_image_stacks(ref, sam, got)
    core = (slice(None), slice(12, -12), slice(12, -12))
    case.equal(al_sam, sam, "align-sample", "sample images without shifts")
    for i in range(num):
        r = corr(al_ref[i][12:-12, 12:-12], al_sam[i][12:-12, 12:-12])
        case.check(r > 0.97, "align", "aligned images correlate {:.3f}"
                   .format(r))
    # movement of the sample: images of one object displaced per scan
    obj = 1 - 0.4 * smooth(case.rng, (height + 24, width + 24), 3)
    sam2, smov = [], []
    refs = [texture(case.rng, (height + 24, width + 24), 1.5)
            for _ in range(2)]
    srs = []
    out_ref = []
    # one shift for every pair: in the frame of the references or of the
    # samples the object has then moved alike
    sr = (case.integer(-3, 3), case.integer(-3, 3))
    for k in range(2):
        mv = (0.0, 0.0) if k == 0 else (case.integer(-4, 4),
                                        case.integer(-4, 4))
        moved = ndi.shift(obj, (mv[1], mv[0]), order=1, mode="reflect")
        speck = refs[k]
        # sample image: speckles displaced by sr, object displaced by mv
        img = ndi.shift(speck, (sr[1], sr[0]), order=1, mode="reflect") * moved
        sam2.append(img[12:-12, 12:-12])
        out_ref.append(speck[12:-12, 12:-12])
        srs.append((-sr[0], -sr[1]))
        smov.append(mv)
    out_ref, sam2 = np.asarray(out_ref), np.asarray(sam2)
    case.note(smov=smov, sr=sr)
    res = ps.find_shift_between_sample_images(
        out_ref, sam2, np.asarray(srs), 25, 9, pts, global_value=glob,
        method=method, ncore=1, norm=opt["norm"])
    case.check(np.allclose(res[0], 0), "first-zero", "first is {}".format(
        res[0]))
    case.near(res[1], -np.asarray(smov[1], dtype=float), "sample-shift",
              "movement of the sample", rtol=0, atol=0.3)
    al_ref, al_sam = ps.align_image_stacks(out_ref, sam2, np.asarray(srs),
                                           np.asarray(res))
    trans = (al_sam / al_ref)[:, 14:-14, 14:-14]
    case.check(corr(trans[0], trans[1]) > 0.95, "align-object",
               "transmissions of the aligned pairs correlate {:.3f}".format(
                   corr(trans[0], trans[1])))
    case.seen("stacks", num, glob, method, opt["size"], opt["norm"])
    borders(case, ref, sam)


FILL = {"reflect": "symmetric", "nearest": "edge", "mirror": "reflect",
        "wrap": "wrap", "grid-wrap": "wrap", "constant": "constant"}


def borders(case, ref, sam):
    """Whole-pixel alignment: moved pixels, borders filled as asked."""
    mode = case.choice(["reflect", "nearest", "mirror", "grid-wrap",
                        "constant"], "mode")
    ref, sam = ref.astype(np.float64), sam.astype(np.float64)
    shifts = [(case.integer(-5, 5), case.integer(-5, 5)) for _ in ref]
    more = [(case.integer(-4, 4), case.integer(-4, 4)) for _ in ref]
    form = case.choice([np.asarray, list], "form")
    case.note(shifts=shifts, more=more)

    def moved(mat, sx, sy):
        wide = np.pad(mat, 10, mode=FILL[mode])
        return wide[10 - sy:10 - sy + mat.shape[0],
                    10 - sx:10 - sx + mat.shape[1]]
    one, same_ = ps.align_image_stacks(ref, sam, form(shifts), mode=mode)
    two, other = ps.align_image_stacks(ref, sam, form(shifts),
                                       sam_shifts=form(more), mode=mode)
    core = slice(10, -10), slice(10, -10)
    for k in range(len(ref)):
        (sx, sy), (mx, my) = shifts[k], more[k]
        tol = dict(rtol=0, atol=1e-4 * np.abs(ref[k]).max())
        case.near(one[k], moved(ref[k], -sx, -sy), "border-reference",
                  "moved against its shift, mode " + mode, **tol)
        case.near(same_[k], sam[k], "border-sample", "left alone", **tol)
        case.near(other[k], moved(sam[k], mx, my), "border-moved",
                  "sample moved by its shift, mode " + mode, **tol)
        case.near(two[k][core], moved(ref[k], mx - sx, my - sy)[core],
                  "border-both", "reference follows its sample", **tol)
    case.seen("borders", mode)


def composition(case):
    """All options of the pipeline against its documented steps."""
    import algotom.util.correlation as cl
    height, width = case.integer(31, 46), case.integer(31, 46)
    if case.choice([0, 1]):
        width = height
    depth = case.integer(2, 3)
    dtype = case.choice([np.float32, np.float64], "dtype")
    find = case.cycle(["correl", "umpa"], "find")
    dark = case.choice([True, False], "dark")
    back = case.choice([True, False], "return_shift")
    win, margin = case.choice([4, 5, 7, 8]), case.integer(2, 4)
    method = case.choice(["diff", "poly_fit"], "method")
    size = case.choice([3, 4, 5], "size") if method == "poly_fit" else 3
    ref = np.asarray([texture(case.rng, (height, width), 1.0)
                      for _ in range(depth)])
    sam = np.asarray([ndi.shift(r, (0.7, -1.2), order=1, mode="reflect")
                      for r in ref]) + case.rng.normal(0, 0.01, ref.shape)
    ref, sam = ref.astype(dtype), sam.astype(dtype)
    base = dict(win_size=win, margin=margin, method=method, size=size,
                gpu=False, ncore=case.choice([1, 1, 2]),
                chunk_size=case.choice([100, 9]))
    case.note(shape=ref.shape, **base)
    kw, trans = {}, None
    if find == "umpa":
        name = case.choice([None, "hann", "hamming", "bartlett", "blackman",
                            "nuttall", "parzen", "triang"], "filter")
        kw = dict(filter_name=name)
        res = cl.find_local_shifts_umpa(ref, sam, dark_signal=dark,
                                        **base, **kw)
        xs, ys = res[:2]
        trans = res[2:]
    else:
        kw = dict(norm=case.choice([True, False], "norm"), dim=case.choice(
            [1, 2], "dim"), norm_global=case.choice([True, False], "global"))
        xs, ys = cl.find_local_shifts(ref, sam, **base, **kw)
        if dark:
            trans = ps.get_transmission_dark_field_signal(
                ref, sam, xs, ys, win, margin)
    surf = case.choice(["SCS", "FC"], "surf")
    neg = case.choice([True, False], "correct_negative")
    pad = case.choice([0, 7, 100], "pad")
    mode = case.choice(["linear_ramp", "edge", "symmetric"], "pad mode")
    out = ps.retrieve_phase_based_speckle_tracking(
        ref, sam, find_shift=find, dark_signal=dark, return_shift=back,
        surf_method=surf, correct_negative=neg, pad=pad, pad_mode=mode,
        **base, **kw)
    num = 1 + 2 * dark + 2 * back
    out = list(out) if num > 1 else [out]
    case.require(len(out) == num, "pipeline-tuple", "{} results instead of "
                 "{}".format(len(out), num))
    edge = margin + 2
    core = slice(edge, -edge), slice(edge, -edge)
    if back:
        for name, got, want in (("x", out[0], xs), ("y", out[1], ys)):
            case.near(got[core], want[core], "pipeline-" + name,
                      name + "-shifts of the finder with these options",
                      rtol=1e-4, atol=1e-4)
        full = out[0], out[1]
        phase = out[2]
    else:
        full = [np.pad(m[core], edge, mode="reflect") for m in (xs, ys)]
        phase = out[0]
    if surf == "SCS":
        want = ps.reconstruct_surface_from_gradient_SCS_method(
            *full, correct_negative=neg, pad=pad, pad_mode=mode)
    else:
        want = ps.reconstruct_surface_from_gradient_FC_method(
            *full, correct_negative=neg)
    scale = max(float(np.abs(want).max()), 1e-3)
    case.near(phase, want, "pipeline-phase", "surface of these shifts",
              rtol=0, atol=(1e-4 if back else 1e-2) * scale)
    if dark:
        for name, got, ref_ in zip(("transmission", "dark"), out[-2:],
                                   trans):
            case.near(got, ref_, "pipeline-" + name, name + " signal",
                      rtol=1e-4, atol=1e-4)
    case.seen("composition", find, dark, back, method, size, surf,
              *[kw[k] for k in sorted(kw)])




def tracking(case):
    """Speckle tracking returns the phase whose gradient moved the speckles."""
    height, width = case.choice([(56, 56), (52, 66), (66, 50)], "shape")
    depth = case.integer(3, 5)
    find = case.cycle(["correl", "umpa", "correl", "correl"], "find")
    dim = case.cycle([1, 2, 2, 1], "dim")
    dark = case.choice([False, True], "dark")
    surf_method = case.choice(["SCS", "FC"], "surf")
    y, x = np.mgrid[:height, :width].astype(float)
    cy, cx = height / 2 + case.uniform(-3, 3), width / 2 + case.uniform(-3, 3)
    sig = 8.0
    ph = np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / (2 * sig ** 2))
    dx, dy = -(x - cx) / sig ** 2 * ph, -(y - cy) / sig ** 2 * ph
    amp = case.choice([1, -1]) * (0.8 if find == "correl" and dim == 1
                                  else 1.7) / max(np.abs(dx).max(),
                                          np.abs(dy).max())
    ph, dx, dy = ph * amp, dx * amp, dy * amp
    ref = np.asarray([texture(case.rng, (height, width), 1.2)
                      for _ in range(depth)])
    # sample(x) = ref(x + shift): the convention of find_local_shifts
    sam = np.asarray([ndi.map_coordinates(r, (y + dy, x + dx), order=3,
                                          mode="reflect") for r in ref])
    margin = 4
    mode = case.choice(["linear_ramp", "edge", "reflect"], "pad mode")
    positive = case.choice([True, False], "correct_negative")
    pad = case.choice([0, 10, 23], "pad")
    kw = dict(find_shift=find, dim=dim, win_size=7, margin=margin, ncore=3,
              dark_signal=dark, surf_method=surf_method, pad=pad,
              pad_mode=mode, correct_negative=positive,
              method=case.choice(["diff", "poly_fit"], "method"),
              return_shift=True, chunk_size=case.choice([100, 17, 30], "ck"))
    out = ps.retrieve_phase_based_speckle_tracking(ref, sam, **kw)
    case.require(len(out) == (5 if dark else 3), "tuple",
                 "{} results".format(len(out)))
    xs, ys, phase = out[:3]
    core = (slice(9, -9), slice(9, -9))
    for name, got, true in (("x", xs, dx), ("y", ys, dy)):
        err = np.percentile(np.abs(got[core] - true[core]), 95)
        case.check(err < 0.45, "shift-" + name, "{}-shift off by {:.3f}"
                   .format(name, err))
    r = corr(phase[core], ph[core])
    case.check(r > 0.95, "phase", "phase correlates {:.3f} with the truth"
               .format(r))
    # the surface which belongs to these shifts, with the given settings
    if surf_method == "SCS":
        want = ps.reconstruct_surface_from_gradient_SCS_method(
            xs, ys, correct_negative=positive, pad=pad, pad_mode=mode)
    else:
        want = ps.reconstruct_surface_from_gradient_FC_method(
            xs, ys, correct_negative=positive)
    case.near(phase, want, "surface", "surface of the returned shifts",
              rtol=1e-4, atol=1e-4)
    if dark:
        case.check(abs(np.median(out[3][core]) - 1) < 0.08, "transmission",
                   "transmission {}".format(np.median(out[3][core])))
    case.seen("tracking", find, dim, dark, surf_method)


def register(ctx):
    ctx.family("composition", 40, 900, composition)
    ctx.family("unwrap", 96, 2500, unwrap)
    ctx.family("quality", 20, 400, quality)
    ctx.family("surface", 96, 2500, surface)
    ctx.family("bumps", 48, 1500, bumps)
    ctx.family("signals", 60, 800, signals)
    ctx.family("stacks", 20, 150, stacks)
    ctx.family("tracking", 4, 40, tracking)
    ctx.expect_tags("unwrap", 30)
    ctx.expect_tags("surface", 20)
    ctx.expect_tags("signals", 10)
