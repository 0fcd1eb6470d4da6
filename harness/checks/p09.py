"""P09: flat-field, beam-hardening and MTF corrections follow their models."""
import numpy as np
import algotom.prep.correction as corr
import algotom.prep.filtering as filt
import algotom.prep.phase as phase
import algotom.prep.removal as remo
from vlib import noise, smooth, integers

RULE = ("a class is one (correction, input dimension, dtypes, presence of "
        "zero denominators, options pipeline) combination compared with the "
        "formula evaluated directly")
ASSUMPTIONS = ["ratio given as a float, as documented",
               "a stack holds projections, so filters act on its sinograms"]


def ref_correct(proj, flat, dark, ratio, use_dark):
    flat = ratio * flat.astype(np.float64)
    den = flat - dark.astype(np.float64) if use_dark else flat
    if np.any(den == 0.0):
        mean = den.mean()
        den = np.where(den == 0.0, mean if mean != 0.0 else 1.0, den)
    num = proj.astype(np.float64)
    if use_dark:
        num = num - dark
    return num / den


def flat_field(case):
    ndim = case.cycle(["sinogram", "image", "stack"], "kind")
    height, width = case.integer(1, 9), case.integer(2, 12)
    depth = case.integer(1, 6)
    shape = {"sinogram": (depth, width), "image": (height, width),
             "stack": (depth, height, width)}[ndim]
    fshape = {"sinogram": (width,), "image": (height, width),
              "stack": (height, width)}[ndim]
    dtype = case.choice([np.float32, np.uint16, np.float64], "dtype")
    fdtype = case.choice([np.float32, np.uint16, np.float64], "fdtype")
    proj = integers(case.rng, shape, 0, 300, np.float64).astype(dtype)
    flat = integers(case.rng, fshape, 150, 250, np.float64)
    dark = integers(case.rng, fshape, 0, 60, np.float64)
    ratio = case.choice([1.0, 0.5, 2.0, case.uniform(0.3, 3.0)], "ratio")
    use_dark = case.choice([True, True, False], "use_dark")
    zero = case.choice(["none", "some", "all", "zero-mean"], "zeros")
    if zero == "some":
        bad = case.rng.random(fshape) < 0.3
        flat[bad] = 0.0
        dark[bad] = 0.0
    elif zero == "all":
        flat[:] = 0.0
        dark[:] = 0.0
    elif zero == "zero-mean" and fshape[-1] >= 3 and use_dark:
        ratio = 1.0
        dark[:] = 50.0
        flat[:] = 50.0
        flat[..., 0] = 70.0
        flat[..., 1] = 30.0
    flat, dark = flat.astype(fdtype), dark.astype(fdtype)
    case.note(shape=shape)
    want = ref_correct(proj, flat, dark, ratio, use_dark)
    got = corr.flat_field_correction(proj, flat, dark, ratio=ratio,
                                     use_dark=use_dark)
    case.near(got, want, "formula", "flat-field correction", rtol=2e-5)
    case.seen("flat", ndim, zero, use_dark, ratio == 1.0)


FILTERS = [
    ("remove_stripe_based_sorting", (5, 1), remo.remove_stripe_based_sorting),
    ("remove_stripe_based_normalization", (5, 1),
     remo.remove_stripe_based_normalization),
    ("remove_zinger", (0.08, 2), remo.remove_zinger),
    ("fresnel_filter", (10.0, 1, None, 10, False), filt.fresnel_filter),
    ("fresnel_filter", (200.0, 1), filt.fresnel_filter),
    ("unwrap_phase_based_fft", (), phase.unwrap_phase_based_fft),
    ("get_quality_map", (3,), phase.get_quality_map),
]


def pipeline(case):
    stack = case.cycle([True, False], "stack")
    depth, height, width = case.integer(6, 14), case.integer(1, 4), \
        case.integer(12, 24)
    shape = (depth, height, width) if stack else (depth, width)
    fshape = shape[1:]
    proj = noise(case.rng, shape, 0.5, 1.5)
    flat = noise(case.rng, fshape, 1.5, 2.0)
    dark = noise(case.rng, fshape, 0.0, 0.1)
    num = case.integer(1, 3)
    picked = [FILTERS[int(case.rng.integers(len(FILTERS)))]
              for _ in range(num)]
    options = {}
    for k, (name, para, _f) in enumerate(picked):
        opt = {"method": name}
        for j, val in enumerate(para):
            opt["para{}".format(j + 1)] = val
        options["option{}".format(k + 1)] = opt
    if case.choice([True, False]):
        options["none"] = None
    case.note(options=[p[0] for p in picked], shape=shape)
    want = ref_correct(proj, flat, dark, 1.0, True).astype(np.float32)
    for (_n, para, func) in picked:
        if stack:
            want = np.stack([func(want[:, i].copy(), *para)
                             for i in range(height)], axis=1)
        else:
            want = func(want.copy(), *para)
    got = corr.flat_field_correction(proj, flat, dark, **options)
    case.near(got, want, "pipeline", "filters {}".format(
        [p[0] for p in picked]), rtol=1e-4)
    case.seen("pipe", stack, tuple(p[0] for p in picked))
    case.raises(ValueError, "unknown-filter", "unknown filter name",
                corr.flat_field_correction, proj, flat, dark,
                option1={"method": "no_such_filter", "para1": 1})
    case.raises(ValueError, "bad-option", "option that is not a dictionary",
                corr.flat_field_correction, proj, flat, dark,
                option1="remove_zinger")


def hardening(case):
    q = float(10 ** case.uniform(-2.3, 1.7, "log10q"))
    n = case.choice([2, 3, 5, case.uniform(2.0, 15.0)], "n")
    opt = case.cycle([True, False], "opt")
    shape = case.choice([(17,), (5, 9), (3, 4, 6)], "shape")
    mat = noise(case.rng, shape, 0.0, 1.0, np.float64)
    mat.flat[0], mat.flat[1] = 0.0, 1.0
    got = np.asarray(corr.beam_hardening_correction(mat, q, n, opt))
    x = 1.0 - mat if opt else mat
    want = np.log1p(q * (n * x - x ** n)) / np.log1p(q * (n - 1.0))
    want = 1.0 - want if opt else want
    case.near(got, want, "response", "response curve", rtol=1e-9, atol=1e-9)
    case.require(got.shape == mat.shape, "response-shape", "shape")
    case.near(got.flat[:2], [0.0, 1.0], "end-points", "0 and 1 are fixed",
              atol=1e-9)
    order = np.argsort(mat, axis=None)
    case.check(np.all(np.diff(got.ravel()[order]) >= -1e-12), "monotonic",
               "grey levels change order")
    low = got <= mat + 1e-12 if opt else got >= mat - 1e-12
    case.check(np.all(low), "direction", "curve bends the wrong way")
    case.raises(ValueError, "not-normalized", "image with values >= 2",
                corr.beam_hardening_correction, mat + 1.0, q, n, opt)
    case.raises(ValueError, "bad-order", "n below 2",
                corr.beam_hardening_correction, mat, q, 1.5, opt)
    case.seen("bhc", opt, len(shape), q > 1.0, isinstance(n, int))


def mtf(case):
    height, width = case.integer(4, 24), case.integer(4, 24)
    grow = case.cycle([(0, 0), (0, 0), (3, 0), (2, 5)], "window_larger_by")
    h2, w2 = height + grow[0], width + grow[1]
    pad = case.choice([0, case.integer(1, 4)], "pad")
    mat = noise(case.rng, (height, width), 0.2, 1.0)
    case.note(shape=(height, width))
    one = corr.mtf_deconvolution(mat, np.ones((h2, w2)), pad)
    case.near(one, mat, "unit-window", "window of ones", rtol=1e-5)
    # symmetric window, unity at zero frequency
    v = np.arange(h2) - h2 // 2
    u = np.arange(w2) - w2 // 2
    fall = case.uniform(0.5, 3.0)
    window = 0.4 + 0.6 * np.exp(-(v[:, None] / (0.4 * h2)) ** 2 * fall
                                - (u[None, :] / (0.4 * w2)) ** 2 * fall)
    got = corr.mtf_deconvolution(mat, window, pad)
    ext = np.pad(mat.astype(np.float64), ((0, grow[0]), (0, grow[1])),
                 mode="edge")
    ext = np.pad(ext, pad, mode="reflect")
    win = np.pad(window, pad, mode="constant", constant_values=1.0)
    want = np.real(np.fft.ifft2(np.fft.fft2(ext) / np.fft.ifftshift(win)))
    want = want[pad:pad + height, pad:pad + width]
    case.near(got, want, "deconvolution", "deconvolved image", rtol=1e-5)
    if pad == 0 and grow == (0, 0):
        blur = np.real(np.fft.ifft2(np.fft.fft2(mat)
                                    * np.fft.ifftshift(window)))
        case.near(corr.mtf_deconvolution(blur, window, 0), mat,
                  "inverse", "blurred image recovered", rtol=1e-5)
    case.near(corr.mtf_deconvolution(np.full((height, width), 0.7), window,
                                     pad), np.full((height, width), 0.7),
              "constant", "uniform image", rtol=1e-5)
    case.raises(ValueError, "small-window", "window smaller than the image",
                corr.mtf_deconvolution, mat, np.ones((height - 1, width)), 0)
    case.seen("mtf", grow, pad > 0, height % 2, width % 2)


def register(ctx):
    ctx.family("flat_field", 200, 3000, flat_field)
    ctx.family("pipeline", 60, 900, pipeline)
    ctx.family("hardening", 80, 1500, hardening)
    ctx.family("mtf", 80, 1500, mtf)
    ctx.expect_tags("flat_field", 20)
    ctx.expect_tags("pipeline", 15)
    ctx.expect_tags("hardening", 8)
    ctx.expect_tags("mtf", 12)
