"""P28: compiled kernels stay inside their arrays; GPU threads independent."""
import numpy as np
import numba
from numba import cuda
import kernels
import recipes
import algotom.prep.phase as ps
import algotom.rec.reconstruction as rec
import algotom.rec.vertrec as vr
import algotom.util.correlation as cl
from checks.p08 import JIT
from checks.p07 import run
from vlib import Inconclusive, noise

RULE = ("a class is one (kernel, geometry) pair executed compiled with "
        "bounds checks, or one kernel executed with tracked elements")
ASSUMPTIONS = ["CPU kernels are compiled with numba's bounds checks; "
               "negative indices down to -n are legal (numpy semantics)",
               "GPU kernels run in numba's CUDA simulator"]
FOUND = kernels.dispatchers(recipes.MODULES)


def guarded(case, label, func, *args, **kwargs):
    """Runs to the end or refuses its arguments."""
    with kernels.Recording(recipes.MODULES, FOUND.values(), 6) as record, \
            kernels.Launches(2) as launches:
        out = None
        try:
            out = func(*args, **kwargs)
        except (IndexError, SystemError) as err:
            case.fail("outside-" + label, "{}: index outside an array "
                      "({})".format(label, err))
        except ValueError as err:
            if "broadcast" in str(err) or "shape mismatch" in str(err):
                case.fail("shape-" + label, "{}: {}".format(label, err))
            case.count("refused")
    case.count("compiled calls with bounds checks", len(record.calls))
    case.count("launches in the simulator", launches.number)
    for kernel, _a, _k in record.calls:
        case.seen("kernels", kernel.py_func.__name__)
    return out, record.calls, launches.calls


def track(case, label, calls, launches):
    """The same calls on tracked elements."""
    for kernel, args, kwargs in calls[:1]:
        if sum(a.size for a in args if isinstance(a, np.ndarray)) > 4000:
            continue
        log = kernels.Log()
        name = kernel.py_func.__name__
        try:
            kernels.interpret(kernel, args, log, kwargs)
        except IndexError as err:
            if log.stray:
                case.fail("stray-" + name, "{}: {} ({})".format(
                    name, log.stray[:2], err))
            continue
        except Exception as err:
            case.count("not interpreted: {} {}".format(
                name, type(err).__name__))
            continue
        case.check(not log.conflicts, "race-" + name, "{}: {}".format(
            name, log.conflicts[:2]))
        case.count("tracked accesses", log.accesses)
        case.seen("tracked", name, label)
    for func, grid, block, args in launches[:1]:
        work = np.prod(grid) * np.prod(block)
        if sum(a.size for a in args if isinstance(a, np.ndarray)) > 9000 or \
                work > 600:
            continue
        log = kernels.Log()
        name = func.__name__
        try:
            kernels.interpret_gpu(func, grid, block, args, log)
        except IndexError as err:
            case.fail("stray-" + name, "{}: {} ({})".format(
                name, log.stray[:2], err))
            continue
        except Exception as err:
            case.count("not interpreted: {} {}".format(
                name, type(err).__name__))
            continue
        case.check(not log.conflicts, "race-" + name,
                   "{}: threads share elements: {}".format(
                       name, log.conflicts[:2]))
        case.count("tracked accesses", log.accesses)
        case.count("tracked GPU threads", log.iterations)
        case.seen("tracked", name, label)


def block_of(case):
    return case.choice([(4, 4), (3, 5), (2, 2), (8, 2), (1, 1)], "block")


def backproject(case):
    which = case.cycle(["slice", "slice-gpu", "chunk-gpu", "vertical",
                        "vertical-gpu", "vertical-chunk",
                        "vertical-chunk-gpu"], "which")
    num, width = case.integer(1, 4, "num"), case.integer(1, 8, "width")
    high = case.integer(1, 3, "high")
    f4 = np.float32
    ang = f4(case.choice([case.rng.uniform(-20, 20, num),
                          np.linspace(0, np.pi, num),
                          np.arange(num) * np.pi / 2], "angles"))
    cen = f4(case.choice([0.0, width - 1.0, 0.5 * (width - 1), -3.0 * width,
                          5.0 * width, 1e6, case.uniform(-2, width + 2),
                          float(case.integer(-2, width + 2))], "center"))
    pad = case.choice([False, True], "edge_pad")
    block = block_of(case)
    vol = noise(case.rng, (num, high, width), -1, 1)
    grid = case.choice([np.arange(width) - 0.5 * (width - 1),
                        np.arange(width) * 1.0,
                        case.rng.uniform(-30, 30, width)], "grid")
    many = f4(np.stack([grid, -grid, grid * 3]))
    zero = f4(case.choice([0 * many, many[::-1].copy(), many + 0.5]))
    args = {
        "slice": (rec.back_projection_cpu, vol[:, 0].copy(), ang, cen, pad),
        "slice-gpu": (rec.back_projection_gpu, vol[:, 0].copy(), ang, cen,
                      block, pad),
        "chunk-gpu": (rec.back_projection_gpu_chunk, vol, ang, cen, block,
                      pad),
        "vertical": (vr.vertical_back_projection_cpu, vol, ang, many[0],
                     zero[0], cen, pad),
        "vertical-gpu": (vr.vertical_back_projection_gpu, vol, ang, many[0],
                         zero[0], cen, pad, block),
        "vertical-chunk": (vr.vertical_back_projection_cpu_chunk, vol, ang,
                           many, zero, cen, pad),
        "vertical-chunk-gpu": (vr.vertical_back_projection_gpu_chunk, vol,
                               ang, many, zero, cen, pad, block)}[which]
    func, rest = args[0], args[1:]
    if isinstance(func, kernels.Recorder) or hasattr(func, "py_func"):
        # a kernel of its own: recorded by name
        try:
            out = func(*rest)
        except (IndexError, SystemError) as err:
            case.fail("outside-" + which, "{}: {}".format(which, err))
            return
        calls, launches = [(func, list(rest), {})], []
        case.count("compiled calls with bounds checks")
        case.seen("kernels", func.py_func.__name__)
    else:
        out, calls, launches = guarded(case, which, func, *rest)
    if out is not None:
        case.check(np.all(np.isfinite(out)), "finite", which)
    track(case, which, calls, launches)
    where = "inside" if 0 <= cen <= width - 1 else "outside"
    case.seen("geometry", which, where, pad, width == 1, num == 1)


def correlate(case):
    """Images that just fit, one-pixel maps, odd and even windows."""
    which = case.cycle(["map", "map3", "map-gpu", "map3-gpu", "shift",
                        "local2", "local2-gpu", "local-1", "local-1-gpu",
                        "local-2", "local-2-gpu", "local-hybrid", "umpa",
                        "umpa-gpu", "points", "points-gpu"], "which")
    gpu = which.endswith("gpu")
    block = block_of(case)
    win, margin = case.integer(1, 4, "win"), case.integer(1, 2, "margin")
    edge = win // 2 + margin
    h = 2 * edge + case.integer(0, 3)
    w = 2 * edge + case.integer(0, 3)
    depth = case.integer(1, 2, "depth")
    ref = noise(case.rng, (depth, h, w), 1, 9)
    mat = np.roll(ref, case.integer(-1, 1), axis=case.choice([1, 2]))
    mat = mat + noise(case.rng, ref.shape, 0, .1)
    if case.choice([0, 0, 0, 1]):
        mat = case.choice([mat * 0, mat * 0 + 5])
    dtype = case.choice([np.float32, np.float64])
    ref, mat = ref.astype(dtype), mat.astype(dtype)
    kw = dict(gpu=gpu, block=block)
    loc = dict(win_size=win, margin=margin, ncore=1, chunk_size=case.choice(
        [1, 2, 100]), norm=False, **kw)
    if which.startswith("map"):
        h1, w1 = case.integer(1, h), case.integer(1, w)
        case.note(shapes=(ref.shape, h1, w1))
        if "3" not in which:
            ref, mat = ref[0], mat[0]
        args = [cl.generate_correlation_map, ref, mat[..., :h1, :w1].copy()]
    elif which == "shift":
        args = [cl.find_shift_based_correlation_map, ref, mat]
        kw = dict(margin=margin, method=case.choice(["diff", "poly_fit"]),
                  dim=case.choice([1, 2]))
    elif which.startswith("local2"):
        args, kw = [cl.find_local_shifts, ref[0], mat[0]], loc
    elif which.startswith("local"):
        args, kw = [cl.find_local_shifts, ref, mat], loc
        kw["dim"] = 1 if "-1" in which else 2
        if "hybrid" in which:
            kw["gpu"] = "hybrid"
    elif which.startswith("umpa"):
        args, kw = [cl.find_local_shifts_umpa, ref, mat], loc
        kw.pop("norm")
        kw["dark_signal"] = case.choice([True, False])
    else:
        args = [cl.find_global_shift_based_local_shifts, ref[0], mat[0],
                win, margin]
        kw = dict(gpu=gpu, num_point=case.integer(1, 9), ncore=1)
        if gpu:
            kw["block"] = case.choice([1, 3, 4, 16])
    out, calls, launches = guarded(case, which, args[0], *args[1:], **kw)
    if out is not None:
        case.seen("geometry", which, h - 2 * edge, w - 2 * edge, win % 2)
    track(case, which, calls, launches)


def transmission(case):
    """Windows displaced up to the margin, at the corners too."""
    win, num = case.choice([1, 3, 4, 5], "win"), case.integer(1, 2, "num")
    limit = case.integer(0, 3, "shift")
    pad = win // 2 + limit
    h, w = (2 * pad + case.integer(1, 4) for _ in range(2))
    if case.choice([0, 0, 1], "tall"):
        h = 2 * pad + 45
    ref, sam = (noise(case.rng, (num, h, w), 1, 2) for _ in range(2))
    if case.choice([0, 0, 1], "2d"):
        ref, sam = ref[0], sam[0]
    xs, ys = (case.rng.uniform(-limit, limit, (h, w)) for _ in range(2))
    for lst in (xs, ys):
        lst[0], lst[-1], lst[:, 0] = limit, -limit, limit
        lst[pad, pad] = -limit
        lst[h - pad - 1, w - pad - 1] = limit
    given = case.choice([None, limit], "margin")
    func = ps.get_transmission_dark_field_signal
    ncore = case.choice([1, 2], "ncore")
    if ncore == 2 and h > 30:
        # worker processes; errors come back as they are
        calls, launches = [], []
        try:
            out = func(ref, sam, xs, ys, win, margin=given, ncore=2)
        except (IndexError, SystemError) as err:
            out = None
            case.fail("outside-transmission", str(err))
    else:
        out, calls, launches = guarded(case, "transmission", func, ref, sam,
                                       xs, ys, win, margin=given,
                                       ncore=ncore)
    if out is not None:
        for name, mat in zip(("transmission", "dark"), out):
            case.check(mat.shape == (h, w), "shape-transmission", name)
            case.check(np.all(np.isfinite(mat)), "finite-transmission", name)
    if h < 30:
        track(case, "transmission", calls, launches)
    case.seen("geometry", "transmission", win, limit, given, h > 30)


def ordinary(case):
    """Ordinary calls of every function with a compiled kernel."""
    name = case.cycle(JIT, "recipe")
    call = recipes.make(case, name)
    if any(call.func is d for d in FOUND.values()):
        try:
            call.func(*call.args, **call.kwargs)
        except (IndexError, SystemError) as err:
            case.fail("outside-" + name, str(err))
        case.count("compiled calls with bounds checks")
        case.seen("kernels", call.func.py_func.__name__)
    else:
        guarded(case, name, run, call)
    case.seen("ordinary", name)


def finish(ctx):
    seen = {tag[2] for tag in ctx.tags if tag[1] == "kernels"}
    inner = {"_calculate_transmission_dark_field_values"}
    names = {d.py_func.__name__ for d in FOUND.values()} - inner
    if ctx.replay is None and names - seen:
        print("   kernels not reached:", sorted(names - seen))


def register(ctx):
    if not numba.config.BOUNDSCHECK or not cuda.is_available():
        raise Inconclusive("bounds checks or simulator not active")
    ctx.family("backproject", 140, 6000, backproject)
    ctx.family("correlate", 160, 5000, correlate)
    ctx.family("transmission", 40, 1500, transmission)
    ctx.family("ordinary", 2 * len(JIT), 40 * len(JIT), ordinary)
    ctx.expect_tags("backproject", 40)
    ctx.expect_tags("correlate", 60)
    ctx.expect_tags("transmission", 12)
    ctx.expect_tags("ordinary", len(JIT) - 1)
