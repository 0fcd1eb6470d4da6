"""P08: results do not depend on workers, threads, chunks or schedule."""
import contextlib
import multiprocessing
import sys
import threading
import time
import numpy as np
import numba
import scipy.ndimage as ndi
import kernels
import recipes
import algotom.util.utility as util
from checks.p07 import same, run, with_args
from vlib import noise

RULE = ("a class is one (function, worker setting) pair compared with the "
        "sequential run, one (function, thread count) pair, or one parallel "
        "kernel whose iterations were searched for conflicting accesses")
ASSUMPTIONS = ["threads of numba and joblib on one machine with 8 cores; no "
               "GPU",
               "iterations of a parallel loop are independent when no "
               "element written by one is used by another"]


def _probe():
    """Names of the calls that have worker settings or compiled kernels."""
    vary, jit = [], []

    class Probe:
        seed, prop, scratch, evaluations = 1, "P08", None, 0
        tags, counters = set(), {}

    import os
    import shutil
    import tempfile
    from vlib import Case
    Probe.scratch = tempfile.mkdtemp()
    for name in sorted(recipes.RECIPES):
        case = Case(Probe, "probe", 0)
        call = recipes.make(case, name)
        if call.vary:
            vary.append(name)
        if call.numba:
            jit.append(name)
        case.close_dir()
    shutil.rmtree(Probe.scratch, ignore_errors=True)
    assert not os.path.exists(Probe.scratch)
    return vary, jit


VARY, JIT = _probe()


@contextlib.contextmanager
def hostile(rng, cpus=None, delay=0.004):
    """Short switch interval, random delays in the workers, fewer CPUs."""
    import concurrent.futures.thread as cft
    import joblib.parallel as jp
    old = sys.getswitchinterval()
    batch, item = jp.BatchedCalls.__call__, cft._WorkItem.run
    lock = threading.Lock()
    count = [0]

    def pause():
        with lock:
            count[0] += 1
            wait = float(rng.uniform(0, delay)) * int(rng.integers(0, 2))
            # many short tasks: only some of them
            wait *= count[0] < 60 or count[0] % 16 == 0
        time.sleep(wait)

    def call(self, *args, **kwargs):
        pause()
        return batch(self, *args, **kwargs)

    def work(self, *args, **kwargs):
        pause()
        return item(self, *args, **kwargs)

    number = multiprocessing.cpu_count
    context = multiprocessing.get_context
    if cpus is not None:
        multiprocessing.cpu_count = lambda: cpus
    sys.setswitchinterval(2e-5)
    jp.BatchedCalls.__call__ = call
    cft._WorkItem.run = work
    try:
        yield count
    finally:
        sys.setswitchinterval(old)
        jp.BatchedCalls.__call__ = batch
        cft._WorkItem.run = item
        multiprocessing.cpu_count = number
        multiprocessing.get_context = context


def workers(case):
    name = case.cycle(VARY, "recipe")
    call = recipes.make(case, name)
    want = run(call)
    key = case.choice(sorted(call.vary), "setting")
    options = list(call.vary[key])
    # processes are slow to start and see the same code path
    if key == "prefer" and case.index % 2:
        key, options = "ncore", list(call.vary["ncore"])
    value = case.choice(options, "value")
    change = {key: value}
    if key == "prefer":
        change["ncore"] = 2
    elif key != "ncore" and case.choice([0, 1]):
        change["ncore"] = case.choice([2, 4])
    change = {k: v for k, v in change.items()
              if k in call.kwargs or k == "prefer"}
    cpus = case.choice([None, 1, 2, 4, 16], "cpus")
    if key == "prefer":
        cpus = None
    if case.index < len(VARY):
        # automatic number of workers on the smallest machine
        change, key, value, cpus = {"ncore": None}, "ncore", "auto", 1
    case.note(change=change)
    other = with_args(call, lambda arr: arr)
    other.kwargs.update(change)
    with hostile(case.rng, cpus) as count:
        got = run(other)
    case.count("delays in workers", count[0])
    same(case, got, want, "workers", "{} with {} on {} CPUs".format(
        name, change, cpus), call.tol)
    case.seen("workers", name, key, value)


SHIFTS = [(form, fit, norm) for form in ("image", "stack", "lines", "umpa",
                                        "points")
          for fit in (("poly_fit", 5), ("diff", 3), ("poly_fit", 3))
          for norm in (False, True)
          if not norm or form not in ("lines", "umpa")]
SHIFTS += [("signals", ("mean", num), False) for num in (1, 2, 3)]


def shifts(case):
    """Every form of the shifts, sequentially and with several workers."""
    import algotom.util.correlation as cl
    form, (method, size), norm = case.cycle(SHIFTS, "form")
    ref, mat = recipes.stacks(case, 3, case.integer(22, 27),
                              case.integer(22, 27), np.float64)
    kwargs = dict(method=method, size=size, gpu=False)
    if form == "points":
        ref, mat = recipes.stacks(case, 1, 40, 44, np.float64)
        ref, mat = ref[0], mat[0]

        def work(ncore):
            return cl.find_global_shift_based_local_shifts(
                ref, mat, 9, 4, list_ij=[[16, 19, 22], [17, 24, 20]],
                global_value=value, return_list=True, norm=norm,
                ncore=ncore, **kwargs)
        value = case.choice(["median", "mean", "mixed"], "value")
        kwargs.pop("gpu")
    elif form == "signals":
        import algotom.prep.phase as ps
        win, margin = case.choice([3, 4, 5]), case.choice([2, None], "margin")
        ref, mat = recipes.stacks(case, size, case.integer(90, 115),
                                  case.integer(20, 30), np.float64)
        if size == 1:
            ref, mat = ref[0], mat[0]
        grid = np.indices(ref.shape[-2:])
        xs, ys = (2 * np.sin(case.rng.uniform(0.2, 0.6) * grid[0]
                             + case.rng.uniform(0.2, 0.6) * grid[1])
                  for _ in range(2))

        def work(ncore):
            return np.asarray(ps.get_transmission_dark_field_signal(
                ref, mat, xs, ys, win, margin=margin, ncore=ncore))
    elif form == "umpa":
        dark = case.choice([True, False], "dark")

        def work(ncore):
            return cl.find_local_shifts_umpa(
                ref, mat, win_size=5, margin=3, dark_signal=dark,
                chunk_size=chunk if ncore != 1 else 100, ncore=ncore,
                **kwargs)
    else:
        dim = 1 if form == "lines" else 2
        if form == "image":
            ref, mat = ref[0], mat[0]

        def work(ncore):
            return cl.find_local_shifts(
                ref, mat, dim=dim, win_size=5, margin=3, norm=norm,
                norm_global=True, ncore=ncore,
                chunk_size=chunk if ncore != 1 else 100, **kwargs)
    chunk = case.choice([1, 3, 100], "chunk") if not norm else 100
    want = work(1)
    for ncore in (2, case.choice([3, None], "ncore")):
        with hostile(case.rng, case.choice([None, 2, 4, 16], "cpus")):
            got = work(ncore)
        same(case, got, want, "shifts", "{} {} size {} norm {} with {} "
             "workers, chunks of {}".format(form, method, size, norm, ncore,
                                            chunk), 1e-5)
    case.seen("shifts", form, method, size, norm)


def threads(case):
    name = case.cycle(JIT, "recipe")
    call = recipes.make(case, name)
    most = numba.config.NUMBA_NUM_THREADS
    numba.set_num_threads(1)
    try:
        want = run(call)
        for num in (most, case.integer(2, most), most):
            numba.set_num_threads(num)
            got = run(call)
            same(case, got, want, "threads", "{} in {} threads".format(
                name, num), call.tol)
            case.count("runs in several threads")
        old = numba.set_parallel_chunksize(case.choice([1, 2, 5]))
        try:
            same(case, run(call), want, "chunks", name + " in small chunks",
                 call.tol)
        finally:
            numba.set_parallel_chunksize(old)
    finally:
        numba.set_num_threads(most)
    case.check(numba.get_num_threads() == most, "thread-count",
               "the number of threads changed")
    case.seen("threads", name)


def big_threads(case):
    """Kernels on images large enough for all threads to be busy."""
    import algotom.rec.reconstruction as rec
    import algotom.rec.vertrec as vr
    which = case.cycle(["fbp", "bpf", "kernel", "vertical", "chunk"],
                       "which")
    most = numba.config.NUMBA_NUM_THREADS
    size, num = case.integer(90, 140), case.integer(60, 120)
    ang = np.linspace(0, np.pi, num).astype(np.float32)
    mid = np.float32(size / 2.0 - 1.7)
    if which in ("fbp", "bpf", "kernel"):
        mat = noise(case.rng, (num, size), 0.3, 1.5)
        if which == "kernel":
            def work():
                return rec.back_projection_cpu(mat, ang, mid, True)
        else:
            func = rec.fbp_reconstruction if which == "fbp" else \
                rec.bpf_reconstruction

            def work():
                return func(mat, mid, gpu=False, apply_log=False)
    else:
        vol = noise(case.rng, (num, 24, size), 0, 1)
        grid = (np.arange(size) - size / 2.0).astype(np.float32)
        if which == "vertical":
            def work():
                return vr.vertical_back_projection_cpu(
                    vol, ang, grid, grid * 0 + 3, mid, False)
        else:
            mats = np.tile(grid, (12, 1))

            def work():
                return vr.vertical_back_projection_cpu_chunk(
                    vol, ang, mats, mats * 0 + np.arange(12.0)[:, None],
                    mid, True)
    numba.set_num_threads(1)
    try:
        want = np.copy(work())
        numba.set_num_threads(most)
        for _ in range(6):
            case.near(work(), want, "big", which + " in all threads",
                      rtol=1e-6)
            case.count("runs in all threads")
    finally:
        numba.set_num_threads(most)
    case.seen("big", which)


def races(case):
    """Conflicting accesses between iterations of the parallel loops."""
    name = case.cycle(JIT, "recipe")
    call = recipes.make(case, name)
    found = kernels.dispatchers(recipes.MODULES)
    wanted = [d for d in found.values()
              if d.targetoptions.get("parallel")]
    if any(call.func is d for d in wanted):
        calls = [(call.func, call.args, call.kwargs)]
    else:
        with kernels.Recording(recipes.MODULES, wanted, 2) as record:
            run(call)
        calls = record.calls
    for kernel, args, kwargs in calls:
        size = [a.size for a in args if isinstance(a, np.ndarray)]
        if max(size) > 6000:
            args = small(args)
        log = kernels.Log()
        label = kernel.py_func.__name__
        try:
            kernels.interpret(kernel, args, log, kwargs)
        except Exception as err:
            # construct unknown to the interpreter: left to the schedules
            case.count("not interpreted: {} {}".format(
                label, type(err).__name__))
            continue
        case.check(not log.conflicts, "race-" + label,
                   "{}: {} conflicting accesses, {}".format(
                       label, len(log.conflicts), log.conflicts[:2]))
        case.count("tracked accesses", log.accesses)
        case.count("tracked iterations", log.iterations)
        if log.regions:
            case.seen("race", label, name)


def small(args):
    """Fewer projections: the number of iterations stays."""
    num = args[0].shape[0]
    keep = max(2, num // 8)
    return [a[:keep] if isinstance(a, np.ndarray) and a.ndim and
            len(a) == num else a for a in args]


def add_one(mat, gain, offset=0.0, log=None):
    """Method of a user; keeps what it received."""
    if log is not None:
        log.append(mat.shape)
    return mat * gain + offset


def slices(case):
    """parallel_process_slices equals a loop over the slices."""
    shape = tuple(case.integer(2, 12) for _ in range(3))
    dtype = case.choice([np.float32, np.float64, np.uint16, np.uint8, bool],
                        "dtype")
    vol = noise(case.rng, shape, 0, 200).astype(dtype)
    axis = case.cycle([0, 1, 2, 1, -3], "axis")
    if axis == -3:
        axis = 0
    ncore = case.choice([1, 2, 3, 8, None, 50], "ncore")
    prefer = "threads"
    if case.index % 24 == 5:
        prefer, ncore = "processes", 2
    kind = case.choice(["list", "scalar", "kwargs", "array", "filter"],
                       "parameters")
    offset = 0.0
    kwargs = {}
    gain = case.uniform(0.5, 2)
    para = [gain]
    if kind == "scalar":
        para = gain
    elif kind == "kwargs":
        offset = case.uniform(-5, 5)
        kwargs = {"offset": offset}
    elif kind == "array":
        other = [s for i, s in enumerate(shape) if i != axis]
        gain = noise(case.rng, other, 0.5, 2)
        para = gain
    data, fin = vol, None
    if case.choice([0, 0, 1], "hdf"):
        import os
        import h5py
        path = os.path.join(case.dir, "v.hdf")
        with h5py.File(path, "w") as fout:
            fout["v"] = vol
        fin = h5py.File(path, "r")
        data = fin["v"]
        prefer = "threads"
    func, want_of = add_one, lambda m: add_one(m, gain, offset)
    if kind == "filter":
        func, para = ndi.uniform_filter, [3]
        if dtype is bool:
            vol = vol.astype(np.float32)
            data = vol if fin is None else data
            if fin is not None:
                return fin.close()

        def want_of(m):
            return ndi.uniform_filter(m, 3)
    before = vol.copy()
    try:
        with hostile(case.rng, case.choice([None, 1, 3], "cpus"), 0.002):
            got = util.parallel_process_slices(data, func, para, axis=axis,
                                               ncore=ncore, prefer=prefer,
                                               **kwargs)
    finally:
        if fin is not None:
            fin.close()
    want = np.stack([np.float32(want_of(np.take(vol, i, axis=axis)))
                     for i in range(shape[axis])], axis=axis)
    case.check(got.dtype == np.float32, "dtype", str(got.dtype))
    case.near(got, want, "slices", "slices along axis {}".format(axis),
              rtol=1e-6)
    case.equal(vol, before, "mutated", "input")
    case.check(got.flags["OWNDATA"] or got.base is None or
               not np.shares_memory(got, vol), "shared",
               "the output shares memory with the input")
    case.seen("slices", axis, kind, np.dtype(dtype).name, prefer)


def register(ctx):
    nv, nj = len(VARY), len(JIT)
    ctx.family("workers", 4 * nv, 60 * nv, workers)
    ctx.family("shifts", len(SHIFTS), 12 * len(SHIFTS), shifts)
    ctx.family("threads", 2 * nj, 30 * nj, threads)
    ctx.family("big_threads", 10, 200, big_threads)
    ctx.family("races", 2 * nj, 30 * nj, races)
    ctx.family("slices", 60, 1500, slices)
    ctx.expect_tags("workers", int(1.5 * nv))
    ctx.expect_tags("threads", nj - 1)
    ctx.expect_tags("slices", 20)
