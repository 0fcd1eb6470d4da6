"""P07: inputs are never modified and calls do not influence one another."""
import copy
import os
import pickle
import struct
import warnings
import numpy as np
import recipes
from vlib import Case, Context, digest, snapshot, tree_diff

RULE = ("a class is one (function, monitor) pair: the function was run with "
        "digested, write-protected, fenced or re-laid-out arguments, or "
        "compared with its value in a fresh process")
ASSUMPTIONS = ["random draws are made comparable by seeding the global "
               "generator before each run"]
NAMES = sorted(recipes.RECIPES)


# ------------------------------------------------------------- comparison

def leaves(obj, path="", depth=0):
    if isinstance(obj, dict):
        for key in sorted(obj, key=str):
            yield from leaves(obj[key], "{}[{}]".format(path, key))
    elif isinstance(obj, (list, tuple)) and depth < 6:
        try:
            arr = np.asarray(obj)
        except ValueError:
            arr = None
        if arr is not None and arr.dtype.kind in "biufc":
            yield path, arr
            return
        yield path + "#", np.asarray(len(obj))
        for i, val in enumerate(obj):
            yield from leaves(val, "{}[{}]".format(path, i), depth + 1)
    elif obj is None:
        yield path + "=None", np.zeros(0)
    elif isinstance(obj, (np.ndarray, np.generic, int, float, bool, complex)):
        yield path, np.asarray(obj)
    else:
        yield path + "=" + type(obj).__name__, np.asarray(str(obj))


def same(case, got, want, key, msg, tol):
    got, want = list(leaves(got)), list(leaves(want))
    if not case.check([g[0] for g in got] == [w[0] for w in want], key,
                      "{}: structure {} instead of {}".format(
                          msg, [g[0] for g in got][:8],
                          [w[0] for w in want][:8])):
        return False
    ok = True
    for (path, one), (_, two) in zip(got, want):
        if one.dtype.kind in "biufc":
            ok &= case.near(one, two, key, msg + " " + path, rtol=tol,
                            atol=tol * 1e-3)
        else:
            ok &= case.check(one == two, key, "{} {}: {} instead of {}".format(
                msg, path, one, two))
    return ok


def change(obj, func, depth=0):
    """Copy with every array replaced by func(array)."""
    if isinstance(obj, np.ndarray):
        return func(obj)
    if isinstance(obj, list) and depth < 5:
        return [change(o, func, depth + 1) for o in obj]
    if isinstance(obj, tuple) and depth < 5:
        return tuple(change(o, func, depth + 1) for o in obj)
    if isinstance(obj, dict) and depth < 5:
        return {k: change(v, func, depth + 1) for k, v in obj.items()}
    return obj if isinstance(obj, type) or callable(obj) \
        else copy.deepcopy(obj)


def with_args(call, func):
    other = copy.copy(call)
    other.args = change(call.args, func)
    other.kwargs = change(call.kwargs, func)
    return other


def settings():
    return {"errors": np.geterr(), "warnings": list(warnings.filters),
            "directory": os.getcwd(), "environment": dict(os.environ)}


def run(call, seed=5):
    np.random.seed(seed)
    try:
        return copy.deepcopy(call.run())
    except ValueError as err:
        # documented refusal of data without noise
        if "noise-free" in str(err):
            return "refused"
        raise


def fail_of(case, err, key, msg):
    case.fail(key, "{}: {}".format(msg, case.ctx._where(err)))


# ----------------------------------------------------------------- purity

def purity(case):
    name = case.cycle(NAMES, "recipe")
    call = recipes.make(case, name)
    frozen = with_args(call, np.copy)
    before = digest(call.args), digest(call.kwargs)
    source = os.path.join(case.dir, "input")
    files = snapshot(source)
    state = settings()
    want = run(call)
    case.check((digest(call.args), digest(call.kwargs)) == before,
               "mutated", "{} changed its arguments".format(name))
    gone, changed, new = tree_diff(files, snapshot(source))
    case.check(not (gone or changed or new), "input-files",
               "{} changed its input files: {}".format(
                   name, (gone + changed + new)[:3]))
    for key, val in settings().items():
        case.check(val == state[key], "settings-" + key,
                   "{} changed the {} of the process".format(name, key))
    case.count("argument digests", 2)
    # the same objects again
    again = run(call)
    same(case, again, want, "repeat", name + " a second time", call.tol)
    # copies surrounded by poison
    walls = []

    def fence(arr):
        if arr.dtype.kind not in "biuf" or arr.size == 0:
            return arr.copy()
        poison = np.nan if arr.dtype.kind == "f" else (
            True if arr.dtype.kind == "b" else np.iinfo(arr.dtype).max)
        buf = np.full(arr.size + 256, poison, dtype=arr.dtype)
        buf[128:-128] = arr.ravel()
        walls.append((buf, digest(buf[:128]), digest(buf[-128:])))
        return buf[128:-128].reshape(arr.shape)

    got = run(with_args(frozen, fence))
    same(case, got, want, "fence", name + " on arrays inside a larger buffer",
         call.tol)
    for buf, head, tail in walls:
        case.check(digest(buf[:128]) == head and digest(buf[-128:]) == tail,
                   "outside", "{} wrote outside of its input".format(name))
    case.count("fences", len(walls))

    def protect(arr):
        arr = np.copy(arr)
        arr.flags.writeable = False
        return arr

    try:
        got = run(with_args(frozen, protect))
    except Exception as err:
        fail_of(case, err, "read-only", "{} on read-only arrays".format(name))
    else:
        same(case, got, want, "read-only", name + " on read-only arrays",
             call.tol)
    case.count("write-protected runs")
    case.seen(name)


def layouts(case):
    name = case.cycle(NAMES, "recipe")
    call = recipes.make(case, name)
    how = case.choice(["fortran", "columns", "rows", "reverse"], "layout")
    if call.numba and case.ctx.tier == "quick" and case.index % 3:
        return      # every layout of a compiled kernel costs seconds
    holes = []

    def lay(arr):
        if arr.dtype.kind not in "biuf" or arr.size == 0:
            return arr.copy()
        if how == "fortran" or arr.ndim == 0:
            return np.asfortranarray(arr)
        if how == "reverse":
            return np.ascontiguousarray(arr[..., ::-1])[..., ::-1]
        shape = list(arr.shape)
        pick = [slice(None)] * arr.ndim
        axis = 0 if how == "rows" else arr.ndim - 1
        shape[axis] *= 2
        pick[axis] = slice(None, None, 2)
        gap = list(pick)
        gap[axis] = slice(1, None, 2)
        poison = np.nan if arr.dtype.kind == "f" else 1
        buf = np.full(shape, poison, arr.dtype)
        buf[tuple(pick)] = arr
        holes.append((buf[tuple(gap)], digest(buf[tuple(gap)])))
        return buf[tuple(pick)]

    want = run(with_args(call, np.copy))
    other = with_args(call, lay)
    before = digest(other.args), digest(other.kwargs)
    try:
        got = run(other)
    except Exception as err:
        fail_of(case, err, "layout-refused", "{} on {} arrays".format(
            name, how))
        return
    same(case, got, want, "layout", "{} on {} arrays".format(name, how),
         max(call.tol, 2e-5))
    case.check((digest(other.args), digest(other.kwargs)) == before,
               "mutated-layout", "{} changed its {} arguments".format(
                   name, how))
    for view, mark in holes:
        case.check(digest(view) == mark, "outside-layout",
                   "{} wrote between the elements of a view".format(name))
    case.seen(name, how)


# ---------------------------------------------------------- fresh processes

class Zygote:
    """Process forked before any call; forks a clean child per request."""

    def __init__(self, ctx):
        self.ctx = ctx
        down, self.send = os.pipe()
        self.recv, up = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.send)
            os.close(self.recv)
            self.serve(down, up)
        os.close(down)
        os.close(up)

    def serve(self, down, up):
        import resource
        import signal
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        while True:
            data = os.read(down, 4)
            if len(data) < 4:
                os._exit(0)
            text = b""
            size = struct.unpack("I", data)[0]
            while len(text) < size:
                text += os.read(down, size - len(text))
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    self.answer(pickle.loads(text))
                    code = 0
                finally:
                    os._exit(code)
            os.waitpid(pid, 0)
            os.write(up, b"k")

    def answer(self, request):
        family, index, number, path = request
        ctx = Context(self.ctx.prop, self.ctx.tier, self.ctx.repo,
                      self.ctx.scratch + "/fresh", seed=self.ctx.seed)
        case = Case(ctx, family, index)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = ("value", run(variants(case, number)))
        except Exception as err:
            out = ("error", repr(err))
        case.close_dir()
        with open(path, "wb") as fout:
            pickle.dump(out, fout)

    def value(self, family, index, number):
        path = os.path.join(self.ctx.scratch, "fresh.pkl")
        if os.path.exists(path):
            os.remove(path)
        text = pickle.dumps((family, index, number, path))
        os.write(self.send, struct.pack("I", len(text)) + text)
        if os.read(self.recv, 1) != b"k" or not os.path.exists(path):
            return "error", "the fresh process died"
        with open(path, "rb") as fin:
            return pickle.load(fin)

    def close(self):
        os.close(self.send)
        os.close(self.recv)
        os.waitpid(self.pid, 0)


NUM = 4


def variants(case, number=None):
    """Four calls of one function; the last reuses the arrays of the first.

    With a number only that call is returned, in the state it had when it
    was made.
    """
    name = NAMES[case.index % len(NAMES)]
    calls = [recipes.make(case, name) for _ in range(NUM - 1)]
    if number is None:
        return name, calls
    if number < NUM - 1:
        return calls[number]
    reuse(calls[0])
    return calls[0]


def reuse(call):
    """Other content in the same array objects."""
    def roll(arr):
        if arr.flags.writeable and arr.ndim > 0 and arr.size:
            arr[...] = np.roll(arr, 1, axis=0)
        return arr
    change(call.args, roll)


def history(case):
    name, calls = variants(case)
    case.note(recipe=name)
    got = [run(call) for call in calls]
    order = case.rng.permutation(NUM - 1)
    for k in order:
        same(case, run(calls[k]), got[k], "history",
             "{} after other calls of it".format(name), calls[k].tol)
    numbers = range(NUM)
    if calls[0].numba and case.ctx.tier == "quick":
        numbers = [case.integer(0, NUM - 1)]
    for k in numbers:
        if k == NUM - 1:
            try:
                reuse(calls[0])
                value = run(calls[0])
            except Exception as err:
                value = repr(err)
            call = calls[0]
        else:
            value, call = got[k], calls[k]
        kind, fresh = zygote.value(case.family, case.index, k)
        if kind == "error":
            case.check(fresh == value, "fresh-error",
                       "{} fails in a fresh process only: {}".format(
                           name, fresh))
            continue
        if isinstance(value, str) and not isinstance(fresh, str):
            case.fail("fresh-error", "{} fails after other calls: {}".format(
                name, value))
            continue
        same(case, value, fresh, "fresh" if k < NUM - 1 else "reused",
             "{} compared with a fresh process".format(name), call.tol)
        case.count("fresh processes")
    case.seen(name)


zygote = None


def register(ctx):
    global zygote
    os.makedirs(os.path.join(ctx.scratch, "fresh", "work"), exist_ok=True)
    zygote = Zygote(ctx)
    num = len(NAMES)
    ctx.family("purity", 2 * num, 30 * num, purity)
    ctx.family("layouts", 2 * num, 16 * num, layouts)
    ctx.family("history", num, 12 * num, history)
    ctx.expect_tags("purity", int(0.95 * num))
    ctx.expect_tags("history", int(0.95 * num))
    ctx.expect_tags("layouts", int(0.8 * num))


def finish(ctx):
    zygote.close()
