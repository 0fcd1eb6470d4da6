"""Interpreter for numba kernels: races between iterations, stray indices.

The Python source of a compiled kernel is executed on arrays that log every
element read or written, with the iteration of the outermost parallel loop
in which it happened.  The verdict does not depend on a schedule: two
iterations touching one element, one of them writing, conflict under some
schedule whatever was observed.
"""
import importlib
import types

import numpy as np


def algotom_modules(names):
    return [importlib.import_module("algotom." + n) for n in names]


def dispatchers(modules):
    """Every CPU-compiled function: {(module, name): dispatcher}."""
    from numba.core.registry import CPUDispatcher
    found = {}
    for mod in modules:
        for name, obj in list(vars(mod).items()):
            if isinstance(obj, CPUDispatcher) and \
                    getattr(obj.py_func, "__module__", "") == mod.__name__:
                found[(mod, name)] = obj
    return found


class Log:
    def __init__(self):
        self.region = 0
        self.iteration = None
        self.depth = 0
        self.writes = {}        # (region, array, element) -> iteration
        self.reads = {}         # (region, array, element) -> set
        self.conflicts = []
        self.stray = []
        self.accesses = 0
        self.regions = 0
        self.iterations = 0
        self.arrays = 0

    def touch(self, arr, ids, write):
        if self.iteration is None:
            self.accesses += 1
            return
        now = self.iteration
        for elem in np.ravel(ids):
            self.accesses += 1
            key = (self.region, arr, int(elem))
            other = self.writes.get(key)
            if other is not None and other != now:
                self.conflict(key, other, now, write)
            seen = self.reads.setdefault(key, set())
            if write:
                for old in seen:
                    if old != now:
                        self.conflict(key, old, now, write)
                        break
                self.writes[key] = now
            elif len(seen) < 2:
                seen.add(now)

    def conflict(self, key, other, now, write):
        if len(self.conflicts) < 50:
            self.conflicts.append(
                "element {} of array {}: iteration {} {} what iteration {} "
                "used".format(key[2], key[1], now,
                              "writes" if write else "reads", other))


class Tracked(np.ndarray):
    """Array that reports every access to its log."""

    def __new__(cls, data, log, ids=None, name=None):
        obj = np.asarray(data).view(cls)
        obj.log = log
        if ids is None:
            log.arrays += 1
            name = log.arrays if name is None else name
            ids = np.arange(obj.size).reshape(obj.shape)
        obj.ids, obj.name = ids, name
        return obj

    def __array_finalize__(self, obj):
        if not hasattr(self, "log"):
            self.log = self.ids = self.name = None

    def _where(self, key):
        try:
            return self.ids[key]
        except IndexError:
            if len(self.log.stray) < 50:
                self.log.stray.append("index {} of an array of shape {}"
                                      .format(key, self.shape))
            raise

    def __getitem__(self, key):
        if self.ids is None:
            return np.asarray(self)[key]
        ids = self._where(key)
        val = np.asarray(self)[key]
        if isinstance(val, np.ndarray) and val.ndim:
            if np.shares_memory(val, np.asarray(self)):
                return Tracked(val, self.log, ids, self.name)
            self.log.touch(self.name, ids, False)
            return val
        self.log.touch(self.name, ids, False)
        return val

    def __setitem__(self, key, val):
        if self.ids is not None:
            self.log.touch(self.name, self._where(key), True)
        np.asarray(self)[key] = plain(val)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        for arg in inputs:
            if isinstance(arg, Tracked) and arg.ids is not None and \
                    not (out and any(o is arg for o in out)):
                arg.log.touch(arg.name, arg.ids, False)
        if out:
            for arg in out:
                # whole-array in-place operation: a reduction for numba
                if isinstance(arg, Tracked) and arg.ids is not None and \
                        arg.ids.size != np.prod(arg.shape):
                    arg.log.touch(arg.name, arg.ids, True)
            kwargs["out"] = tuple(plain(o) for o in out)
        res = getattr(ufunc, method)(*[plain(i) for i in inputs], **kwargs)
        return out[0] if out and len(out) == 1 else res

    def __array_function__(self, func, _types, args, kwargs):
        for arg in list(args) + list(kwargs.values()):
            if isinstance(arg, Tracked) and arg.ids is not None:
                arg.log.touch(arg.name, arg.ids, False)
        return func(*[strip(a) for a in args],
                    **{k: strip(v) for k, v in kwargs.items()})


def plain(val):
    return np.asarray(val) if isinstance(val, Tracked) else val


def strip(val):
    if isinstance(val, (list, tuple)):
        return type(val)(strip(v) for v in val)
    return plain(val)


class Shim:
    """Module whose array creators return tracked arrays."""
    MAKERS = ("zeros", "empty", "ones", "full", "zeros_like", "empty_like",
              "ones_like", "full_like", "copy")

    def __init__(self, module, log):
        self._module, self._log = module, log

    def __getattr__(self, name):
        obj = getattr(self._module, name)
        if name in self.MAKERS:
            def make(*args, **kwargs):
                return Tracked(obj(*[strip(a) for a in args],
                                   **{k: strip(v) for k, v in
                                      kwargs.items()}), self._log)
            return make
        if name == "prange":
            return prange_of(self._log)
        return obj


def prange_of(log):
    def run(*args):
        if log.depth:
            yield from range(*args)
            return
        log.depth += 1
        log.region += 1
        log.regions += 1
        try:
            for i in range(*args):
                log.iteration = i
                log.iterations += 1
                yield i
        finally:
            log.iteration = None
            log.depth -= 1
    return run


def interpret(dispatcher, args, log, kwargs=None):
    """Execute the kernel's source on tracked copies of the arguments."""
    from numba.core.registry import CPUDispatcher
    import numba
    done = {}

    def convert(func):
        if func in done:
            return done[func]
        space = dict(func.__globals__)
        new = types.FunctionType(func.__code__, space, func.__name__,
                                 func.__defaults__, func.__closure__)
        new.__kwdefaults__ = func.__kwdefaults__
        done[func] = new
        for key, val in list(space.items()):
            if val is np or val is numba:
                space[key] = Shim(val, log)
            elif val is numba.prange:
                space[key] = prange_of(log)
            elif isinstance(val, CPUDispatcher):
                space[key] = convert(val.py_func)
        return new

    def wrap(val):
        if isinstance(val, np.ndarray):
            return Tracked(val.copy(), log)
        return val

    kernel = convert(dispatcher.py_func)
    with np.errstate(all="ignore"):
        return kernel(*[wrap(a) for a in args],
                      **{k: wrap(v) for k, v in (kwargs or {}).items()})


class Recorder:
    """Stand-in of a dispatcher that also keeps its arguments."""

    def __init__(self, dispatcher, sink, limit):
        self._dispatcher, self._sink, self._limit = dispatcher, sink, limit

    def __call__(self, *args, **kwargs):
        if len(self._sink) < self._limit:
            self._sink.append((self._dispatcher, [
                a.copy() if isinstance(a, np.ndarray) else a for a in args],
                dict(kwargs)))
        return self._dispatcher(*args, **kwargs)

    def __getattr__(self, name):
        return getattr(self._dispatcher, name)


class Recording:
    """Replaces dispatchers in every module that holds them."""

    def __init__(self, modules, wanted, limit=6):
        self.modules, self.limit = modules, limit
        self.wanted = set(id(d) for d in wanted)
        self.keep = list(wanted)
        self.calls = []

    def __enter__(self):
        self.undo = []
        for mod in self.modules:
            for name, obj in list(vars(mod).items()):
                if id(obj) in self.wanted:
                    self.undo.append((mod, name, obj))
                    setattr(mod, name, Recorder(obj, self.calls, self.limit))
        return self

    def __exit__(self, *exc):
        for mod, name, obj in self.undo:
            setattr(mod, name, obj)
        return False


# ------------------------------------------------------------- GPU kernels

class Point:
    def __init__(self, vals):
        self.x, self.y, self.z = (tuple(vals) + (0, 0, 0))[:3]


class CudaShim:
    """What a kernel may ask the cuda module for, for one thread."""

    def __init__(self, grid, block):
        self._grid, self._block = grid, block
        self.gridDim, self.blockDim = Point(grid), Point(block)

    def place(self, where, thread):
        self.blockIdx, self.threadIdx = Point(where), Point(thread)
        self._pos = [w * b + t for w, b, t in
                     zip(where, self._block, thread)]

    def grid(self, ndim):
        return self._pos[0] if ndim == 1 else tuple(self._pos[:ndim])

    def gridsize(self, ndim):
        size = [g * b for g, b in zip(self._grid, self._block)]
        return size[0] if ndim == 1 else tuple(size[:ndim])


def interpret_gpu(func, grid, block, args, log):
    """Every thread of the launch on tracked copies of the arguments."""
    from numba import cuda
    shim = CudaShim(grid, block)
    done = {}

    def convert(fun):
        if fun in done:
            return done[fun]
        space = dict(fun.__globals__)
        new = types.FunctionType(fun.__code__, space, fun.__name__,
                                 fun.__defaults__, fun.__closure__)
        done[fun] = new
        for key, val in list(space.items()):
            if val is cuda:
                space[key] = shim
            elif type(val).__name__ == "FakeCUDAKernel":
                space[key] = convert(val.fn)
        return new

    kernel = convert(func)
    tracked = [Tracked(a.copy(), log) if isinstance(a, np.ndarray) and a.ndim
               else a for a in args]
    log.region, log.regions = 1, log.regions + 1
    try:
        with np.errstate(all="ignore"):
            for num, where in enumerate(np.ndindex(*grid)):
                for sub, thread in enumerate(np.ndindex(*block)):
                    shim.place(where, thread)
                    log.iteration = num * int(np.prod(block)) + sub
                    log.iterations += 1
                    kernel(*tracked)
    finally:
        log.iteration = None
    return tracked


class Launches:
    """Records the launches of kernels in the CUDA simulator."""

    def __init__(self, limit=2):
        self.limit, self.calls, self.number = limit, [], 0

    def __enter__(self):
        from numba.cuda.simulator import kernel as sim
        self.cls, self.old = sim.FakeCUDAKernel, sim.FakeCUDAKernel.__call__
        old, me = self.old, self

        def call(kern, *args):
            if not kern._device:
                me.number += 1
                if len(me.calls) < me.limit:
                    me.calls.append((kern.fn, kern.grid_dim, kern.block_dim, [
                        a.copy() if isinstance(a, np.ndarray) else a
                        for a in args]))
            return old(kern, *args)

        self.cls.__call__ = call
        return self

    def __exit__(self, *exc):
        self.cls.__call__ = self.old
        return False
