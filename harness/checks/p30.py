"""P30: results depend on the values of an array, not on its number type."""
import numpy as np
import recipes
from checks import p07

RULE = ("a class is one (function, number type) pair: the function was run on "
        "the same whole numbers stored in that type and in double precision")
ASSUMPTIONS = ["the values are whole numbers which every tested type holds "
               "exactly; rounding of the output to whole grey levels is "
               "allowed where the type of the input is kept"]
# Not compared, or only under a looser rule
OTHER = {
    # the input is a phase in radian
    "phase.get_quality_map", "phase.get_weight_mask",
    "phase.unwrap_phase_based_cosine_transform",
    "phase.unwrap_phase_based_fft", "phase.unwrap_phase_iterative_fft",
    # the input is normalised
    "correction.hardening", "phase.transmission", "calibration.distance",
    "simulation.xray",
    # position of the best of many nearly equal candidates
    "calculation.search_overlap", "calculation.find_overlap",
    "calculation.find_overlap_multiple", "calculation.find_center_360",
    "calculation.find_center_projection", "calculation.find_center_vo",
    "calculation.coarse_search", "calculation.fine_search",
    # the files have a fixed set of types; grey levels by type
    "post.downsample_dataset",
    "io.save_image", "io.save_multiple",
}
# Sorting: the order of equal values may change
TIES = {"removal.filtering_sorting", "removal.sorting", "removal.fitting"}


def sorts(name, call):
    return name in TIES or name.startswith("post.ring") or \
        bool(call.kwargs.get("sort"))


TYPES = ["uint16", "int32", "float32", "uint32"]


def whole(case, call):
    """Replace the images of a call by images of whole numbers."""
    number = [0]
    top = case.choice([65535, 65535, 40000], "top")
    low = case.choice([1, 500], "low")

    def quantise(arr):
        if arr.dtype.kind == "u" and arr.dtype.itemsize > 1:
            number[0] += 1
            return arr.astype(np.uint16)
        if arr.dtype.kind != "f" or arr.ndim < 2 or arr.size <= 16 or \
                not np.all(np.isfinite(arr)):
            return arr.copy()
        span = float(arr.max()) - float(arr.min())
        if span == 0:
            return arr.copy()
        number[0] += 1
        if np.all((arr == 0) | (arr == 1)):
            return arr.astype(np.uint16)
        unit = (np.float64(arr) - arr.min()) / span
        return np.rint(unit * (top - low) + low).astype(np.uint16)

    other = p07.with_args(call, quantise)
    # settings in the units of the original data
    for key, value in call.kwargs.items():
        if key.startswith("wei"):
            other.kwargs[key] = value
        elif key == "threshold":
            other.kwargs[key] = None
    return other, number[0]


def stored(dtype):
    def func(arr):
        if arr.dtype == np.uint16:
            return arr.astype(dtype)
        return arr.copy()
    return func


def types(case):
    name = case.cycle(NAMES, "recipe")
    call = recipes.make(case, name)
    call, number = whole(case, call)
    if not number:
        return
    want = list(p07.leaves(p07.run(p07.with_args(call, stored(np.float64)))))
    for dtype in TYPES:
        try:
            got = p07.run(p07.with_args(call, stored(dtype)))
        except Exception as err:
            p07.fail_of(case, err, "refused", "{} on {} data".format(
                name, dtype))
            continue
        got = list(p07.leaves(got))
        if not case.check([g[0] for g in got] == [w[0] for w in want],
                          "structure", "{} on {} data: another structure"
                          .format(name, dtype)):
            continue
        for (path, one), (_, two) in zip(got, want):
            if two.dtype.kind not in "biufc":
                continue
            text = "{} on {} data {}".format(name, dtype, path)
            if not case.check(one.shape == two.shape, "shape", text):
                continue
            compare(case, sorts(name, call), one, two, text)
        case.count("typed calls")
        case.seen(name, dtype)


def compare(case, ties, one, two, text):
    if one.dtype.kind != "c" and two.dtype.kind != "c":
        one, two = np.float64(one), np.float64(two)
    good = np.isfinite(two)
    case.check(np.array_equal(np.isfinite(one), good), "finite", text +
               ": other infinities")
    if not good.any() or not np.all(np.isfinite(one[good])):
        return
    size = np.max(np.abs(two[good]))
    error = np.abs(one[good] - two[good])
    bad = np.count_nonzero(error > 1.5e-3 * size + 1e-9)
    allowed = 0.01 * error.size if ties else 0
    case.check(bad <= allowed, "values", "{}: {} of {} values differ, worst "
               "{:.4g} of {:.4g}".format(text, bad, error.size, error.max(),
                                         size))


NAMES = [n for n in sorted(recipes.RECIPES) if n not in OTHER]


def register(ctx):
    num = len(NAMES)
    ctx.family("types", 2 * num, 20 * num, types)
    ctx.expect_tags("types", int(2.2 * num))
