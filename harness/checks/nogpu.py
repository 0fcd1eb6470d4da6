"""Child of P29: asks for a GPU on a machine that has none."""
import sys
import warnings
import numpy as np


def main(path, seed):
    out = open(path, "w")
    from numba import cuda
    if cuda.is_available():
        out.write("GPU\n")
        out.close()
        return
    import algotom.prep.phase as ps
    import algotom.rec.reconstruction as rec
    import algotom.rec.vertrec as vr
    import algotom.util.correlation as cl
    rng = np.random.default_rng(seed)
    data = np.float32(rng.uniform(0.2, 1, (12, 3, 16)))
    big = rng.random((3, 20, 22))
    ref, mat = big[:, 1:, 1:], big[:, :-1, :-1]
    quiet = dict(show_progress=False, ncore=1, prefer="threads")
    loc = dict(win_size=5, margin=2, ncore=1)
    calls = {
        "fbp": lambda **k: rec.fbp_reconstruction(data[:, 0], 7.0, **k),
        "fbp-chunk": lambda **k: rec.fbp_reconstruction(data, 7.0, **k),
        "bpf": lambda **k: rec.bpf_reconstruction(data[:, 0], 7.0, **k),
        "centre-metric": lambda **k: rec.find_center_based_slice_metric(
            data[:, 0], 6, 9, 1.0, zoom=1.0, ncore=1, **k),
        "vertical": lambda **k: vr.vertical_reconstruction(
            data, 5, 7.0, **quiet, **k),
        "vertical-multiple": lambda **k:
            vr.vertical_reconstruction_multiple(data, 3, 5, 7.0, **quiet,
                                                **k),
        "vertical-angles": lambda **k:
            vr.vertical_reconstruction_different_angles(
                data, [3, 5], [0.0, 30.0], 7.0, **quiet, **k),
        "vertical-centre": lambda **k: vr.find_center_vertical_slice(
            data, 5, 6, 8, 1.0, ncore=1, show_progress=False, **k),
        "map": lambda **k: cl.generate_correlation_map(
            ref, mat[:, 3:-3, 3:-3], **k),
        "shift": lambda **k: cl.find_shift_based_correlation_map(
            ref, mat, margin=3, **k),
        "local-2d": lambda **k: cl.find_local_shifts(ref[0], mat[0], **loc,
                                                     **k),
        "local-1": lambda **k: cl.find_local_shifts(ref, mat, dim=1, **loc,
                                                    **k),
        "local-2": lambda **k: cl.find_local_shifts(ref, mat, dim=2, **loc,
                                                    **k),
        "umpa": lambda **k: cl.find_local_shifts_umpa(ref, mat, **loc, **k),
        "points": lambda **k: cl.find_global_shift_based_local_shifts(
            ref[0], mat[0], 5, 2, num_point=4, ncore=1, **k),
        "speckle": lambda **k: ps.retrieve_phase_based_speckle_tracking(
            ref, mat, win_size=3, margin=2, ncore=1, **k),
    }
    for name, call in calls.items():
        try:
            np.random.seed(seed)
            want = np.asarray(call(gpu=False))
            np.random.seed(seed)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = np.asarray(call(gpu=True))
            good = got.shape == want.shape and np.allclose(
                got, want, rtol=1e-4, atol=1e-5, equal_nan=True)
            verdict = "ok" if good else "different result"
        except Exception as err:
            verdict = "{}: {}".format(type(err).__name__,
                                      " ".join(str(err).split())[:150])
        out.write("{} {}\n".format(name, verdict))
        out.flush()
    out.write("done\n")
    out.close()


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]))
