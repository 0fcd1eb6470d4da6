"""Entry point of one check: main.py <PROPERTY> <quick|thorough>.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION
line), 2 inconclusive (harness problem or monitors not reached).
"""
import argparse
import importlib
import os
import shutil
import signal
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("tier", choices=["quick", "thorough"])
    parser.add_argument("--replay", default=None)
    parser.add_argument("--family", default=None)
    parser.add_argument("--seed", type=int, default=None)
    args = parser.parse_args()
    repo = os.path.abspath(os.environ.get("ALGV_REPO", "/repo"))
    scratch = tempfile.mkdtemp(prefix="algv_" + args.prop + "_")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba_cache")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["JOBLIB_TEMP_FOLDER"] = os.path.join(scratch, "joblib")
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
    if args.prop in ("P28", "P29"):
        # before numba is imported: GPU kernels run in its simulator
        os.environ["NUMBA_ENABLE_CUDASIM"] = "1"
    if args.prop == "P28":
        os.environ["NUMBA_BOUNDSCHECK"] = "1"
    # BLAS in one thread: results must not depend on its own scheduling.
    for name in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ.setdefault(name, "1")
    os.environ["NUMBA_NUM_THREADS"] = "8"
    os.environ["ALGV_SCRATCH"] = scratch
    old = os.environ.get("PYTHONPATH", "")
    os.environ["PYTHONPATH"] = os.pathsep.join(
        [repo, HERE] + ([old] if old else []))
    sys.dont_write_bytecode = True
    for sub in ("joblib", "tmp", "work"):
        os.makedirs(os.path.join(scratch, sub))
    tempfile.tempdir = None
    owner = os.getpid()

    def on_term(_sig, _frm):
        raise SystemExit(2)

    signal.signal(signal.SIGTERM, on_term)
    code = 2
    try:
        os.chdir(os.path.join(scratch, "work"))
        sys.path.insert(0, HERE)
        sys.path.insert(0, repo)
        import fresh
        import vlib
        fresh.install()
        ctx = vlib.Context(args.prop, args.tier, repo, scratch,
                           seed=args.seed, replay=args.replay,
                           only=args.family)
        code = ctx.execute()
    finally:
        if os.getpid() == owner:
            sys.stdout.flush()
            os.chdir("/")
            try:
                from joblib.externals.loky import get_reusable_executor
                get_reusable_executor().shutdown(wait=True, kill_workers=True)
            except Exception:
                pass
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
