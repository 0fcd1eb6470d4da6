"""Shared machinery: cases, monitors, verdicts, evidence."""
import errno
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
KNOWN_FILE = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


class Abort(Exception):
    """Case stopped after a failed requirement."""


class Inconclusive(Exception):
    """The harness could not obtain an answer."""


class CaseTimeout(BaseException):
    pass


def load_known(prop):
    known = {}
    if os.path.isfile(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


class Case:
    """One monitored execution: a family name plus an index gives the input."""

    def __init__(self, ctx, family, index):
        self.ctx, self.family, self.index = ctx, family, index
        text = "{}|{}|{}|{}".format(ctx.seed, ctx.prop, family, index)
        num = int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")
        self.rng = np.random.default_rng(num)
        # algotom itself draws from the global generator in a few places
        np.random.seed(num % (2 ** 32))
        self.notes = {}
        self.failed = False
        self._dir = None

    # ---- inputs
    def choice(self, options, name=None):
        val = options[int(self.rng.integers(len(options)))]
        if name is not None:
            self.notes[name] = repr(val)
        return val

    def cycle(self, options, name=None):
        """Systematic instead of random: walks the options with the index."""
        val = options[self.index % len(options)]
        if name is not None:
            self.notes[name] = repr(val)
        return val

    def integer(self, lo, hi, name=None):
        """Random integer in [lo, hi]."""
        val = int(self.rng.integers(lo, hi + 1))
        if name is not None:
            self.notes[name] = val
        return val

    def uniform(self, lo, hi, name=None):
        val = float(self.rng.uniform(lo, hi))
        if name is not None:
            self.notes[name] = val
        return val

    def note(self, **kwargs):
        for key, val in kwargs.items():
            self.notes[key] = val if isinstance(val, (int, float, str)) \
                else repr(val)[:200]

    @property
    def dir(self):
        if self._dir is None:
            self._dir = os.path.join(
                self.ctx.scratch, "work",
                "{}_{}".format(self.family, self.index))
            shutil.rmtree(self._dir, ignore_errors=True)
            os.makedirs(self._dir)
        return self._dir

    def close_dir(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)

    # ---- verdicts
    def fail(self, key, msg):
        self.failed = True
        self.ctx.report(self, key, msg)

    def check(self, cond, key, msg=""):
        self.ctx.evaluations += 1
        if not bool(cond):
            self.fail(key, msg)
            return False
        return True

    def require(self, cond, key, msg=""):
        if not self.check(cond, key, msg):
            raise Abort()

    def equal(self, got, want, key, msg=""):
        """Bitwise/valuewise equality (NaN equal to NaN)."""
        return self._compare(got, want, key, msg, 0.0, 0.0)

    def near(self, got, want, key, msg="", rtol=1e-4, atol=1e-6, scale=None):
        """|got-want| <= atol + rtol*scale, scale = max|want| by default."""
        return self._compare(got, want, key, msg, rtol, atol, scale)

    def _compare(self, got, want, key, msg, rtol, atol, scale=None):
        self.ctx.evaluations += 1
        if got is None:
            self.fail(key, msg + ": got None")
            return False
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.dtype == object:
                raise ValueError("ragged result")
        except Exception as err:
            self.fail(key, "{}: result is not an array ({})".format(msg, err))
            return False
        if got.shape != want.shape:
            self.fail(key, "{}: shape {} instead of {}".format(
                msg, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        if got.dtype.kind not in "biufc" or want.dtype.kind not in "biufc":
            ok = bool(np.all(got == want))
            if not ok:
                self.fail(key, "{}: {!r} instead of {!r}".format(
                    msg, got, want))
            return ok
        if got.dtype.kind == "c" or want.dtype.kind == "c":
            a, b = got.astype(np.complex128), want.astype(np.complex128)
        else:
            a, b = got.astype(np.float64), want.astype(np.float64)
        nan_a, nan_b = np.isnan(a), np.isnan(b)
        if not np.array_equal(nan_a, nan_b):
            self.fail(key, "{}: NaN pattern differs ({} vs {} NaNs)".format(
                msg, int(nan_a.sum()), int(nan_b.sum())))
            return False
        inf_bad = (np.isinf(a) | np.isinf(b)) & (a != b) & ~nan_a
        if inf_bad.any():
            self.fail(key, "{}: infinities differ".format(msg))
            return False
        fin = np.isfinite(a) & np.isfinite(b)
        if not fin.any():
            return True
        diff = np.zeros(a.shape)
        diff[fin] = np.abs(a[fin] - b[fin])
        if scale is None:
            scale = float(np.max(np.abs(b[fin])))
        tol = atol + rtol * scale
        worst = float(diff.max())
        if worst > tol:
            pos = np.unravel_index(int(np.argmax(diff)), diff.shape)
            self.fail(key, "{}: {} of {} values differ, worst {:.6g} > {:.3g} "
                           "at {} (got {!r}, want {!r})".format(
                               msg, int((diff > tol).sum()), diff.size, worst,
                               tol, tuple(int(p) for p in pos),
                               a[pos].item(), b[pos].item()))
            return False
        return True

    def raises(self, types, key, msg, func, *args, **kwargs):
        """The call must be refused with one of the exception types."""
        self.ctx.evaluations += 1
        try:
            func(*args, **kwargs)
        except types as err:
            return err
        except Exception as err:
            self.fail(key, "{}: refused with {} instead of {}".format(
                msg, type(err).__name__, types))
            return None
        self.fail(key, msg + ": accepted")
        return None

    def seen(self, *tag):
        """Record an observed, non-trivial behaviour class."""
        self.ctx.tags.add((self.family,) + tuple(str(t) for t in tag))

    def count(self, name, num=1):
        self.ctx.counters[name] = self.ctx.counters.get(name, 0) + num


class Context:
    def __init__(self, prop, tier, repo, scratch, seed=None, replay=None,
                 only=None):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.scratch = scratch
        if seed is None:
            seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.replay = None
        if replay:
            self.replay = json.load(open(replay))
            seed = self.replay["seed"]
            self.tier = self.replay.get("tier", tier)
        self.seed = seed
        self.only = only
        self.evaluations = 0
        self.cases = 0
        self.counters = {}
        self.tags = set()
        self.samples = []
        self.violations = []
        self.by_key = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.expect = {}
        self.start = time.time()
        self.families = []
        self.problems = []
        self.case_times = {}

    # ---- registration used by the check modules
    def family(self, name, quick, thorough, func, timeout=240):
        """Run func(case) for a fixed number of indices in each tier."""
        self.families.append((name, quick, thorough, func, timeout))

    def expect_tags(self, family, number):
        """Fewer distinct behaviour classes means the check was vacuous."""
        self.expect[family] = number

    # ---- verdicts
    def report(self, case, key, msg):
        full = case.family + "/" + key
        self.by_key[full] = self.by_key.get(full, 0) + 1
        if full in self.known:
            self.known_hit.setdefault(full, msg)
            return
        if self.by_key[full] > 3:
            return
        folder = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "{}_{}_{}_{}.json".format(
            self.prop, case.family, case.index,
            re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:60]))
        data = {"property": self.prop, "family": case.family,
                "index": case.index, "seed": self.seed, "tier": self.tier,
                "key": full, "message": msg, "input": case.notes,
                "how": "harness/run.sh {} {} --replay <this file>".format(
                    self.prop, self.tier)}
        with open(path, "w") as out:
            json.dump(data, out, indent=1, default=str)
        self.violations.append((full, path, msg))
        print("VIOLATION property={} replay={}".format(self.prop, path))
        print("   {} [{}:{}] {}".format(full, case.family, case.index, msg))
        print("   input: {}".format(json.dumps(case.notes, default=str)[:600]))
        sys.stdout.flush()

    # ---- running
    def run_case(self, name, index, func, timeout):
        case = Case(self, name, index)
        self.cases += 1

        def on_alarm(_sig, _frm):
            raise CaseTimeout()

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(timeout)
        t0 = time.time()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                func(case)
        except Abort:
            pass
        except CaseTimeout:
            case.fail("no-termination", "no answer within {} s".format(
                timeout))
        except (MemoryError, Inconclusive) as err:
            self.problems.append("{}:{} {!r}".format(name, index, err))
        except OSError as err:
            if err.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM,
                             errno.EDQUOT):
                self.problems.append("{}:{} {!r}".format(name, index, err))
            else:
                case.fail("exception-" + type(err).__name__,
                          self._where(err))
        except Exception as err:
            case.fail("exception-" + type(err).__name__, self._where(err))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            case.close_dir()
        self.case_times[name] = self.case_times.get(name, 0.0) + \
            time.time() - t0
        if len([s for s in self.samples if s["family"] == name]) < 2:
            self.samples.append({"family": name, "index": index,
                                 "input": dict(case.notes)})

    def _where(self, err):
        tb = traceback.extract_tb(err.__traceback__)
        own = [f for f in tb if "/algotom/" in f.filename]
        frame = own[-1] if own else tb[-1]
        if os.environ.get("ALGV_DEBUG"):
            traceback.print_exception(err)
        return "unexpected {}: {} (at {}:{} in {})".format(
            type(err).__name__, str(err)[:300],
            os.path.basename(frame.filename), frame.lineno, frame.name)

    def execute(self):
        module = importlib.import_module("checks." + self.prop.lower())
        import algotom
        where = os.path.abspath(algotom.__file__)
        if not where.startswith(self.repo + os.sep):
            print("INCONCLUSIVE: algotom imported from", where)
            return 2
        module.register(self)
        budget = float(os.environ.get("ALGV_BUDGET", "0") or 0)
        if not budget:
            budget = 700.0 if self.tier == "quick" else 3300.0
        if self.replay:
            for name, _q, _t, func, timeout in self.families:
                if name == self.replay["family"]:
                    self.run_case(name, self.replay["index"], func, timeout)
            print("replay:", "violated" if self.violations else
                  "nothing observed")
            return 1 if self.violations else 0
        truncated = []
        plan = {}
        for name, quick, thorough, func, timeout in self.families:
            if self.only and self.only != name:
                continue
            plan[name] = (max(quick, min(8 * quick, thorough))
                          if self.tier == "quick" else thorough)
        # Every family gets its quick share first; both tiers then go on
        # round-robin until the numbers or the time budget run out.
        done = {name: 0 for name in plan}
        table = {f[0]: f for f in self.families}
        for name in plan:
            first = min(plan[name], table[name][1])
            for index in range(first):
                self.run_case(name, index, table[name][3], table[name][4])
                done[name] += 1
        if self.tier == "quick":
            budget = min(budget, float(os.environ.get("ALGV_QUICK", "") or 30))
        active = True
        while active and time.time() - self.start < budget:
            active = False
            for name in plan:
                step = max(1, table[name][1])
                upto = min(plan[name], done[name] + step)
                for index in range(done[name], upto):
                    active = True
                    if time.time() - self.start > budget:
                        break
                    self.run_case(name, index, table[name][3],
                                  table[name][4])
                    done[name] += 1
        for name in plan:
            if done[name] < plan[name]:
                truncated.append("{} {}/{}".format(name, done[name],
                                                   plan[name]))
        if not self.only and hasattr(module, "finish"):
            module.finish(self)
        return self.conclude(module, done, truncated)

    def conclude(self, module, done, truncated):
        per_family = {}
        for tag in self.tags:
            per_family[tag[0]] = per_family.get(tag[0], 0) + 1
        for key in sorted(self.known_hit):
            print("KNOWN-FINDING: property={} {} ({})".format(
                self.prop, self.known[key], key))
        missed = []
        if not self.only:
            for name, number in self.expect.items():
                if per_family.get(name, 0) < number:
                    missed.append("{}: {} of {} behaviour classes".format(
                        name, per_family.get(name, 0), number))
        wall = time.time() - self.start
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": getattr(module, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": int(self.evaluations),
                "distinct_nontrivial": len(self.tags),
                "rule": getattr(module, "RULE", ""),
                "samples": self.samples[:40],
                "cases": self.cases,
                "cases_per_family": done,
                "classes_per_family": per_family,
                "monitor_events": self.counters,
                "seconds_per_family": {k: round(v, 2) for k, v in
                                       self.case_times.items()},
                "truncated": truncated,
                "vacuous": missed,
                "known_findings_observed": sorted(self.known_hit),
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        if not self.only and not os.environ.get("ALGV_NOEVIDENCE"):
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            path = os.path.join(ROOT, "evidence", self.prop + ".json")
            with open(path, "w") as out:
                json.dump(evidence, out, indent=1, default=str)
        print("{} {} seed={} cases={} evaluations={} classes={} "
              "violations={} wall={:.1f}s".format(
                  self.prop, self.tier, self.seed, self.cases,
                  self.evaluations, len(self.tags), len(self.violations),
                  wall))
        for name in sorted(self.case_times, key=self.case_times.get,
                           reverse=True)[:8]:
            print("   {:<28s} {:6.1f}s {} classes".format(
                name, self.case_times[name], per_family.get(name, 0)))
        if truncated:
            print("   time budget reached:", "; ".join(truncated))
        if self.violations:
            return 1
        if self.problems:
            print("INCONCLUSIVE:", "; ".join(self.problems[:5]))
            return 2
        if missed:
            print("INCONCLUSIVE (vacuous):", "; ".join(missed))
            return 2
        return 0


# --------------------------------------------------------------------------
# Input generators
# --------------------------------------------------------------------------

def smooth(rng, shape, sigma=3.0, lo=0.0, hi=1.0):
    """Smooth random field scaled to [lo, hi]."""
    from scipy import ndimage as ndi
    mat = ndi.gaussian_filter(rng.standard_normal(shape), sigma, mode="wrap")
    mat = (mat - mat.min()) / max(mat.max() - mat.min(), 1e-12)
    return (lo + (hi - lo) * mat).astype(np.float32)


def noise(rng, shape, lo=0.0, hi=1.0, dtype=np.float32):
    return (lo + (hi - lo) * rng.random(shape)).astype(dtype)


def integers(rng, shape, lo, hi, dtype):
    return rng.integers(lo, hi + 1, size=shape).astype(dtype)


def phantom(rng, size, num=4, soft=1.0):
    """Discs inside the field of view, band-limited by a Gaussian."""
    from scipy import ndimage as ndi
    y, x = np.mgrid[:size, :size] - (size - 1) / 2.0
    mat = np.zeros((size, size))
    for _ in range(num):
        rad = rng.uniform(0.05, 0.2) * size
        dist = rng.uniform(0, max(0.40 * size - rad, 0.01))
        ang = rng.uniform(0, 2 * np.pi)
        cx, cy = dist * np.cos(ang), dist * np.sin(ang)
        mat += rng.uniform(0.3, 1.0) * ((x - cx) ** 2 + (y - cy) ** 2
                                        <= rad ** 2)
    if soft > 0:
        mat = ndi.gaussian_filter(mat, soft)
    return mat


def gaussian_sino(rng, width, num_angle, center=None, num=5, sweep=np.pi,
                  endpoint=True, limit=0.36, smin=2.5, smax=5.0, angles=None):
    """Analytic sinogram of Gaussian blobs: exact line integrals.

    Returns (sinogram, angles, list of (x, y, sigma, amplitude)); the blob at
    (x, y) projects to center + x*cos(t) + y*sin(t)... sign fixed by caller.
    """
    if center is None:
        center = (width - 1) / 2.0
    if angles is None:
        angles = np.linspace(0, sweep, num_angle, endpoint=endpoint)
    u = np.arange(width) - center
    sino = np.zeros((len(angles), width))
    blobs = []
    for _ in range(num):
        sig = rng.uniform(smin, smax)
        dist = rng.uniform(0, limit * width)
        ang = rng.uniform(0, 2 * np.pi)
        amp = rng.uniform(0.3, 1.0)
        blobs.append((dist * np.cos(ang), dist * np.sin(ang), sig, amp))
    for (x, y, sig, amp) in blobs:
        s = x * np.cos(angles) - y * np.sin(angles)
        sino += amp * sig * np.sqrt(2 * np.pi) * np.exp(
            -(u[None, :] - s[:, None]) ** 2 / (2 * sig ** 2))
    return sino, angles, blobs


def blob_image(blobs, size, center=None):
    if center is None:
        center = (size - 1) / 2.0
    y, x = np.mgrid[:size, :size] - center
    mat = np.zeros((size, size))
    for (bx, by, sig, amp) in blobs:
        mat += amp * np.exp(-((x - bx) ** 2 + (y - by) ** 2) / (2 * sig ** 2))
    return mat


def corr(a, b):
    a, b = np.ravel(a).astype(np.float64), np.ravel(b).astype(np.float64)
    a, b = a - a.mean(), b - b.mean()
    den = np.sqrt((a * a).sum() * (b * b).sum())
    return float((a * b).sum() / den) if den > 0 else 0.0


# --------------------------------------------------------------------------
# File-system monitor: every creation/removal/opening for writing
# --------------------------------------------------------------------------

class FileMonitor:
    """Audit-hook recorder of file-system events plus tree snapshots."""
    _installed = False
    _active = []

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.events = []

    @classmethod
    def _hook(cls, event, args):
        if not cls._active:
            return
        if event == "open":
            path, mode, flags = (list(args) + [None, None, None])[:3]
            write = False
            if isinstance(mode, str):
                write = any(c in mode for c in "wax+")
            elif isinstance(flags, int):
                write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                                      | os.O_TRUNC))
            if not write:
                return
            kind, paths = "write", [path]
        elif event in ("os.remove", "os.rmdir", "shutil.rmtree", "os.mkdir",
                       "os.truncate"):
            kind, paths = event, [args[0]]
        elif event in ("os.rename", "shutil.move", "shutil.copyfile",
                       "os.link", "os.symlink"):
            kind, paths = event, [args[0], args[1]]
        else:
            return
        for path in paths:
            if isinstance(path, (str, bytes, os.PathLike)):
                try:
                    text = os.path.abspath(os.fsdecode(path))
                except Exception:
                    continue
                for mon in cls._active:
                    mon.events.append((kind, text))

    def __enter__(self):
        if not FileMonitor._installed:
            sys.addaudithook(FileMonitor._hook)
            FileMonitor._installed = True
        FileMonitor._active.append(self)
        return self

    def __exit__(self, *exc):
        FileMonitor._active.remove(self)
        return False


def snapshot(root):
    """Map of every path below root to its content digest."""
    out = {}
    for base, dirs, files in os.walk(root):
        for name in dirs:
            out[os.path.relpath(os.path.join(base, name), root)] = "dir"
        for name in files:
            path = os.path.join(base, name)
            if os.path.islink(path):
                out[os.path.relpath(path, root)] = "link"
                continue
            with open(path, "rb") as fin:
                out[os.path.relpath(path, root)] = hashlib.sha1(
                    fin.read()).hexdigest()
    return out


def tree_diff(before, after):
    gone = sorted(p for p in before if p not in after)
    changed = sorted(p for p in before if p in after
                     and before[p] != after[p])
    new = sorted(p for p in after if p not in before)
    return gone, changed, new


def digest(obj, depth=0):
    """Content digest of an argument (arrays, containers, scalars)."""
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("objarr", tuple(digest(o, depth + 1) for o in obj.flat))
        return ("arr", obj.shape, obj.dtype.str,
                hashlib.sha1(np.ascontiguousarray(obj).tobytes()).hexdigest())
    if isinstance(obj, (list, tuple)) and depth < 5:
        return (type(obj).__name__,
                tuple(digest(o, depth + 1) for o in obj))
    if isinstance(obj, dict) and depth < 5:
        return ("dict", tuple(sorted((str(k), digest(v, depth + 1))
                                     for k, v in obj.items())))
    if isinstance(obj, (int, float, str, bytes, bool, type(None), complex)):
        return (type(obj).__name__, repr(obj))
    return ("other", type(obj).__name__)
