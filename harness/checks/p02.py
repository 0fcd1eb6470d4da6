"""P02: savers told not to overwrite never touch what is there."""
import os
import h5py
import numpy as np
import algotom.io.loadersaver as losa
from vlib import FileMonitor, snapshot, tree_diff, noise

RULE = ("a class is one (operation, extension, overwrite flag, occupied "
        "state of the requested name) combination observed inside a random "
        "history of saves")
ASSUMPTIONS = ["one writing process at a time (no concurrent external "
               "writer)"]


def read_back(path):
    path = str(path)
    if path.endswith((".tif", ".tiff")):
        return losa.load_image(path)
    if path.endswith((".txt", ".dat")):
        xc, yc, facts = losa.load_distortion_coefficient(path)
        return np.asarray([xc, yc] + list(facts))
    with h5py.File(path, "r") as fin:
        return fin["entry/data"][()]


def write(case, op, path, overwrite):
    """Return (actual path, expected content)."""
    if op == "image":
        mat = noise(case.rng, (5, 6))
        out = losa.save_image(path, mat, overwrite=overwrite)
        return str(out), mat
    if op == "hdf":
        mat = noise(case.rng, (2, 4, 5))
        dset = losa.open_hdf_stream(path, mat.shape, key_path="entry/data",
                                    overwrite=overwrite)
        dset[...] = mat
        name = dset.file.filename
        dset.file.close()
        return name, mat
    vals = case.rng.standard_normal(4)
    out = losa.save_distortion_coefficient(path, vals[0], vals[1], vals[2:],
                                           overwrite=overwrite)
    return str(out), vals


def history(case):
    """A random history of saves over a small set of names."""
    root = os.path.join(case.dir, "data")
    os.makedirs(root)
    bases = ["scan", "scan_0000", "scan_0001", "a b", "scan.v1", "sub/scan"]
    exts = {"image": [".tif", ".tiff"], "hdf": [".hdf", ".h5", ".nxs"],
            "coef": [".txt", ".dat"]}
    default = {"hdf": ".hdf", "coef": ".txt"}
    # foreign material which must survive everything
    os.makedirs(os.path.join(root, "scan"))
    with open(os.path.join(root, "scan", "keep.txt"), "w") as fout:
        fout.write("keep me")
    model = {}
    steps = case.integer(6, 14, "steps")
    for step in range(steps):
        op = case.choice(["image", "hdf", "coef"])
        base = case.choice(bases)
        ext = case.choice(exts[op])
        if base == "scan.v1" and op != "image":
            base = "scan"
        given = path = os.path.join(root, base + ext)
        if op != "image" and case.rng.random() < 0.3:
            # no extension, or one which is replaced: the saver's own is used
            given = os.path.join(root, base + case.choice(["", ".raw"]))
            ext = default[op]
            path = os.path.join(root, base + ext)
        overwrite = bool(case.rng.random() < 0.3)
        occupied = os.path.exists(path)
        before = snapshot(root)
        with FileMonitor(root) as mon:
            out, want = write(case, op, given, overwrite)
        after = snapshot(root)
        gone, changed, new = tree_diff(before, after)
        out = os.path.realpath(out)
        rel = os.path.relpath(out, os.path.realpath(root))
        tag = "{} {} overwrite={} occupied={}".format(
            op, os.path.basename(given), overwrite, occupied)
        case.count("file_events", len(mon.events))
        new_files = [n for n in new if after[n] != "dir"]
        if not overwrite:
            case.check(not gone and not changed, "clobbered",
                       "{}: changed {} removed {}".format(tag, changed, gone))
            case.check(new_files == [rel], "fresh-name",
                       "{}: new files {} but returned {}".format(
                           tag, new_files, rel))
            bad = [e for e in mon.events if e[0] != "os.mkdir" and
                   os.path.relpath(os.path.realpath(e[1]),
                                   os.path.realpath(root)) in before
                   and before[os.path.relpath(
                       os.path.realpath(e[1]),
                       os.path.realpath(root))] != "dir"]
            case.check(not bad, "opened-existing",
                       "{}: touched existing files {}".format(tag, bad[:3]))
            if not occupied:
                case.check(out == os.path.realpath(path), "requested-name",
                           "{}: free name not used, got {}".format(tag, out))
        else:
            want_rel = os.path.relpath(os.path.realpath(path),
                                       os.path.realpath(root))
            case.check(rel == want_rel, "overwrite-name",
                       "{}: wrote to {}".format(tag, rel))
            case.check(not gone and all(c == want_rel for c in changed),
                       "overwrite-other", "{}: changed {} removed {}".format(
                           tag, changed, gone))
        case.require(os.path.isfile(out), "no-file", tag + " -> " + out)
        case.check(os.path.dirname(out) == os.path.realpath(
            os.path.dirname(path)) and os.path.splitext(out)[1] == ext,
            "place", "{}: written to {}".format(tag, out))
        model[rel] = np.asarray(want, dtype=np.float64)
        case.equal(read_back(out), model[rel].astype(
            np.float64 if op == "coef" else np.float32), "content",
            tag + " content")
        case.seen(op, ext, overwrite, occupied, given != path)
    # everything the model believes in is still there, unharmed
    for rel, want in model.items():
        path = os.path.join(root, rel)
        if not case.check(os.path.isfile(path), "lost", rel + " is lost"):
            continue
        got = np.asarray(read_back(path), dtype=np.float64)
        case.near(got, want, "final-content", rel, rtol=1e-6)
    case.check(open(os.path.join(root, "scan", "keep.txt")).read() ==
               "keep me", "foreign", "foreign file changed")


def folders(case):
    """Fresh folder names are fresh, whatever has been created or deleted."""
    root = os.path.join(case.dir, "out")
    os.makedirs(root)
    prefix = case.choice(["Output", "Find_center", "A"], "prefix")
    zeros = case.integer(1, 6, "zeros")
    made = []
    for _ in range(case.integer(3, 25, "steps")):
        act = case.rng.random()
        if act < 0.25 and made:
            victim = made.pop(int(case.rng.integers(len(made))))
            os.rmdir(os.path.join(root, victim))
            continue
        if act < 0.35:
            name = "{}_{:0{}d}".format(prefix, case.integer(1, 12), zeros)
            if not os.path.exists(os.path.join(root, name)):
                os.makedirs(os.path.join(root, name))
                made.append(name)
            continue
        if act < 0.42:
            name = prefix + "_" + case.choice(["x", "old", "7", "extra_1"])
            if not os.path.exists(os.path.join(root, name)):
                os.makedirs(os.path.join(root, name))
                made.append(name)
            continue
        name = losa.make_folder_name(root, name_prefix=prefix,
                                     zero_prefix=zeros)
        case.check(not os.path.exists(os.path.join(root, name)),
                   "folder-exists", "proposed an existing name " + name)
        case.check(name.startswith(prefix + "_") and
                   name[len(prefix) + 1:].isdigit() and
                   len(name[len(prefix) + 1:]) >= zeros,
                   "folder-form", "proposed " + name)
        os.makedirs(os.path.join(root, name), exist_ok=True)
        made.append(name)
        case.seen("folder", prefix, zeros)


def filenames(case):
    """Fresh file names are fresh and keep folder, stem and extension."""
    root = os.path.join(case.dir, "f")
    os.makedirs(root)
    ext = case.choice([".tif", ".hdf", ".txt", ""], "ext")
    for _ in range(case.integer(3, 20)):
        stem = case.choice(["img", "img_0000", "img_0001", "b.c"])
        if ext == "" and stem == "b.c":
            stem = "bc"
        path = os.path.join(root, stem + ext)
        there = os.path.exists(path)
        name = losa.make_file_name(path)
        case.check(not os.path.exists(name), "name-exists",
                   "proposed an existing file " + str(name))
        case.check(there or os.path.abspath(name) == os.path.abspath(path),
                   "name-free", "free name {} replaced by {}".format(path,
                                                                     name))
        case.check(os.path.dirname(os.path.abspath(name)) ==
                   os.path.abspath(root) and
                   os.path.basename(str(name)).startswith(stem) and
                   os.path.splitext(str(name))[1] == ext, "name-form",
                   "{} -> {}".format(path, name))
        if case.rng.random() < 0.2:
            os.makedirs(name, exist_ok=True)
        else:
            open(name, "x").close() if not os.path.exists(name) else None
        files = sorted(os.listdir(root))
        if case.rng.random() < 0.2:
            victim = os.path.join(root, files[int(
                case.rng.integers(len(files)))])
            if os.path.isdir(victim):
                os.rmdir(victim)
            else:
                os.remove(victim)
        case.seen("name", ext, there)


def multiple(case):
    """Saving stacks without overwriting keeps every earlier image."""
    root = os.path.join(case.dir, "m")
    ncore, axis = case.cycle([(n, a) for a in (0, 1, 2)
                              for n in (1, 2, None, 4)], "workers and axis")
    num = case.integer(2, 6 if ncore == 1 else 12)
    rounds = case.integer(2, 4, "rounds")
    listed = case.choice([False, True], "listed")
    flag = dict(axis=axis, overwrite=False, ncore=ncore)
    if case.choice([0, 1, 2]) == 0 and not listed:
        flag["start_idx"] = case.integer(0, 7)
    before = {}
    for k in range(rounds):
        stack = noise(case.rng, (num, 4, 5))
        names = [os.path.join(root, "p{}.tif".format(i)) for i in range(num)]
        losa.save_image_multiple(names if listed else root,
                                 np.moveaxis(stack, 0, axis), **flag)
        after = snapshot(root)
        gone, changed, new = tree_diff(before, after)
        case.check(not gone and not changed and len(new) == num,
                   "multiple-clobber", "round {}: gone {} changed {} new {}"
                   .format(k, gone[:3], changed[:3], len(new)))
        got = sorted(float(losa.load_image(os.path.join(root, n)).sum())
                     for n in new)
        case.near(got, sorted(float(s.sum()) for s in stack),
                  "multiple-content", "images of round {}".format(k))
        before = after
        case.seen("multiple", ncore, axis, listed, k)


def register(ctx):
    ctx.family("history", 40, 800, history)
    ctx.family("folders", 20, 300, folders)
    ctx.family("filenames", 20, 300, filenames)
    ctx.family("multiple", 12, 96, multiple)
    ctx.expect_tags("history", 14)
