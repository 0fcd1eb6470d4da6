"""P04: what a HDF file contains is reported completely and correctly."""
import os
import re
import h5py
import numpy as np
import algotom.io.loadersaver as losa

RULE = ("a class is one (link kinds present, number of roots, depth, matched "
        "or unmatched pattern, shape option) combination of a random file "
        "whose listing/tree was compared with the file's real content")
ASSUMPTIONS = ["no cyclic links", "files are written by h5py"]


def build(case, path):
    """Random file; returns the dict of every reachable path -> shape/dtype."""
    words = ["entry", "data", "img", "key", "rot", "flat", "dark", "meta",
             "run", "image_key", "x1", "tomo"]
    content = {}          # hard-linked objects: path -> (shape, dtype) / None
    soft = {}             # soft/external links: path -> (shape, dtype) / None
    with h5py.File(path, "w") as fout:
        groups = [""]
        nroot = case.integer(1, 4)
        for _ in range(case.integer(0, 5)):
            parent = groups[int(case.rng.integers(len(groups)))]
            name = parent + "/" + case.choice(words) + \
                str(case.integer(0, 9))
            if name.count("/") > 4 or name in content:
                continue
            if parent == "" and sum(1 for c in content
                                    if c.count("/") == 1) >= nroot:
                continue
            fout.create_group(name)
            content[name] = None
            groups.append(name)
        for _ in range(case.integer(1, 7)):
            parent = groups[int(case.rng.integers(len(groups)))]
            name = parent + "/" + case.choice(words)
            if name in content:
                continue
            ndim = case.integer(0, 3)
            shape = tuple(case.integer(0 if case.rng.random() < 0.1 else 1, 5)
                          for _ in range(ndim))
            dtype = np.dtype(case.choice(["f4", "f8", "u2", "i4", "u1"]))
            fout.create_dataset(name, shape=shape, dtype=dtype)
            content[name] = (shape, dtype)
        kinds = []
        dsets = [c for c in content if content[c] is not None]
        ext = os.path.join(os.path.dirname(path), "other.h5")
        with h5py.File(ext, "w") as other:
            other["far/data"] = np.zeros((2, 7), dtype=np.float32)
        for _ in range(case.integer(0, 4)):
            if len(groups) < 2:
                break
            parent = groups[1 + int(case.rng.integers(len(groups) - 1))]
            name = parent + "/" + "lk" + str(case.integer(0, 99))
            if name in content or name in soft:
                continue
            kind = case.choice(["soft", "broken", "ext", "ext-missing",
                                "ext-nokey", "hard"])
            if kind == "soft" and dsets:
                target = dsets[int(case.rng.integers(len(dsets)))]
                fout[name] = h5py.SoftLink(target)
                soft[name] = content[target]
            elif kind == "broken":
                fout[name] = h5py.SoftLink("/no/where")
                soft[name] = None
            elif kind == "ext":
                fout[name] = h5py.ExternalLink("other.h5", "/far/data")
                soft[name] = ((2, 7), np.dtype("f4"))
            elif kind == "ext-missing":
                fout[name] = h5py.ExternalLink("gone.h5", "/far/data")
                soft[name] = None
            elif kind == "ext-nokey":
                fout[name] = h5py.ExternalLink("other.h5", "/far/none")
                soft[name] = None
            elif kind == "hard" and [d for d in dsets if d.count("/") > 1]:
                # (an object with several hard links is visited once, so a
                # root-level one may legitimately go by its other name)
                deep = [d for d in dsets if d.count("/") > 1]
                target = deep[int(case.rng.integers(len(deep)))]
                fout[name] = fout[target]
                content[name] = content[target]
            else:
                continue
            kinds.append(kind)
    return content, soft, tuple(sorted(set(kinds)))


def norm(key):
    return "/" + key.strip("/")


def listing(case):
    path = os.path.join(case.dir, "f.hdf")
    content, soft, kinds = build(case, path)
    case.note(content=sorted(content), links=sorted(soft))
    keys, shapes, types = losa.get_hdf_information(path)
    case.require(len(keys) == len(shapes) == len(types), "aligned",
                 "{} keys, {} shapes, {} types".format(
                     len(keys), len(shapes), len(types)))
    table = {}
    for key, shape, dtype in zip(keys, shapes, types):
        name = norm(key)
        entry = None if shape is None else (tuple(shape), np.dtype(dtype))
        if name in table:
            case.check(table[name] == entry, "contradiction",
                       "{} reported as {} and {}".format(name, table[name],
                                                         entry))
        table[name] = entry
    every = dict(content)
    every.update(soft)
    for name, want in every.items():
        if want is None and name in content:
            # a group: reported through its members unless it is empty
            if not any(o.startswith(name + "/") for o in every):
                case.check(name in table and table[name] is None,
                           "empty-group", "{} -> {}".format(
                               name, table.get(name, "missing")))
            continue
        case.check(name in table, "missing", name + " is not listed")
        if name in table:
            case.check(table[name] == want, "shape-type",
                       "{} listed as {} but is {}".format(
                           name, table[name], want))
    for name in table:
        case.check(name in every, "phantom", name + " does not exist")
    # pattern search = the matching part of the listing
    for pattern in ["data", "key", "/", "lk", "nomatch_zzz", "entry", "a"]:
        fkeys, fshapes, ftypes = losa.find_hdf_key(path, pattern)
        case.require(len(fkeys) == len(fshapes) == len(ftypes), "aligned",
                     "find: lengths differ")
        for key, shape, dtype in zip(fkeys, fshapes, ftypes):
            case.check(pattern in key, "pattern", "{} does not match {}"
                       .format(key, pattern))
            want = every.get(norm(key), "missing")
            got = None if shape is None else (tuple(shape), np.dtype(dtype))
            case.check(want == got, "find-shape-type", "{}: {} but is {}"
                       .format(key, got, want))
        found = {norm(k) for k in fkeys}
        for name, want in every.items():
            if pattern in name[1:] and (want is not None or name in soft):
                case.check(name in found, "find-missing",
                           "{} matches {} but is not found".format(name,
                                                                   pattern))
        case.seen("find", pattern, bool(fkeys))
    # keys can be opened
    for name, want in every.items():
        if want is None:
            continue
        obj = losa.load_hdf(path, name.strip("/"))
        case.check(tuple(obj.shape) == want[0] and obj.dtype == want[1],
                   "load", name)
        obj.file.close()
    case.raises((ValueError,), "load-missing", "missing key", losa.load_hdf,
                path, "entry/not_there_zz")
    case.seen("info", kinds, sum(1 for c in content if c.count("/") == 1))


def parse(lines):
    """Tree view -> {path: (shape text or None)}."""
    out, stack = {}, []
    for line in lines:
        depth, rest = 0, line
        while rest[:4] in ("│   ", "    "):
            rest = rest[4:]
            depth += 1
        if rest.strip("│ ") == "":
            continue
        for con in ("├── ", "└── ", " "):
            if rest.startswith(con):
                rest = rest[len(con):]
                break
        m = re.match(r"^(\S+)(?: (.*))?$", rest)
        name, extra = m.group(1), m.group(2)
        stack = stack[:depth] + [name]
        out["/" + "/".join(stack)] = extra
    return out


def tree(case):
    path = os.path.join(case.dir, "f.hdf")
    content, soft, kinds = build(case, path)
    add_shape = case.choice([True, True, False], "add_shape")
    output = os.path.join(case.dir, "sub", "tree.txt") if case.choice(
        [True, False], "output") else None
    lines = list(losa.get_hdf_tree(path, output=output, add_shape=add_shape,
                                   display=False))
    case.note(content=sorted(content), links=sorted(soft),
              lines="|".join(lines)[:400])
    if output:
        with open(output, encoding="UTF-8") as fin:
            text = fin.read().splitlines()
        case.check(text == lines, "tree-file", "file differs from the result")
    got = parse(lines)
    every = dict(content)
    every.update(soft)
    for name, want in every.items():
        if not case.check(name in got, "tree-missing",
                          name + " is not in the tree"):
            continue
        if add_shape and want is not None:
            case.check(got[name] == str(want[0]), "tree-shape",
                       "{} shown as {} but is {}".format(name, got[name],
                                                         want[0]))
        if want is None and name in content:
            case.check(got[name] is None, "tree-group",
                       "group {} shown with {}".format(name, got[name]))
        if not add_shape:
            case.check(got[name] is None, "tree-noshape",
                       "{} shown with {}".format(name, got[name]))
    for name in got:
        case.check(name in every, "tree-phantom", name + " does not exist")
    case.seen("tree", kinds, add_shape, output is not None,
              max(c.count("/") for c in every) if every else 0)


def register(ctx):
    ctx.family("listing", 60, 1500, listing)
    ctx.family("tree", 60, 1500, tree)
    ctx.expect_tags("listing", 15)
    ctx.expect_tags("tree", 15)
