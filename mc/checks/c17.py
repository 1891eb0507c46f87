"""C17 joining stores, and copying a directory into a store."""
import itertools
import os
from pathlib import Path

from mc.core import Space, thorough, subsets
from mc import many
from mc.checks.c11 import make_sink
from mc.checks.c16 import VALUES, entries_of, read_store, run_main as run_split

KEYS = ("a", "A", "\u00fc b/x")


def run_join(d):
    from vistautils.parameters import Parameters
    from vistautils.scripts import join_key_value_stores as m

    return m.main(Parameters.from_mapping(d))


def output(d, kind):
    if kind == "zip":
        return {"type": "zip", "path": str(d / "new" / "out.zip")}
    (d / "out").mkdir()
    return {"type": kind, "path": str(d / "out")} if kind != "untyped" else {"path": str(d / "out")}


def read_output(t, d, kind, what):
    if kind == "zip":
        return read_store(t, d / "new" / "out.zip", what)
    from vistautils.io_utils import CharSource, read_doc_id_to_file_map

    m = read_doc_id_to_file_map(CharSource.from_file(d / "out" / "_index"))
    return {k: p.read_bytes() for k, p in m.items()}


LAYOUTS = ("lines", "blank and comment lines", "padded", "no final newline", "list")


def gen_join(tier):
    stores = 3
    owners = list(subsets(range(stores)))
    for dist in itertools.product(owners, repeat=len(KEYS)):
        clash = any(len(o) > 1 for o in dist)
        for order in itertools.permutations(range(stores)):
            if not thorough(tier) and (clash and order not in ((0, 1, 2), (2, 1, 0))):
                continue
            yield (dist, order, "zip", "lines")
    for dist in itertools.product(owners[:4], repeat=len(KEYS)):
        for out in ("directory", "file-map", "untyped"):
            if all("/" not in KEYS[i] or not dist[i] for i in range(len(KEYS))):
                yield (dist, (0, 1, 2), out, "lines")
        for layout in LAYOUTS[1:]:
            yield (dist, (1, 0, 2), "zip", layout)
    # outputs which would accept a second value of a key
    for dist in itertools.product(owners, repeat=2):
        for out in ("directory", "file-map", "untyped"):
            for order in ((0, 1, 2), (2, 0, 1)) if not thorough(tier) else itertools.permutations(range(stores)):
                yield (dist + ((),), order, out, "lines")
    for order in ((), (0,), (1, 0), (0, 0)):
        yield (((0,), (1,), (0,)), order, "zip", "lines")


def run_join_case(case, t):
    dist, order, out, layout = case
    d = Path(t.dir)
    t.state(case)
    parts = []
    for i in range(3):
        part = {k: VALUES[j] + (b"" if i == o[0] else b"!") for j, (k, o) in enumerate(zip(KEYS, dist)) if i in o}
        parts.append(part)
        with make_sink("bytes", d / f"in {i}.zip", "plain") as s:
            for k, v in part.items():
                s.put(k, v)
    paths = [str(d / f"in {i}.zip") for i in order]
    lf = d / "list"
    if layout == "list":
        p = {"input_store_list_file": paths}
    else:
        if layout == "lines":
            text = "".join(x + "\n" for x in paths)
        elif layout == "blank and comment lines":
            text = "# stores\n\n" + "".join(f"{x}\n  \n  # {d}/missing.zip\n" for x in paths)
        elif layout == "padded":
            text = "".join(f"  {x}\t \n" for x in paths)
        else:
            text = "\n".join(paths)
        lf.write_text(text, encoding="utf-8")
        p = {"input_store_list_file": str(lf)}
    p["output"] = output(d, out)
    w = f"joining {[parts[i] for i in order]}"
    pairs = [kv for i in order for kv in parts[i].items()]
    if len(set(k for k, _ in pairs)) != len(pairs):
        t.raises(Exception, lambda: run_join(p), w)
        return
    t.call(lambda: run_join(p), w)
    t.eq(read_output(t, d, out, f"the result of {w}"), dict(pairs), f"the result of {w}")
    for i, part in enumerate(parts):
        t.eq(read_store(t, d / f"in {i}.zip", "an input"), part, f"input {i} after {w}")
    t.outcome(f"{len(pairs)} entries")


def gen_undo(tier):
    for n in range(0, 6 if not thorough(tier) else 8):
        for slices in range(1, 5 if not thorough(tier) else 9):
            for seed in (None, 3):
                yield (n, slices, seed)


def run_undo(case, t):
    n, slices, seed = case
    d = Path(t.dir)
    want = entries_of(n)
    t.state(case)
    with make_sink("bytes", d / "in.zip", "plain") as s:
        for k, v in want.items():
            s.put(k, v)
    p = {"input": {"type": "zip", "path": str(d / "in.zip")}, "num_slices": slices, "output_dir": str(d / "slices")}
    if seed:
        p["random_seed"] = seed
    t.call(lambda: run_split(p), "splitting")
    q = {"input_store_list_file": str(d / "slices" / "_slices.txt"), "output": output(d, "zip")}
    w = f"joining the {slices} slices of {list(want)}"
    t.call(lambda: run_join(q), w)
    t.eq(read_output(t, d, "zip", w), want, w)


FILES = ("a", "a.txt", "b.tar.gz", "\u00fc x.bin", "c.d", ".dot", "A~")


def gen_dir(tier):
    for kf in (None, "identity", "strip_one_extension"):
        for names in subsets(range(len(FILES))):
            for out in ("zip", "directory", "untyped"):
                if out != "zip" and len(names) > 2 and not thorough(tier):
                    continue
                yield (kf, names, out)
    yield ("unknown", (0,), "zip")
    yield ("", (0,), "zip")
    yield (5, (0,), "zip")


def run_dir(case, t):
    from vistautils.parameters import Parameters
    from vistautils.scripts import directory_to_key_value_store as m

    kf, names, out = case
    d = Path(t.dir)
    t.state(case)
    (d / "files").mkdir()
    for i in names:
        if i % 4 == 1:
            # a link to a file is as good as the file
            (d / f"target{i}").write_bytes(VALUES[i])
            (d / "files" / FILES[i]).symlink_to(d / f"target{i}")
        else:
            (d / "files" / FILES[i]).write_bytes(VALUES[i])
    p = {"input_directory": str(d / "files"), "output": output(d, out)}
    if kf is not None:
        p["key_function"] = kf
    w = f"storing {[FILES[i] for i in names]} with key function {kf}"

    def go():
        return m.main(Parameters.from_mapping(p))

    if kf not in (None, "identity", "strip_one_extension"):
        t.raises(Exception, go, w)
        return
    keys = [FILES[i].rpartition(".")[0] or FILES[i] if kf == "strip_one_extension" else FILES[i] for i in names]
    if len(set(keys)) < len(keys):
        if out == "zip":
            t.raises(Exception, go, w)
        return
    t.call(go, w)
    t.eq(read_output(t, d, out, f"the result of {w}"), {k: VALUES[i] for k, i in zip(keys, names)}, f"the result of {w}")
    t.eq({x: (d / "files" / x).read_bytes() for x in os.listdir(d / "files")}, {FILES[i]: VALUES[i] for i in names}, f"the directory after {w}")
    t.outcome(f"{len(names)} files")


def gen_bad(tier):
    for x in ("no list", "list file absent", "store absent", "store not a zip", "no output", "directory absent", "directory is a file"):
        yield x


def run_bad(case, t):
    from vistautils.parameters import Parameters
    from vistautils.scripts import directory_to_key_value_store as m

    d = Path(t.dir)
    t.state(case)
    with make_sink("bytes", d / "in.zip", "plain") as s:
        s.put("a", b"1")
    (d / "list").write_text(f"{d}/in.zip\n{d}/{'missing' if case == 'store absent' else 'list'}\n")
    (d / "good").write_text(f"{d}/in.zip\n")
    out = {"type": "zip", "path": str(d / "out.zip")}
    if "directory" in case:
        p = {"input_directory": str(d / ("none" if case == "directory absent" else "list")), "output": out}
        t.raises(Exception, lambda: m.main(Parameters.from_mapping(p)), case)
        return
    p = {"no list": {"output": out}, "list file absent": {"input_store_list_file": str(d / "no"), "output": out},
         "store absent": {"input_store_list_file": str(d / "list"), "output": out},
         "store not a zip": {"input_store_list_file": str(d / "list"), "output": out},
         "no output": {"input_store_list_file": str(d / "good")}}[case]
    t.raises(Exception, lambda: run_join(p), case)


# --- sub-directories: refused, or their files are stored like the others ------------------
TREES = ("f", "g.txt", "d/f", "d/h.bin", "d/e/i.txt", "x y/j", ".d.e/k.l")


def gen_trees(tier):
    for kf in (None, "strip_one_extension"):
        for names in subsets(range(len(TREES))):
            for empty in (False, True):
                yield (kf, names, empty)
    for kf in (None, "strip_one_extension"):
        for n in (6, 17, 40):
            yield (kf, n, "wide")
            yield (kf, n, "deep")


def run_trees(case, t):
    from vistautils.parameters import Parameters
    from vistautils.scripts import directory_to_key_value_store as m

    kf, names, how = case
    d = Path(t.dir)
    t.state(case)
    if how == "wide":
        files = [f"d{i}/f{i}.txt" for i in range(names)]
    elif how == "deep":
        files = ["d/" * i + f"f{i}.txt" for i in range(names)]
    else:
        files = [TREES[i] for i in names]
    (d / "files").mkdir()
    if how is True:
        (d / "files" / "empty" / "er").mkdir(parents=True)
    for i, f in enumerate(files):
        (d / "files" / f).parent.mkdir(parents=True, exist_ok=True)
        (d / "files" / f).write_bytes(b"v%d" % i)
    p = {"input_directory": str(d / "files"), "output": output(d, "zip")}
    if kf:
        p["key_function"] = kf
    w = f"storing {files} with key function {kf}" + (", an empty directory beside them" if how is True else "")
    keys = [f.rpartition("/")[2] for f in files]
    if kf:
        keys = [k.rpartition(".")[0] or k for k in keys]
    try:
        m.main(Parameters.from_mapping(p))
    except Exception as e:  # documented to be refused
        t.true(len(set(keys)) < len(keys) or any("/" in f for f in files) or how is True, f"{w}: raised {e!r}")
        t.outcome("refused")
        return
    t.true(len(set(keys)) == len(keys), f"{w}: two files with the same key were not refused")
    t.eq(read_output(t, d, "zip", w), {k: b"v%d" % i for i, k in enumerate(keys)}, f"the result of {w}")
    t.outcome("stored")


SPACES = [
    Space("joins", gen_join, run_join_case, "every distribution (overlaps included) of 3 keys over 3 stores, every order of the list, 5 layouts of it, 4 kinds of output", tmp=True),
    Space("joining a split", gen_undo, run_undo, lambda tier: "stores of 0-5 entries, 1-4 slices" if tier == "quick" else "stores of 0-7 entries, 1-8 slices", tmp=True),
    Space("directories", gen_dir, run_dir, "every set of 7 file names, links to files among them, x key functions x kinds of output", tmp=True),
    Space("refused", gen_bad, run_bad, "missing and invalid inputs", tmp=True),
    Space("sub-directories", gen_trees, run_trees, "every set of 7 files in 5 directories, with and without an empty one; up to 40 directories beside or within each other", tmp=True),
]

SPACES += many.BY_CHECK["C17"]
