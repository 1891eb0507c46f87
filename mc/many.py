"""Spaces of large cases: the sizes at which digits, batches and powers of two end.

Small cases are enumerated completely by the checks themselves; these add, for every size of a fixed list,
a few regular cases of that size, so that nothing which counts, batches or buffers goes wrong when it is full.
"""
import os
from pathlib import Path

from mc.core import Space, sizes


def _space(name, top, run, bound, variants=(0,), tmp=True):
    def gen(tier):
        for n in sizes(tier, top):
            for v in variants:
                yield (n, v)

    return Space(name, gen, run, lambda tier: f"{bound}, for the sizes 8-{max(sizes(tier, top))} at which digits, tens and powers of two end", tmp=tmp)


def entries(n):
    return {f"k{i}" if i % 5 else f"dir{i % 7}/k {i}": f"value {i}\n" * (i % 4) + ("x" * 9000 if i % 50 == 7 else "") for i in range(n)}


# --- C11 -------------------------------------------------------------------------------

def run_zip(case, t):
    from mc.checks.c11 import open_and_compare, session

    n, v = case
    kind, config = (("char", "plain"), ("bytes", "plain"), ("char", "json-prefixed"))[v]
    path = Path(t.dir) / "s.zip"
    t.state(case)
    from mc.checks.c11 import make_sink

    items = list(entries(n).items())
    store = {}
    session(t, make_sink(kind, path, config), kind, items[: n // 2], store, f"{n // 2} puts")
    session(t, make_sink(kind, path, config, overwrite=False), kind, items[n // 2 - 1 :], store, f"{n - n // 2} more puts and a duplicate")
    open_and_compare(t, kind, path, config, store, ("missing", f"k{n}", "dir1"), f"a store of {n} entries")


ZIP = _space("many entries", 257, run_zip, "stores filled in two sessions, 3 configurations", (0, 1, 2))


# --- C13 -------------------------------------------------------------------------------

def run_directory(case, t):
    from mc.checks.c13 import compare, dir_sink

    n, v = case
    kind = ("char", "bytes")[v]
    d = Path(t.dir) / "out"
    d.mkdir()
    t.state(case)
    want = {k: x if kind == "char" else x.encode() for k, x in entries(n).items()}
    with dir_sink(kind, d) as s:
        for k, x in want.items():
            s.put(k, "first" if kind == "char" else b"first")
        for k, x in reversed(list(want.items())):
            s.put(k, x)
    compare(t, kind, d / "_index", want, d, f"a directory of {n} entries, each put twice")


DIRECTORY = _space("many entries", 201, run_directory, "directories with every key put twice, text and binary", (0, 1))


# --- C14 -------------------------------------------------------------------------------

def run_tar(case, t):
    from mc.checks.c14 import write_tar
    from vistautils.key_value import KeyValueLinearSource

    n, v = case
    path = Path(t.dir) / "x.tar.gz"
    t.state(case)
    members = []
    for i, (k, x) in enumerate(entries(n).items()):
        members.append((k, "file", x))
        if i % 6 == v:
            members.append((f"d{i}", "dir", ""))
    write_tar(path, members)
    want = [(k, x.encode()) for k, kind, x in members if kind == "file"]
    with KeyValueLinearSource.byte_linear_source_from_tar_gz(path) as s:
        t.eq(list(s.items()), want, f"items of an archive of {n} files")
        a, b = iter(s.items()), iter(s.items())
        t.eq([next(a) for _ in range(n // 2)], want[: n // 2], f"the first half of an archive of {n} files")
        t.eq(list(b), want, f"another iteration of an archive of {n} files")
        t.eq(list(a), want[n // 2 :], f"the rest of an archive of {n} files")
        t.eq(list(s.items(lambda k: k.endswith("7"))), [x for x in want if x[0].endswith("7")], f"filtered items of an archive of {n} files")
    with KeyValueLinearSource.str_linear_source_from_tar_gz(path, name_filter=lambda k: k.endswith("3"), key_function=lambda k: k + "!") as s:
        t.eq(list(s.items()), [(k + "!", x.decode()) for k, x in want if k.endswith("3")], f"chosen text items of an archive of {n} files")


TAR = _space("many members", 257, run_tar, "archives of files and directories, iterated three times at once and filtered", (0, 1))


# --- C16, C17 --------------------------------------------------------------------------

def run_split(case, t):
    from mc.checks.c16 import read_slices, run_main, write_store

    n, kind = case
    d = Path(t.dir)
    want = {k: x.encode() for k, x in entries(n).items()}
    inp = write_store(d, kind, want)
    t.state(case)
    for k in (2, 3, 10, 11, n // 2, n - 1, n, n + 1):
        out = d / f"out{k}"
        if out.exists():
            continue
        w = f"splitting {n} entries into {k}"
        t.call(lambda: run_main({"input": inp, "num_slices": k, "output_dir": str(out)}), w)
        read_slices(t, out, k, want, w)


SPLIT = _space("many entries and slices", 65, run_split, "stores split into 2, 3, 10, 11, half, all but one, as many and one more slices", ("zip", "file-map"))


def run_explicit(case, t):
    """n splits given by key files."""
    from mc.checks.c16 import read_store, run_main, write_store

    n, _ = case
    d = Path(t.dir)
    want = {k: x.encode() for k, x in entries(2 * n).items()}
    inp = write_store(d, "zip", want)
    keys = sorted(want)
    parts = {}
    spec = {}
    for i in range(n):
        mine = keys[2 * i : 2 * i + 2] if i % 3 else keys[2 * i : 2 * i + 1]
        (d / f"keys{i}").write_text("".join(k + "\n" for k in mine), encoding="utf-8")
        spec[f"part{i}"] = {"keys_file": str(d / f"keys{i}"), "output_file": str(d / f"part{i}.zip")}
        parts[i] = {k: want[k] for k in mine}
    t.state(case)
    p = {"input": inp, "explicit_split": spec}
    t.raises(Exception, lambda: run_main({**p}), f"{n} splits which leave some keys out")
    t.call(lambda: run_main({"input": inp, "explicit_split": {**spec, "must_be_exhaustive": False}}), f"{n} splits")
    for i, part in parts.items():
        t.eq(read_store(t, d / f"part{i}.zip", f"part {i}"), part, f"part {i} of {n}")


def run_join(case, t):
    from mc.checks.c11 import make_sink
    from mc.checks.c16 import read_store
    from mc.checks.c17 import run_join as join

    n, layout = case
    d = Path(t.dir)
    if layout == "large":
        return join_large(n, t)
    parts = []
    for i in range(n):
        parts.append({f"k{i}.{j}": b"v%d" % (i * j) for j in range(i % 4)})
        with make_sink("bytes", d / f"in{i}.zip", "plain") as s:
            for k, v in parts[-1].items():
                s.put(k, v)
    paths = [str(d / f"in{i}.zip") for i in range(n)]
    (d / "list").write_text("".join(p + "\n" for p in paths))
    t.state(case)
    out = d / "out.zip"
    t.call(lambda: join({"input_store_list_file": paths if layout else str(d / "list"), "output": {"type": "zip", "path": str(out)}}), f"joining {n} stores")
    t.eq(read_store(t, out, f"the result of joining {n} stores"), {k: v for p in parts for k, v in p.items()}, f"the result of joining {n} stores")
    key = [k for p in parts for k in p][-1]
    with make_sink("bytes", d / "again.zip", "plain") as s:
        s.put(key, b"other")
    t.raises(Exception, lambda: join({"input_store_list_file": paths + [str(d / "again.zip")], "output": {"type": "zip", "path": str(d / "out2.zip")}}),
             f"joining {n} stores and one with a key of theirs")


EXPLICIT = _space("many splits", 33, run_explicit, "explicit splits into as many outputs, with and without exhaustiveness")
JOIN = _space("many stores", 65, run_join, "stores of 0-3 entries joined, from a list and a list file; one more with a shared key; three stores of many entries", (0, 1, "large"))


def join_large(n, t):
    from mc.checks.c11 import make_sink
    from mc.checks.c16 import read_store
    from mc.checks.c17 import run_join as join

    d = Path(t.dir)
    stores = {"in0": entries(n), "in1": {f"other {i}": f"{i}" for i in range(n // 2)}, "in2": {f"third {i}": "" for i in range(n)}, "shared": {**{f"own {i}": "" for i in range(n)}, list(entries(n))[n // 2]: "x"}}
    for name, content in stores.items():
        with make_sink("bytes", d / f"{name}.zip", "plain") as s:
            for k, v in content.items():
                s.put(k, v.encode())
    t.state((n, "large"))
    for names in (("in0",), ("in1", "in0"), ("in0", "in1", "in2"), ("in0", "shared"), ("shared", "in1", "in0")):
        out = d / f"out-{'-'.join(names)}.zip"
        f = lambda: join({"input_store_list_file": [str(d / f"{name}.zip") for name in names], "output": {"type": "zip", "path": str(out)}})  # noqa
        what = f"joining stores of {', '.join(str(len(stores[name])) for name in names)} entries"
        if "shared" in names:
            t.raises(Exception, f, f"{what}, two of them with a common key,")
            continue
        t.call(f, what)
        t.eq(read_store(t, out, what), {k: v.encode() for name in names for k, v in stores[name].items()}, f"the result of {what}")


def run_files(case, t):
    from mc.checks.c16 import read_store
    from vistautils.parameters import Parameters
    from vistautils.scripts import directory_to_key_value_store as m

    n, strip = case
    d = Path(t.dir)
    (d / "files").mkdir()
    want = {}
    for i in range(n):
        name = f"f{i}.x{i % 3}"
        (d / "files" / name).write_bytes(b"v%d" % i)
        want[f"f{i}" if strip else name] = b"v%d" % i
    t.state(case)
    p = {"input_directory": str(d / "files"), "output": {"type": "zip", "path": str(d / "out.zip")}}
    if strip:
        p["key_function"] = "strip_one_extension"
    t.call(lambda: m.main(Parameters.from_mapping(p)), f"storing {n} files")
    t.eq(read_store(t, d / "out.zip", f"the store of {n} files"), want, f"the store of {n} files")


FILES = _space("many files", 129, run_files, "directories of files, extensions stripped or not", (False, True))


# --- C18 -------------------------------------------------------------------------------

def run_convert(case, t):
    from mc.checks.c18 import convert, read_zip, write_tar

    n, dont = case
    d = Path(t.dir)
    os.chdir(d)
    members = []
    for i, (k, x) in enumerate(entries(n).items()):
        if i % 9 == 4:
            members.append((f"folder{i}", "dir", b""))
        members.append((k, "file", x.encode()))
    write_tar(d / "x.tgz", members, "w:gz")
    t.state(case)
    w = f"converting {n} files" + (" --dont-stream" if dont else "")
    convert(t, ["x.tgz"] + (["--dont-stream"] if dont else []), w)
    t.eq(read_zip(t, str(d / "x.zip"), w), {k: x for k, kind, x in members if kind == "file"}, f"the result of {w}")
    t.eq(sorted(os.listdir(d)), ["x.tgz", "x.zip"], f"files after {w}")


CONVERT = _space("many members", 129, run_convert, "archives of files and directories, streamed or not", (False, True))


# --- C20, C21, C25: wide and deep parameters ---------------------------------------------

def big(n, shape, leaf=None):
    leaf = leaf or (lambda i: i if i % 3 else f"v{i}")
    if shape == "wide":
        return {f"name{i}": leaf(i) for i in range(n)}
    if shape == "namespaces":
        return {f"ns{i}": {"x": leaf(i), "y": {"x": leaf(i + 1)}} for i in range(n)}
    if shape == "one namespace":
        return {"a": {"b": {f"n{i}": leaf(i) for i in range(n)}, "c": 1}}
    d = {"end": leaf(0)}
    for i in range(n):
        d = {"here": leaf(i), f"d{i}" if shape == "deep" else "d": d}
    return d


SHAPES = ("wide", "namespaces", "one namespace", "deep", "deep, alike")


def run_tree(case, t):
    from mc.trees import fresh, leaves_of, listed, listing, nested, same
    from vistautils.parameters import ParameterError, Parameters

    n, shape = case
    d = big(n, shape)
    t.state(case)
    p = t.call(lambda: Parameters.from_mapping(fresh(d)), f"parameters of {n} names, {shape}")
    q = t.call(lambda: Parameters.from_key_value_pairs(list(leaves_of(d))), f"parameters from {n} pairs, {shape}")
    t.true(p == q, f"the two ways to make parameters of {n} names, {shape}")
    for x in (p, q):
        t.true(same(nested(x), d), f"as_nested_dicts of {n} names, {shape}")
        t.eq(listing(x), listed(d), f"namespaced_items of {n} names, {shape}")
        for k, v in leaves_of(d):
            t.same(x.get(k, object), v, f"{k} of {n} names, {shape}")
            t.true(k in x, f"{k} of {n} names, {shape}")
            t.false(k + ".more" in x, f"{k}.more of {n} names, {shape}")
            t.false(k + "x" in x, f"{k}x of {n} names, {shape}")
            t.raises(ParameterError, lambda: x.get(k + "x", object), f"{k}x of {n} names, {shape}")
            ns, _, last = k.rpartition(".")
            if ns:
                sub = x.namespace(ns)
                t.same(sub.get(last, object), v, f"{last} of namespace {ns} of {n} names, {shape}")
                t.eq(".".join(sub.namespace_prefix), ns, f"prefix of namespace {ns}")


TREE = _space("many names", 65, run_tree, "parameters of many names, namespaces or levels, from mappings and from pairs", SHAPES, tmp=False)


def run_unify(case, t):
    from mc.trees import fresh, listed, listing, merge, nested, same
    from vistautils.parameters import Parameters

    n, shape = case
    a = big(n, shape)
    changes = {"the same names": big(n, shape, lambda i: f"new{i}"), "more": big(n + 3, shape if not shape.startswith("deep") else "wide", lambda i: -i), "few": {"extra": 1, **big(2, "wide")},
               "nothing": {}}
    if shape == "deep, alike":
        changes["deeper"] = big(n + 5, shape, lambda i: [i])
        changes["shallower"] = big(n - 5, shape, lambda i: [i])
    t.state(case)
    for label, b in changes.items():
        w = f"unify of {n} names, {shape}, with {label}"
        p, q = Parameters.from_mapping(fresh(a)), Parameters.from_mapping(fresh(b))
        want = merge(a, b)
        r = t.call(lambda: p.unify(q), w)
        t.true(same(nested(r), want), w)
        t.eq(listing(r), listed(want), f"names of {w}")
        t.true(same(nested(p), a) and same(nested(q), b), f"the operands of {w}")
    # one after the other
    p = Parameters.empty()
    want = {}
    for i in range(n):
        x = {f"n{i % 7}": {f"m{i % 11}": i, "last": i}, f"own{i}": i}
        p, want = p.unify(x), merge(want, x)
    t.true(same(nested(p), want), f"{n} unifications in turn: {nested(p)!r}")


UNIFY = _space("many names", 65, run_unify, "parameters of many names, namespaces or levels unified with others, and as many unifications in turn", SHAPES, tmp=False)


def run_written(case, t):
    from mc.trees import fresh, nested, same
    from vistautils.io_utils import CharSink
    from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter

    n, shape = case
    t.state(case)

    def leaf(i):
        return (i, f"v{i}", "true", None, [i, [f"{i}"]], 1.5 * i, "a: b\n", [{"k": i, "l": []}])[i % 8]

    def order(x):
        return [(k, order(v)) for k, v in x.items()] if isinstance(x, dict) else None

    d = big(n, shape, leaf)
    d["list"] = [leaf(i) for i in range(n)]
    deep = []
    for i in range(min(n, 40)):
        deep = [deep, i]
    d["deep list"] = deep
    p = Parameters.from_mapping(fresh(d))
    YAMLParametersWriter().write(p, Path(t.dir) / "p.yaml")
    s = CharSink.to_string()
    YAMLParametersWriter().write(p, s)
    loader = YAMLParametersLoader(interpolate_environmental_variables=False)
    for w, q in (("file", loader.load(Path(t.dir) / "p.yaml")), ("sink", loader.load_string(s.last_string_written)), ("print", loader.load_string(str(p)))):
        t.true(same(nested(q), d), f"{n} names, {shape}, written to a {w} and loaded")
        if w != "print":
            t.eq(order(nested(q)), order(d), f"order of {n} names, {shape}, written to a {w} and loaded")


WRITTEN = _space("many names", 65, run_written, "parameters of many names, namespaces, levels and list elements, written and loaded", SHAPES)


# --- C24 -------------------------------------------------------------------------------

def run_includes(case, t):
    from mc.trees import nested, same
    from vistautils.parameters import YAMLParametersLoader

    n, shape = case
    t.state(case)
    d = Path(t.dir)

    def name(i):
        return f"f{i}.params" if i % 3 else f"sub/f{i}.params"

    (d / "sub").mkdir()
    want = {"leaf": {}}
    for i in range(n):
        lines = [f"own{i}: '%last%'" if i else "own0: start", f"last: v{i}", f"leaf: {{n{i}: {i}, same: {i}, n{i // 2}: {i}}}"]
        if i:
            lines.append(f"before{i}: '<%own{i - 1}%>'")
        inc = []
        if shape == "chain" and i:
            inc = [i - 1]
        if shape == "flat" and i == n - 1:
            inc = list(range(n - 1))
        if inc:
            lines.insert(0, "_includes: [" + ", ".join(os.path.relpath(name(j), os.path.dirname(name(i)) or ".") for j in inc) + "]")
        (d / name(i)).write_text("\n".join(lines) + "\n")
        want[f"own{i}"] = f"v{i}" if i else "start"  # the file itself comes before what it includes
        want["last"] = f"v{i}"
        if i:
            want[f"before{i}"] = f"<{want[f'own{i - 1}']}>"
        want["leaf"].update({f"n{i}": i, "same": i, f"n{i // 2}": i})
    p = t.call(lambda: YAMLParametersLoader(interpolate_environmental_variables=False).load(d / name(n - 1)), f"{n} files, {shape}")
    t.true(same(nested(p), want), f"{n} files, {shape}: {nested(p)!r}, not {want!r}")


INCLUDES = _space("many files", 50, run_includes, "chains of includes, and that many includes in one file", ("chain", "flat"))


# --- C28 -------------------------------------------------------------------------------

def run_overrides(case, t):
    from mc.checks.c28 import Run, check_run

    n, shape = case
    t.state(case)
    content = "".join(f"n{i}: {i}\n" for i in range(n))
    Path("f.params").write_text(content)
    pairs = [(f"n{i}" if shape == "present" else f"a.b{i % 5}.c{i}", f"new{i}") for i in range(n)]
    if shape == "repeated":
        pairs = [(f"n{i % 3}", f"new{i}") for i in range(n)]
    want = {f"n{i}": i for i in range(n)}
    for k, v in pairs:
        if "." in k:
            a, b, c = k.split(".")
            want.setdefault(a, {}).setdefault(b, {})[c] = v
        else:
            want[k] = v
    r = Run([a for k, v in pairs for a in ("-p", k, v)] + ["f.params"], None)
    check_run(t, r, want, f"{n} overrides, {shape}")


OVERRIDES = _space("many overrides", 65, run_overrides, "overrides of present, absent and repeated names", ("present", "absent", "repeated"))


# --- C29 -------------------------------------------------------------------------------

def run_long(case, t):
    from mc.checks.c29 import drop_model, window_model
    from vistautils import iter_utils, iterutils

    n, kind = case
    t.state(case)
    xs = [object() for _ in range(n)]
    make = {"list": lambda: list(xs), "iterator": lambda: iter(list(xs))}[kind]
    for k in sorted({0, 1, 2, 7, 8, 9, n // 2, n - 2, n - 1, n, n + 1, 2 * n}):
        ops = {"drop": (lambda: iter_utils.drop(make(), k), drop_model(xs, k))}
        if k:
            ops["windows"] = (lambda: iter_utils.windowed(make(), k), window_model(xs, k, False))
            ops["partial"] = (lambda: iter_utils.windowed(make(), k, partial_windows=True), window_model(xs, k, True))
        for label, (f, want) in ops.items():
            r = f()
            for again in (False, True) if kind == "list" else (False,):
                t.eq(list(r), want, f"{label} {k} of a {kind} of {n}")
    t.eq(list(iterutils.tile_with_pairs(make())), window_model(xs, 2, False), f"pairs of a {kind} of {n}")


LONG = _space("long sequences", 257, run_long, "lists and iterators, 12 counts and window sizes each", ("list", "iterator"), tmp=False)


# --- C30 -------------------------------------------------------------------------------

def run_checkpoints(case, t):
    from mc.checks.c30 import restarted
    from vistautils.checkpoints import Checkpoints

    n, v = case
    t.state(case)
    names = [f"step {i}" if i % 2 else f"{i}" for i in range(n)]
    c = Checkpoints.from_directory("cp")
    for x in names:
        c.set(x)
    for o in (c, restarted().from_directory("cp")):
        t.eq([x for x in names if x not in o], [], f"{n} names set")
        t.eq([x for x in (f"step {n + 1}", "step", "-1", f"{n}{n}") if x in o], [], f"names not set among {n}")
    c.reset_all()
    for o in (c, restarted().from_directory("cp")):
        t.eq([x for x in names if x in o], [], f"{n} names set and reset")


CHECKPOINTS = _space("many names", 257, run_checkpoints, "as many names set, found by a new process and reset")


# --- C33 -------------------------------------------------------------------------------

def run_lines(case, t):
    from vistautils.parameters import Parameters

    n, _ = case
    t.state(case)
    lines = [f"p {i}" if i % 5 else f"/abs/{i}" for i in range(n)]
    with open("list", "w") as f:
        for i, x in enumerate(lines):
            f.write(("# comment\n" if i % 4 == 0 else "\n" if i % 4 == 1 else "") + x + "\n")
    want = [Path(x) if x.startswith("/") else Path("base") / x for x in lines]
    for value in ("list", list(lines)):
        p = Parameters.from_mapping({"x": value})
        t.eq(list(p.path_list_from_file("x", resolve_relative_to=Path("base"))), want, f"a list of {n} paths")
    with open("map", "w") as f:
        for i, x in enumerate(lines):
            f.write(f"key {i}\t{x}\n")
    m = Parameters.from_mapping({"x": "map"}).path_map_from_file("x", resolve_relative_to=Path("base"))
    t.eq(list(m.items()), [(f"key {i}", x) for i, x in enumerate(want)], f"a map of {n} paths")


LINES = _space("many lines", 257, run_lines, "lists and maps of paths with comments and blank lines between")

# --- C10 -------------------------------------------------------------------------------

def run_annotations(case, t):
    from mc.checks.c10 import check

    n, shape = case
    t.state(case)
    text = "".join("ab\u00e9<&"[i % 5] for i in range(2 * n))
    spans = {"apart": [(2 * i, 2 * i + 1) for i in range(n)], "touching": [(2 * i, 2 * i + 2) for i in range(n)], "nested": [(i, 2 * n - i) for i in range(n)],
             "same": [(n // 2, n)] * n, "comb": [(0, 2 * n)] + [(i, i + 1) for i in range(n - 1)], "left": [(0, i + 1) for i in range(n)], "right": [(i, 2 * n) for i in range(n)], "attributes": [(0, n), (1, n)], "long": [(0, 2 * n), (n, n + 1)]}[shape]
    anns = [(f"q{i % 13}", (("a", str(i)),) if i % 2 else (), s) for i, s in enumerate(spans)]
    if shape == "attributes":
        anns = [("q", tuple((f"n{i}", f"v {i}") for i in range(n)), spans[0]), ("qr", tuple((f"n{i}", "") for i in reversed(range(n))), spans[1])]
    elif shape == "long":
        anns = [("q" * n, (("a" * n, "v" * n),), spans[0]), ("q" * (n + 1), (("b", " " * n), ("c", "x" * n)), spans[1])]
    for label, given in (("in order", anns), ("reversed", anns[::-1]), ("odd then even", anns[1::2] + anns[::2])):
        check(t, text, given, None, "list", f"{n} annotations, {shape}, {label}")
        lo, hi = n // 3, n + n // 2
        check(t, text[lo:hi], given, (lo, hi), "tuple", f"{n} annotations, {shape}, {label}, of a snippet")


ANNOTATIONS = _space("many annotations", 129, run_annotations, "annotations apart, touching, nested, alike and sharing an end, with many attributes or long names, in 3 orders, for whole texts and snippets",
                     ("apart", "touching", "nested", "same", "comb", "left", "right", "attributes", "long"), tmp=False)

# --- C32 -------------------------------------------------------------------------------
def run_helpers(case, t):
    from vistautils.misc_utils import eval_in_context_of_modules, flatten_once_to_list
    from vistautils.preconditions import check_all_isinstance, check_args_are_none, check_args_not_none, check_in, check_isinstance

    n, _ = case
    t.state(case)
    for i in sorted({0, 1, n // 2, n - 2, n - 1}):
        for form in (list, tuple, iter):
            t.raises(TypeError, lambda: check_all_isinstance(form([1] * i + ["a"] + [1] * (n - i - 1)), int), f"check_all_isinstance of {n} items, number {i} of another type,")
        t.raises(ValueError, lambda: check_args_are_none(*([None] * i + [0] + [None] * (n - i - 1))), f"check_args_are_none of {n}, number {i} of them 0,")
        t.raises(ValueError, lambda: check_args_not_none(*([0] * i + [None] + [0] * (n - i - 1))), f"check_args_not_none of {n}, number {i} of them None,")
        classes = tuple(type(f"C{j}", (), {}) for j in range(n))
        x = classes[i]()
        t.is_(t.call(lambda: check_isinstance(x, classes), f"check_isinstance with {n} classes"), x, f"check_isinstance with {n} classes")
        t.raises(TypeError, lambda: check_isinstance(x, classes[:i] + classes[i + 1 :]), f"check_isinstance with {n} other classes")
        for form in (list, tuple, set, frozenset, lambda r: dict.fromkeys(r), range):
            legal = range(n) if form is range else form(range(n))
            t.call(lambda: check_in(i, legal), f"check_in of {i} in the numbers below {n}")
            t.raises(ValueError, lambda: check_in(n + i, legal, "number"), f"check_in of {n + i} in the numbers below {n}")
    for form in (list, tuple, iter):
        t.call(lambda: check_all_isinstance(form([1] * n), int), f"check_all_isinstance of {n} items")
    t.call(lambda: check_args_are_none(*[None] * n), f"check_args_are_none of {n}")
    t.call(lambda: check_args_not_none(*[0] * n), f"check_args_not_none of {n}")
    parts = [[i * 100 + j for j in range(i % 4)] for i in range(n)]
    t.eq(list(flatten_once_to_list(parts)), [x for p in parts for x in p], f"{n} lists flattened")
    t.eq(list(flatten_once_to_list([list(range(n))] * 3)), list(range(n)) * 3, f"lists of {n} flattened")
    modules = ["json", "os.path", "re", "string", "math", "itertools", "functools", "collections.abc", "heapq", "bisect", "copy", "random", "operator", "textwrap", "types", "enum"]
    modules = (modules * (n // len(modules) + 1))[:n]
    for m in sorted(set(modules)):
        for given in (modules, [x for x in modules if x != m] + [m], [m] + [x for x in modules if x != m]):
            import importlib

            t.is_(t.call(lambda: eval_in_context_of_modules(m, {"x": 1}, context_modules=given, expected_type=object), f"{m} evaluated with {given}"), importlib.import_module(m), f"{m} evaluated with {given}")
    context = {f"x{i}": i for i in range(n)}
    t.eq(t.call(lambda: eval_in_context_of_modules("+".join(context), context, context_modules=[], expected_type=int), f"the sum of {n} names"), n * (n - 1) // 2, f"the sum of {n} names")


HELPERS = _space("many arguments", 129, run_helpers, "checks of many arguments, items, classes and legal values with an odd one at 5 places, many lists flattened, expressions over many modules and names", tmp=False)

BY_CHECK = {"C32": [HELPERS], "C10": [ANNOTATIONS], "C11": [ZIP], "C13": [DIRECTORY], "C14": [TAR], "C16": [SPLIT, EXPLICIT], "C17": [JOIN, FILES], "C18": [CONVERT], "C20": [TREE], "C21": [UNIFY], "C24": [INCLUDES],
            "C25": [WRITTEN], "C28": [OVERRIDES], "C29": [LONG], "C30": [CHECKPOINTS], "C33": [LINES]}
