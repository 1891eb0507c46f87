"""C16 splitting key-value stores."""
import itertools
import random
from pathlib import Path

from mc.core import Space, thorough, seqs, subsets
from mc import many
from mc.checks.c11 import make_sink, make_source

# keys which less than careful comparisons take for one another
ORDER_KEYS = (("k0", "k1", "k2", "k3", "k4"), ("a", "A", "\u00e4", "\u00c4", "a\u0308"), ("1", "01", "1.0", "10", "0x1"))
VALUES = (b"", b"\xff\x00\r\n", b"value", b"0", b"\n", b"x" * 3000, "\u00e9".encode())


def entries_of(n, perm=0):
    names = ("b", "a", "C", "d/e", "10", "9", "\u00fc")
    return {names[i] if i < 7 else f"{names[i % 7]}{i}": VALUES[i % 7] + (b"" if i < 7 else str(i).encode()) for i in range(n)}


def write_store(d, kind, entries):
    """(content of the input namespace)"""
    if kind == "zip":
        with make_sink("bytes", d / "in.zip", "plain") as s:
            for k, v in entries.items():
                s.put(k, v)
        return {"type": "zip", "path": str(d / "in.zip")}
    lines = []
    for i, (k, v) in enumerate(entries.items()):
        (d / f"in{i}").write_bytes(v)
        lines.append(f"{k}\t{d}/in{i}\n")
    (d / "map").write_text("".join(lines), encoding="utf-8")
    return {"path": str(d / "map")} if kind == "untyped" else {"type": "file-map", "path": str(d / "map")}


def read_store(t, path, what):
    with t.call(lambda: make_source("bytes", path, "plain"), f"opening {what}") as s:
        got = list(s.items())
        keys = s.keys()
    t.eq((len(got), len(keys), set(keys)), (len(dict(got)), len(dict(got)), set(dict(got))), f"keys of {what}")
    return dict(got)


def run_main(d):
    from vistautils.parameters import Parameters
    from vistautils.scripts import split_key_value_store as m

    return m.main(Parameters.from_mapping(d))


def read_slices(t, out, n, want, what):
    listed = (out / "_slices.txt").read_text(encoding="utf-8").splitlines()
    t.eq(len(listed), n, f"number of slices listed, {what}")
    t.eq(len(set(listed)), n, f"number of different slices listed, {what}")
    t.true(all(Path(p).parent == out for p in listed), f"slices are in the output directory, {what}: {listed}")
    if all(Path(p).stem.isdecimal() for p in listed):
        t.eq(listed, sorted(listed, key=lambda p: int(Path(p).stem)), f"order of the slices listed, {what}")
    parts = [read_store(t, Path(p), f"slice {p}, {what}") for p in listed]
    together = [kv for p in parts for kv in p.items()]
    t.eq((len(together), dict(together)), (len(want), want), f"the slices together, {what}")
    sizes = [len(p) for p in parts]
    t.true(max(sizes) - min(sizes) <= 1, f"sizes of the slices, {what}: {sizes}")
    return parts


def gen_even(tier):
    for n in range(0, 15 if not thorough(tier) else 33):
        for slices in range(1, 10 if not thorough(tier) else 17):
            for seed in (None, 7) if n > 7 or slices > 5 else (None,):
                yield ("zip", n, slices, seed)
    for kind in ("zip", "file-map", "untyped"):
        for n in range(0, 8 if not thorough(tier) else 13):
            for slices in range(1, 6 if not thorough(tier) else 10):
                for seed in (None, 1, 2, 12345) if not thorough(tier) else (None, 1, 2, 3, 7, 12345, 2 ** 40):
                    yield (kind, n, slices, seed)
    yield ("zip", 7, 200, None)
    yield ("zip", 7, 1, 5)


def run_even(case, t):
    kind, n, slices, seed = case
    d = Path(t.dir)
    want = entries_of(n)
    inp = write_store(d, kind, want)
    t.state(case)
    w = f"splitting {list(want)} into {slices} with seed {seed}"
    results = []
    for run, where in enumerate(("new/out", "new/out", "other")):
        random.seed(run)
        out = d / where
        p = {"input": inp, "num_slices": slices, "output_dir": str(out), "unrelated": {"x": 1}}
        if seed is not None:
            p["random_seed"] = seed
        t.call(lambda: run_main(p), w)
        results.append(read_slices(t, out.resolve(), slices, want, w))
    t.eq(results[1:], results[:1] * 2, f"repeating {w}")
    t.eq(read_store(t, d / "in.zip", "the input") if kind == "zip" else want, want, "the input afterwards")


def gen_order(tier):
    for names in ORDER_KEYS:
        for n in (2, 3, 4) if not thorough(tier) else (2, 3, 4, 5):
            for slices in range(1, n + 1):
                for seed in (None, 1, 99) if names is ORDER_KEYS[0] or thorough(tier) else (None, 1):
                    yield (names, n, slices, seed)


def run_order(case, t):
    """Stores list their keys in no particular order: the split must not depend on it."""
    names, n, slices, seed = case
    t.state(case)
    entries = [(names[i], "v" * i) for i in range(n)]
    first = None
    for i, order in enumerate(itertools.permutations(entries)):
        out = Path(t.dir) / f"o{i}"
        p = {"input": {"type": "mc.plug.OrderedSource", "import": ["mc.plug"], "entries": [list(e) for e in order]},
             "num_slices": slices, "output_dir": str(out)}
        if seed is not None:
            p["random_seed"] = seed
        random.seed(i)
        t.call(lambda: run_main(p), f"splitting {order}")
        got = read_slices(t, out, slices, {k: v.encode() for k, v in entries}, f"splitting {order} into {slices}, seed {seed}")
        if first is None:
            first = got
        t.eq(got, first, f"splitting {order} into {slices} with seed {seed}, compared with another order of the same keys")


EKEYS = ("a", "b c", "\u00fc")
ALIKE = ("a", " a", "a ", "A")  # in zip stores, where these are four keys


def gen_explicit(tier):
    keys = EKEYS if not thorough(tier) else EKEYS + ("d/e",)
    for kind in ("zip", "file-map"):
        for nsplits in (0, 1, 2):
            lists = list(subsets(keys + ("missing",)))
            for assignment in itertools.product(lists, repeat=nsplits):
                for exhaustive in ((), ("top", True), ("top", False), ("in", False), ("in", True), ("both", True), ("both", False)):
                    if kind == "file-map" and exhaustive not in ((), ("top", False)):
                        continue
                    if nsplits == 2 and not thorough(tier) and exhaustive in (("top", True), ("in", True), ("both", True)):
                        continue
                    if nsplits == 0 and not (exhaustive and exhaustive[0] != "top"):
                        continue  # no way to write a namespace with nothing in it from a file
                    yield (kind, keys, assignment, exhaustive)
    lists = list(subsets(ALIKE))
    for nsplits in (1, 2) if not thorough(tier) else (1, 2, 3):
        for assignment in itertools.product(lists, repeat=nsplits):
            for exhaustive in ((), ("in", False)):
                yield ("zip", ALIKE, assignment, exhaustive)


def run_explicit(case, t):
    kind, keys, assignment, exhaustive = case
    d = Path(t.dir)
    want = {k: VALUES[i] for i, k in enumerate(keys)}
    inp = write_store(d, kind, want)
    t.state(case)
    ns = {}
    for i, ks in enumerate(assignment):
        # listed in reverse, sometimes twice, with and without a final newline
        lines = list(reversed(ks)) + list(ks[:1])
        (d / f"keys{i}").write_text("\n".join(lines) + ("\n" if i == 0 else ""), encoding="utf-8")
        ns[("train", "test", "more")[i]] = {"keys_file": str(d / f"keys{i}"), "output_file": str(d / "sub" / f"out{i}.zip")}
    p = {"input": inp, "explicit_split": ns}
    if exhaustive:
        (p if exhaustive[0] == "top" else ns)["must_be_exhaustive"] = exhaustive[1]
        if exhaustive[0] == "both":
            # what the split itself says counts
            p["must_be_exhaustive"] = not exhaustive[1]
    w = f"splitting {keys} by {assignment}, must_be_exhaustive {exhaustive}"
    missing = any("missing" in ks for ks in assignment)
    covered = set(k for ks in assignment for k in ks) >= set(keys)
    if missing or (not covered and not (exhaustive and exhaustive[1] is False)):
        t.raises(Exception, lambda: run_main(p), w)
        return
    t.call(lambda: run_main(p), w)
    for i, ks in enumerate(assignment):
        t.eq(read_store(t, d / "sub" / f"out{i}.zip", f"output {i} of {w}"), {k: want[k] for k in ks}, f"output {i} of {w}")
    t.outcome("split")


def gen_mode(tier):
    for x in ("neither", "both", "slices 0", "slices -1", "slices str", "slices float", "seed 0", "no output", "output is a file", "no input", "split without keys", "split without output",
              "keys file absent", "namespace is a leaf"):
        yield x


def run_mode(case, t):
    d = Path(t.dir)
    inp = write_store(d, "zip", {"a": b"1"})
    t.state(case)
    (d / "keys").write_text("a\n")
    (d / "file").write_text("x")
    split = {"train": {"keys_file": str(d / "keys"), "output_file": str(d / "o.zip")}}
    good = {"input": inp, "num_slices": 1, "output_dir": str(d / "out")}
    p = {
        "neither": {"input": inp, "output_dir": str(d / "out")},
        "both": dict(good, explicit_split=split),
        "slices 0": dict(good, num_slices=0),
        "slices -1": dict(good, num_slices=-1),
        "slices str": dict(good, num_slices="2"),
        "slices float": dict(good, num_slices=2.0),
        "seed 0": dict(good, random_seed="x"),
        "no output": {"input": inp, "num_slices": 1},
        "output is a file": dict(good, output_dir=str(d / "file")),
        "no input": {"num_slices": 1, "output_dir": str(d / "out")},
        "split without keys": {"input": inp, "explicit_split": {"train": {"output_file": str(d / "o.zip")}}},
        "split without output": {"input": inp, "explicit_split": {"train": {"keys_file": str(d / "keys")}}},
        "keys file absent": {"input": inp, "explicit_split": {"train": {"keys_file": str(d / "no"), "output_file": str(d / "o.zip")}}},
        "namespace is a leaf": {"input": inp, "explicit_split": "x"},
    }[case]
    t.raises(Exception, lambda: run_main(p), f"main with {case}")
    t.eq((d / "file").read_text(), "x", "a file in the way")
    t.call(lambda: run_main(good), "a proper split")
    t.call(lambda: run_main({"input": inp, "explicit_split": split}), "a proper explicit split")


RERUN = """
import ast, json, os, sys, warnings
warnings.simplefilter("ignore")
sys.path[:0] = [os.environ["MC_REPO"], os.environ["MC_VERIF"]]
from mc.checks.c16 import splits
print(json.dumps(splits(ast.literal_eval(sys.argv[1]), sys.argv[2])))
"""


def splits(case, where):
    """Runs a split in this process: the keys in each slice, by configuration."""
    from pathlib import Path
    from mc.core import Trial

    kind, sizes, slice_counts, seeds = case
    d = Path(where)
    d.mkdir()
    found = []
    for n in sizes:
        (d / f"{n}").mkdir()
        want = entries_of(n)
        inp = write_store(d / f"{n}", kind, want)
        for slices in slice_counts:
            for seed in seeds:
                out = d / f"{n}" / f"{slices}-{seed}"
                p = {"input": inp, "num_slices": slices, "output_dir": str(out)}
                if seed is not None:
                    p["random_seed"] = seed
                run_main(p)
                parts = read_slices(Trial(None), out.resolve(), slices, want, f"{case}")
                found.append([n, slices, seed, [sorted(x) for x in parts]])
    return found


def gen_processes(tier):
    for kind in ("zip", "file-map"):
        for hash_seed in range(1, 7 if not thorough(tier) else 33):
            yield (hash_seed, (kind, tuple(range(2, 9)) if not thorough(tier) else tuple(range(2, 17)), (1, 2, 3, 5), (None, 1, 12345)))


def run_processes(case, t):
    """Another process, with other hash codes of strings, must split in the same way."""
    import json
    import os
    import subprocess
    import sys

    hash_seed, what = case
    t.state(case)
    results = []
    for i, seed in enumerate((0, hash_seed)):
        p = subprocess.run([sys.executable, "-c", RERUN, repr(what), os.path.join(t.dir, f"run{i}")], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, PYTHONHASHSEED=str(seed)))
        if p.returncode:
            t.fail(f"splitting {what} with hash seed {seed} failed: {p.stderr.decode(errors='replace')[-1500:]}")
        results.append(json.loads(p.stdout))
    for a, b in zip(*results):
        t.eq(b, a, f"the split (size, slices, seed, keys of the slices) in a process with hash seed {hash_seed}, compared with hash seed 0")
    t.eq(len(results[1]), len(results[0]), "number of splits")


SPACES = [
    Space("even slices", gen_even, run_even, lambda tier: "stores of 0-14 entries, 1-9 slices; of 0-7 entries, 1-5 slices with 4 seeds in 3 kinds of store" if tier == "quick" else "stores of 0-32 entries, 1-16 slices; of 0-12 entries, 1-9 slices with 7 seeds in 3 kinds of store", tmp=True),
    Space("key orders", gen_order, run_order, lambda tier: "every order of 2-%d keys of 3 sets (keys alike but for case, numbers written in several ways)" % (4 if tier == "quick" else 5), tmp=True),
    Space("explicit splits", gen_explicit, run_explicit, lambda tier: "every assignment of %d keys and a missing one to 0-2 splits, and of 4 keys alike but for case and blanks" % (3 if tier == "quick" else 4), tmp=True),
    Space("modes", gen_mode, run_mode, "every invalid set of parameters", tmp=True),
    Space("processes", gen_processes, run_processes, lambda tier: "%d other seeds of string hashing, each in a process of its own, 2 kinds of store" % (6 if tier == "quick" else 32), tmp=True),
]

SPACES += many.BY_CHECK["C16"]
