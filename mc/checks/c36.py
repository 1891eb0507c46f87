"""C36 downsampling key-value stores."""
import itertools
import json
import os
import random
import subprocess
import sys
import zipfile
from pathlib import Path

from mc.core import Space, thorough
from mc.checks.c16 import ORDER_KEYS, entries_of, read_store, write_store

SEEDS = (None, 0, 1, 7, -3, 2 ** 40)


def run_main(d):
    from vistautils.parameters import Parameters
    from vistautils.scripts import downsample_key_value_store as m

    return m.main(Parameters.from_mapping(d))


def params(inp, n, out, seed):
    p = {"input": inp, "num_to_sample": n, "output_zip_path": str(out), "unrelated": {"num_to_sample": 1}}
    if seed is not None:
        p["random_seed"] = seed
    return p


def sample(t, inp, entries, n, out, seed, what):
    t.call(lambda: run_main(params(inp, n, out, seed)), what)
    got = read_store(t, out, f"the result of {what}")
    t.eq(len(got), min(n, len(entries)), f"number of entries of the result of {what}")
    t.eq(got, {k: entries.get(k) for k in got}, f"entries of the result of {what}")
    return got


def gen_sizes(tier):
    for kind in ("zip", "file-map", "untyped"):
        for n in range(0, 9 if not thorough(tier) else 24):
            for k in range(1, 11 if not thorough(tier) else 27):
                for seed in SEEDS:
                    yield (kind, n, k, seed)
    for k in (1, 99, 100, 101, 10 ** 6):
        yield ("zip", 100, k, 1)


def run_sizes(case, t):
    kind, n, k, seed = case
    t.state(case)
    d = Path(t.dir)
    want = entries_of(n)
    inp = write_store(d, kind, want)
    w = f"sampling {k} of {list(want)} with seed {seed}"
    first = None
    for run, where in enumerate(("new/er/out.zip", "new/er/out.zip", "other.zip")):
        random.seed(run)
        for _ in range(run):
            random.random()
        got = sample(t, inp, want, k, d / where, seed, w)
        if first is None:
            first = got
        t.eq(got, first, f"{w}, repeated")
    if kind == "zip":
        t.eq(read_store(t, d / "in.zip", "the input"), want, f"the input after {w}")
    else:
        t.eq({key: (d / f"in{i}").read_bytes() for i, key in enumerate(want)}, want, f"the files of the input after {w}")


def gen_order(tier):
    for names in ORDER_KEYS:
        for n in (2, 3, 4) if not thorough(tier) else (2, 3, 4, 5):
            for k in range(1, n + 1):
                for seed in SEEDS if names is ORDER_KEYS[0] or thorough(tier) else SEEDS[:3]:
                    yield (names, n, k, seed)


def run_order(case, t):
    """Stores list their keys in no particular order: the sample must not depend on it."""
    names, n, k, seed = case
    t.state(case)
    entries = [(names[i], "v" * i) for i in range(n)]
    first = None
    for i, order in enumerate(itertools.permutations(entries)):
        inp = {"type": "mc.plug.OrderedSource", "import": ["mc.plug"], "entries": [list(e) for e in order]}
        got = sample(t, inp, {a: b.encode() for a, b in entries}, k, Path(t.dir) / f"o{i}.zip", seed, f"sampling {k} of {order} with seed {seed}")
        if first is None:
            first = got
        t.eq(got, first, f"sampling {k} of {order} with seed {seed}, compared with another order of the same keys")


def gen_chance(tier):
    for n in range(2, 6 if not thorough(tier) else 9):
        for k in range(1, n):
            yield (n, k)


def run_chance(case, t):
    """Every entry is sampled under some seed, and left out under some."""
    n, k = case
    t.state(case)
    want = entries_of(n)
    inp = write_store(Path(t.dir), "zip", want)
    seen = [set(sample(t, inp, want, k, Path(t.dir) / "out.zip", seed, f"sampling {k} of {n} with seed {seed}")) for seed in range(200)]
    for key in want:
        t.true(any(key in s for s in seen), f"{key!r} is among some sample of {k} out of {n}, over 200 seeds")
        t.true(any(key not in s for s in seen), f"{key!r} is left out of some sample of {k} out of {n}, over 200 seeds")


BAD = ("none", "zero", "negative", "text", "fraction", "no output", "output is a directory", "output below a file", "no input", "input absent", "seed text")


def gen_bad(tier):
    yield from BAD


def run_bad(case, t):
    t.state(case)
    d = Path(t.dir)
    inp = write_store(d, "zip", {"a": b"1"})
    (d / "dir").mkdir()
    (d / "file").write_text("x")
    good = params(inp, 1, d / "o.zip", None)
    p = {
        "none": {k: v for k, v in good.items() if k != "num_to_sample"},
        "zero": dict(good, num_to_sample=0),
        "negative": dict(good, num_to_sample=-1),
        "text": dict(good, num_to_sample="1"),
        "fraction": dict(good, num_to_sample=1.0),
        "no output": {k: v for k, v in good.items() if k != "output_zip_path"},
        "output is a directory": dict(good, output_zip_path=str(d / "dir")),
        "output below a file": dict(good, output_zip_path=str(d / "file" / "o.zip")),
        "no input": {k: v for k, v in good.items() if k != "input"},
        "input absent": dict(good, input={"type": "zip", "path": str(d / "none.zip")}),
        "seed text": dict(good, random_seed="x"),
    }[case]
    t.raises(Exception, lambda: run_main(p), f"downsampling with {case}")
    t.eq(((d / "file").read_text(), os.listdir(d / "dir")), ("x", []), "what was in the way")
    t.eq(read_store(t, d / "in.zip", "the input"), {"a": b"1"}, "the input")
    t.call(lambda: run_main(good), "a proper call")


RERUN = """
import ast, json, os, sys, warnings
warnings.simplefilter("ignore")
sys.path[:0] = [os.environ["MC_REPO"], os.environ["MC_VERIF"]]
from mc.checks.c36 import samples
print(json.dumps(samples(ast.literal_eval(sys.argv[1]), sys.argv[2])))
"""


def samples(case, where):
    from mc.core import Trial

    kind, sizes, counts, seeds = case
    d = Path(where)
    d.mkdir()
    found = []
    for n in sizes:
        (d / f"{n}").mkdir()
        want = entries_of(n)
        inp = write_store(d / f"{n}", kind, want)
        for k in counts:
            for seed in seeds:
                out = d / f"{n}" / f"{k}-{seed}.zip"
                got = sample(Trial(None), inp, want, k, out, seed, f"sampling {case}")
                with zipfile.ZipFile(out) as z:
                    found.append([n, k, seed, [name for name in z.namelist() if name in got]])
    return found


def gen_processes(tier):
    for kind in ("zip", "file-map"):
        for hash_seed in range(1, 7 if not thorough(tier) else 33):
            yield (hash_seed, (kind, tuple(range(2, 8)) if not thorough(tier) else tuple(range(2, 17)), (1, 2, 3), (None, 1, 12345)))


def run_processes(case, t):
    """Another process, with other hash codes of strings, must sample the same entries, in the same order."""
    hash_seed, what = case
    t.state(case)
    results = []
    for i, seed in enumerate((0, hash_seed)):
        p = subprocess.run([sys.executable, "-c", RERUN, repr(what), os.path.join(t.dir, f"run{i}")], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, PYTHONHASHSEED=str(seed)))
        if p.returncode:
            t.fail(f"sampling {what} with hash seed {seed} failed: {p.stderr.decode(errors='replace')[-1500:]}")
        results.append(json.loads(p.stdout))
    for a, b in zip(*results):
        t.eq(b, a, f"the sample (size, number, seed, keys) in a process with hash seed {hash_seed}, compared with hash seed 0")
    t.eq(len(results[1]), len(results[0]), "number of samples")


SPACES = [
    Space("sizes", gen_sizes, run_sizes, lambda tier: "3 kinds of store of 0-%d entries x samples of 1-%d x 6 seeds, each repeated twice" % ((8, 10) if tier == "quick" else (23, 26)), tmp=True),
    Space("key orders", gen_order, run_order, lambda tier: "every order of 2-%d keys of 3 sets (keys alike but for case, numbers written in several ways) x sample sizes x up to 6 seeds" % (4 if tier == "quick" else 5), tmp=True),
    Space("chance", gen_chance, run_chance, lambda tier: "200 seeds for every sample size of stores of 2-%d entries" % (5 if tier == "quick" else 8), tmp=True),
    Space("refused", gen_bad, run_bad, "11 invalid sets of parameters", tmp=True),
    Space("processes", gen_processes, run_processes, lambda tier: "%d other seeds of string hashing, each in a process of its own, 2 kinds of store" % (6 if tier == "quick" else 32), tmp=True),
]
