"""C44 the same in every process: hash order, optimisation, encoding, time zone, umask, garbage collection.

Whole spaces of other checks are explored again, with their own oracles, in processes started in another
way.  Every case is one process: (its configuration, the part of the battery it goes through).
"""
import importlib
import itertools
import json
import os
import subprocess
import sys

from mc.core import Space, Violation, thorough

# --- the battery: spaces of other checks, each gone through completely -------------------------
BATTERY = {
    "values": (
        ("c01", "construct-and-probe"), ("c02", "collections"), ("c03", "equality"), ("c05", "encloses_all"), ("c06", "set equality"), ("c08", "single spans"), ("c08", "non-integers"), ("c08", "pairs"),
        ("c10", "labels and attributes"), ("c10", "wrong lengths"), ("c10", "snippets"), ("c29", "failing"), ("c29", "only"), ("c29", "refused"), ("c29", "interleaved"), ("c31", "odd strings"), ("c31", "amounts"),
        ("c32", "values"), ("c32", "instances"), ("c32", "wrappers"), ("c32", "evaluation"), ("c34", "refused types"), ("c42", "pairs"), ("c42", "no changes"),
    ),
    "parameters": (
        ("c20", "alike"), ("c20", "many names"), ("c20", "refused"), ("c20", "names with holes"), ("c22", "evaluate"), ("c23", "null"), ("c24", "links"), ("c26", "locked"), ("c27", "numbers"), ("c28", "environment"), ("c28", "logging"),
        ("c43", "notations"), ("c43", "aliases"),
    ),
    "stores": (
        ("c11", "binary values"), ("c12", "key lists"), ("c13", "directory sinks"), ("c13", "file maps"), ("c13", "sources"), ("c14", "formats"), ("c14", "failing functions"), ("c14", "interpreted sources"),
        ("c15", "sinks"), ("c15", "refused"), ("c15", "sources"),
    ),
    "files": (
        ("c16", "key orders"), ("c16", "modes"), ("c17", "joining a split"), ("c17", "directories"), ("c18", "large files"), ("c18", "names"), ("c19", "missing"), ("c30", "places"), ("c33", "not text"), ("c33", "pickles"), ("c33", "line sets"),
        ("c36", "key orders"), ("c36", "refused"), ("c43", "maps and directories"),
    ),
    # the larger spaces, thorough only
    "more values": (("c07", "all maps, all probes"), ("c09", "many items"), ("c34", "instances"), ("c34", "not empty"), ("c34", "factories"), ("c42", "copies of descriptions")),
    "more parameters": (("c21", "many names"), ("c23", "long"), ("c24", "bad"), ("c25", "values"), ("c25", "keys"), ("c25", "derived types"), ("c25", "many names")),
    "still more parameters": (("c21", "pairs"), ("c28", "overrides")),
    "more stores": (("c11", "keys and values"), ("c14", "archives")),
    "more files": (("c19", "texts"), ("c19", "no text"), ("c19", "bytes"), ("c35", "calls"), ("c43", "scripts")),
}


def parts(tier):
    return list(BATTERY) if thorough(tier) else list(BATTERY)[:4]


# --- the configurations -----------------------------------------------------------------------
NAMES = ("a", "b", "c", "d")
ORDERS = tuple(itertools.permutations(NAMES))
STARTED = ("", "-O", "-OO", "dev")
TEXT = ("ascii", "utf8")
ZONES = ("UTC", "XYZ-13:45", "ABC+12DEF,M3.2.0,M11.1.0")
UMASKS = (0o022, 0o077, 0)
COLLECTOR = ("default", "off", "eager")
HOMES = ("there", "unset")
PLAIN = ("", "ascii", "UTC", 0o022, "default", "there")


def gen_orders(tier):
    # the parts take different times: all workers shall have some of each
    for part in parts(tier):
        for order in ORDERS:
            yield (order, part)


def gen_started(tier):
    dims = (STARTED, TEXT, ZONES, UMASKS, COLLECTOR, HOMES)
    alone = [PLAIN[:i] + (v,) + PLAIN[i + 1 :] for i, d in enumerate(dims) for v in d[1:]]
    for part in parts(tier):
        for config in alone:
            yield (config, part)
    if thorough(tier):
        more = [c for c in itertools.product(*dims) if sum(x != y for x, y in zip(c, PLAIN)) == 2]
    else:
        more = [(s, "utf8", ZONES[-1], 0o077, g, "unset") for s in STARTED[1:] for g in COLLECTOR[1:]]
    for part in parts("quick"):
        for config in more:
            yield (config, part)


RERUN = """
import os, sys, warnings
warnings.simplefilter("ignore")
sys.path[:0] = [os.environ["MC_REPO"], os.environ["MC_VERIF"]]
from mc.checks.c44 import battery
battery(sys.argv[1], sys.argv[2])
"""


def battery(part, where):
    """In the other process: go through the spaces of a part of the battery; how it went is written to a file."""
    import gc
    import locale
    import logging
    from mc.core import Trial

    sys.setrecursionlimit(3000)
    logging.getLogger().addHandler(logging.NullHandler())
    if os.environ["C44_TEXT"] == "ascii":
        locale.setlocale(locale.LC_CTYPE, "C")
    os.umask(int(os.environ["C44_UMASK"]))
    if os.environ["C44_GC"] == "off":
        gc.disable()
    elif os.environ["C44_GC"] == "eager":
        gc.set_threshold(30, 2, 2)
    base = os.path.join(where, "tmp")
    os.mkdir(base)
    if part == "results":
        res = {"order": "".join(set(NAMES)), "optimised": sys.flags.optimize, "results": results(where)}
        with open(os.path.join(where, "result.json"), "w", encoding="utf-8") as f:
            json.dump(res, f)
        return
    res = {"order": "".join(set(NAMES)), "optimised": sys.flags.optimize, "cases": 0, "ops": 0, "failed": None}
    for module, name in BATTERY[part]:
        spaces = {s.name: s for s in importlib.import_module(f"mc.checks.{module}").SPACES}
        if name not in spaces:
            res["failed"] = [module, name, "", "there is no such space"]
            break
        t = Trial(base)
        gc.collect()
        for case in spaces[name].gen("quick"):
            res["cases"] += 1
            try:
                if spaces[name].tmp:
                    t.fresh_dir()
                    os.chdir(t.dir)
                spaces[name].run(case, t)
            except Violation as e:
                res["failed"] = [module, name, repr(case), str(e)]
            except BaseException as e:
                import traceback

                res["failed"] = [module, name, repr(case), "unexpected " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]]
            finally:
                if spaces[name].tmp:
                    t.drop_dir()
            if res["failed"]:
                break
        res["ops"] += t.ops
        if res["failed"]:
            break
    with open(os.path.join(where, "result.json"), "w", encoding="utf-8") as f:
        json.dump(res, f)


def results(where):
    """What a number of calls give whose results, order included, are promised: {call: result}."""
    import zipfile
    from pathlib import Path

    from immutablecollections import immutabledict
    from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
    from vistautils.io_utils import CharSink, file_lines_to_set, write_doc_id_to_file_map
    from vistautils.key_value import KeyValueLinearSource, KeyValueSink
    from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter
    from vistautils.range import ImmutableRangeMap, ImmutableRangeSet, Range
    from vistautils.scripts import downsample_key_value_store, split_key_value_store
    from vistautils.span import Span

    d = Path(where) / "work"
    d.mkdir()
    res = {}
    names = [f"{a}{b}" for a in NAMES for b in ("", "1", "x y", "\u00fc")]
    tree = {n: {m: [m, n] for m in NAMES} if i % 3 == 0 else i if i % 3 == 1 else f"%{names[i - 1] if i % 2 else names[0] + '.a'}%" for i, n in enumerate(names)}
    tree = {k.replace(" ", "_").replace("\u00fc", "u"): v.replace(" ", "_").replace("\u00fc", "u") if isinstance(v, str) else v for k, v in tree.items()}
    p = Parameters.from_mapping(tree)
    res["str"] = str(p)
    sink = CharSink.to_string()
    YAMLParametersWriter().write(p, sink)
    res["written"] = sink.last_string_written
    loaded = YAMLParametersLoader().load_string(res["written"])
    res["loaded"] = json.dumps(loaded.unify({"zz": 1, "a": {"new": 2, "b": 3}}).as_nested_dicts())
    res["pairs"] = json.dumps(Parameters.from_key_value_pairs([(f"{a}.{b}", a + b) for b in NAMES for a in NAMES]).as_nested_dicts())
    (d / "in").mkdir()
    files = immutabledict((n, d / "in" / f"f{i}") for i, n in enumerate(names[::-1]))
    sink = CharSink.to_string()
    write_doc_id_to_file_map(files, sink)
    res["map"] = sink.last_string_written.replace(str(d), "")
    (d / "lines").write_text("\n".join(names[::-1]), encoding="utf-8")
    res["lines"] = list(file_lines_to_set(d / "lines"))
    with KeyValueSink.zip_bytes_sink(d / "in.zip") as out:
        for n in names:
            out.put(n, n.encode("utf-8"))

    def stored(path):
        with zipfile.ZipFile(path) as z:
            return [n for n in z.namelist() if n != "__keys"]

    for seed in (None, 1, 2):
        for k in (1, 5, len(names)):
            x = {"input": {"type": "zip", "path": str(d / "in.zip")}, "num_to_sample": k, "output_zip_path": str(d / "out.zip")}
            downsample_key_value_store.main(Parameters.from_mapping(x if seed is None else {**x, "random_seed": seed}))
            res[f"sample {k} {seed}"] = stored(d / "out.zip")
        x = {"input": {"type": "zip", "path": str(d / "in.zip")}, "num_slices": 3, "output_dir": str(d / "slices")}
        split_key_value_store.main(Parameters.from_mapping(x if seed is None else {**x, "random_seed": seed}))
        res[f"slices {seed}"] = [sorted(stored(d / "slices" / f"{i}.zip")) for i in range(3)]
    text = "0123456789"
    anns = [AnnotatedSpan("out", Span(0, 9), immutabledict((m, "v") for m in NAMES)), AnnotatedSpan("in", Span(3, 5), immutabledict((m, m) for m in names))]
    res["markup"] = HTMLStyleAnnotationFormatter().annotated_text(text, anns)
    res["ranges"] = [repr(r) for r in ImmutableRangeSet.builder().add_all([Range.closed(a, b) for a, b in (("d", "e"), ("a", "b"), ("bb", "c"))]).build().as_ranges()]
    m = ImmutableRangeMap.builder()
    for a in NAMES[::-1]:
        m.put(Range.closed_open(a, a + "a"), a)
    res["map of ranges"] = [m.build().get_from_leftmost_containing_or_above("b"), m.build().get_from_rightmost_containing_or_below("b")]
    return json.loads(json.dumps(res))


def elsewhere(t, part, config, seed, what):
    started, text, zone, umask, collector, home = config
    where = os.path.join(t.dir, f"run{seed}")
    os.mkdir(where)
    env = dict(os.environ, PYTHONHASHSEED=str(seed), TZ=zone, C44_TEXT=text, C44_UMASK=str(umask), C44_GC=collector, PYTHONUTF8="1" if text == "utf8" else "0")
    if home == "unset":
        for name in ("HOME", "USER", "LOGNAME", "LANG", "COLUMNS", "TERM"):
            env.pop(name, None)
    flags = ["-X", "dev"] if started == "dev" else [started] if started else []
    # its output is not looked at: what is printed is not promised
    p = subprocess.Popen([sys.executable, *flags, "-W", "ignore", "-c", RERUN, part, where], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=where)
    try:
        _, err = p.communicate(timeout=600)
    except subprocess.TimeoutExpired:
        p.kill()
        t.fail(f"{what}: no answer within 600 s")
    if not os.path.exists(os.path.join(where, "result.json")):
        t.fail(f"{what}: the process ended with {p.returncode}: {err.decode(errors='replace')[-1500:]}")
    with open(os.path.join(where, "result.json"), encoding="utf-8") as f:
        return json.load(f)


def judge(t, res, what):
    t.ops += res["ops"]
    if res["failed"]:
        module, name, case, message = res["failed"]
        t.fail(f"{what}: {module.upper()}, {name}, case {case[:300]}: {message}")
    t.true(res["cases"] > 0, f"{what}: cases")


def run_orders(case, t):
    order, part = case
    t.state(case)
    what = f"{part} in a process which goes through the set of {', '.join(NAMES)} in the order {' '.join(order)}"
    seed = seed_for(order)
    res = elsewhere(t, part, PLAIN, seed, what)
    if res["order"] != "".join(order):
        raise RuntimeError(f"seed {seed} gives {res['order']}")
    judge(t, res, f"{what} (PYTHONHASHSEED={seed})")
    t.outcome("held in another order")


SEEDS = {}


def seed_for(order):
    """A hash seed under which sets of the four names are gone through in this order."""
    if not SEEDS:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c44_seeds.txt")) as f:
            for line in f:
                SEEDS[tuple(line.split()[1])] = int(line.split()[0])
    if tuple(seeded(SEEDS[order])) == order:
        return SEEDS[order]
    for seed in range(1, 2000):
        if tuple(seeded(seed)) == order:
            SEEDS[order] = seed
            return seed
    raise RuntimeError(f"no seed for {order}")


def seeded(seed):
    p = subprocess.run([sys.executable, "-S", "-c", f"print(''.join(set({NAMES!r})))"], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
    return p.stdout.decode().strip()


def run_started(case, t):
    config, part = case
    t.state(case)
    what = f"{part} in a process started as {config}"
    res = elsewhere(t, part, config, 0, what)
    if res["optimised"] != {"-O": 1, "-OO": 2}.get(config[0], 0):
        raise RuntimeError(f"{config} was started with optimisation level {res['optimised']}")
    judge(t, res, what)
    t.outcome("held in another process")


def gen_results(tier):
    for seed in range(1, 41 if thorough(tier) else 25):
        yield (seed, PLAIN)
    for config in [PLAIN[:i] + (v,) + PLAIN[i + 1 :] for i, d in enumerate((STARTED, TEXT, ZONES, UMASKS, COLLECTOR, HOMES)) for v in d[1:]]:
        yield (0, config)


def run_results(case, t):
    seed, config = case
    t.state(case)
    what = f"a process started as {config} with hash seed {seed}"
    here = os.path.join(t.dir, "here")
    os.mkdir(here)
    want = t.call(lambda: results(here), "computing the results here")
    got = elsewhere(t, "results", config, seed, what)["results"]
    t.eq(sorted(got), sorted(want), f"the results in {what}")
    for name in want:
        t.eq(got[name], want[name], f"{name} in {what}, compared with what it is in another process")


def spaces_of(tier):
    return sum(len(BATTERY[part]) for part in parts(tier))


SPACES = [
    Space("hash orders", gen_orders, run_orders, lambda tier: f"every one of the 24 orders in which a set of 4 names can be gone through, {spaces_of(tier)} whole spaces of other checks in each", tmp=True),
    Space("same results", gen_results, run_results, lambda tier: "%d calls whose results are promised, order included, in processes of %d hash seeds and 10 ways of starting" % (27, 40 if thorough(tier) else 24), tmp=True),
    Space("processes", gen_started, run_started, lambda tier: f"of 4 ways to start Python, 2 default encodings, 3 time zones, 3 umasks, 3 modes of the garbage collector, with and without HOME: each alone with {spaces_of(tier)} whole spaces of other checks, " + (f"each two of them together with {spaces_of('quick')}" if thorough(tier) else "and 6 combinations"), tmp=True),
]
