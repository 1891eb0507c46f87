"""C13 directory sinks, document-id file maps and sources on them."""
import itertools
import os
from pathlib import Path

from mc.core import Space, thorough, seqs, Violation
from mc import many
from mc.checks.c11 import read_back, enc, _Body


def dir_sink(kind, path):
    from vistautils import key_value as kv
    from vistautils.parameters import Parameters

    f = kv.char_key_value_sink_from_params if kind == "char" else kv.byte_key_value_sink_from_params
    return f(Parameters.from_mapping({"output": {"type": "file-map", "path": str(path)}}))


def map_source(kind, index):
    from vistautils.key_value import KeyValueSource

    f = KeyValueSource.from_doc_id_to_file_map if kind == "char" else KeyValueSource.binary_from_doc_id_to_file_map
    return f(index)


def compare(t, kind, index, want, root, what):
    from vistautils.io_utils import CharSource, read_doc_id_to_file_map

    m = t.call(lambda: read_doc_id_to_file_map(CharSource.from_file(index)), f"reading the index of {what}")
    t.eq(list(m), sorted(want), f"ids in the index of {what}")
    for k, p in m.items():
        t.true(isinstance(p, Path) and p.is_absolute(), f"{p!r} of {k!r} is an absolute path ({what})")
        t.eq(p.read_bytes(), want[k].encode("utf-8") if kind == "char" else want[k], f"file of {k!r} of {what}")
    for form in (index, str(index), CharSource.from_file(index)):
        with map_source(kind, form) as src:
            read_back(t, src, want, ("missing", "a", "b", "_index", ""), kind, f"the source on {what}")


KEYS = ("a", "b/c", "b/d.txt", "\u00e9 x")
VALS = ("", "x", "two\nlines\n\u00e9")


def gen_dir(tier):
    ops = tuple((k, v) for k in KEYS[:3] for v in VALS[:2])
    for kind in ("char", "bytes"):
        for end in ("normal", "raise"):
            for p in seqs(ops, 0, 2 if not thorough(tier) else 4):
                yield (kind, end, p)
        for p in seqs(tuple((k, "v%d" % i) for i, k in enumerate(KEYS)), 3, 3 if not thorough(tier) else 4):
            yield (kind, "normal", p)
        for k in KEYS:
            for v in VALS + (" \t ", "\n", "end\n", "\u2028\x85\x0c\x1c", "\ufeff", "\U0001f600" * 50, "x" * 200_000):
                yield (kind, "normal", ((k, v),))


def run_dir(case, t):
    kind, end, puts = case
    root = Path(t.dir) / "out"
    root.mkdir()
    (Path(t.dir) / "bystander").write_text("untouched")
    t.state(case)
    want = {}
    sink = dir_sink(kind, root if len(puts) % 2 else "out" if False else root)
    body = _Body()
    try:
        with sink as s:
            t.is_(s, sink, "entering a sink")
            for n, (k, v) in enumerate(puts):
                if n % 2:
                    s[k] = enc(kind, v)
                else:
                    s.put(k, enc(kind, v))
                want[k] = enc(kind, v)
            if end == "raise":
                raise body
        t.eq(end, "normal", "the exception of the body reaches the caller")
    except _Body as e:
        t.is_(e, body, "the exception of the body")
    compare(t, kind, root / "_index", want, root, f"directory after {case}")
    t.eq(sorted(os.listdir(t.dir)), ["bystander", "out"], "what lies beside the directory")
    got = sorted(str(p.relative_to(root)) for p in root.rglob("*") if p.is_file())
    t.eq(got, sorted(list(want) + ["_index"]), f"files in the directory after {case}")
    t.outcome(f"{len(want)} entries from {len(puts)} puts")


def gen_sessions(tier):
    puts = tuple(tuple((k, k + "!") for k in ks) for ks in ((), ("a",), ("b",), ("a", "b"), ("b", "c")))
    for kind in ("char", "bytes"):
        for n in (2, 3) if not thorough(tier) else (2, 3, 4):
            for sessions in itertools.product(range(len(puts)), repeat=n):
                for ends in (("normal",) * n, ("raise",) + ("normal",) * (n - 1)):
                    for reuse in (True, False):
                        yield (kind, tuple(puts[i] for i in sessions), ends, reuse)


def run_sessions(case, t):
    """One directory, emptied before each of several sessions of the same sink or of new ones."""
    kind, sessions, ends, reuse = case
    root = Path(t.dir) / "out"
    root.mkdir()
    sink = dir_sink(kind, root)
    t.state(case)
    for n, (puts, end) in enumerate(zip(sessions, ends)):
        for f in list(root.iterdir()):
            f.unlink()
        body = _Body()
        try:
            with sink as s:
                for k, v in puts:
                    s.put(k, enc(kind, f"{v}{n}"))
                if end == "raise":
                    raise body
        except _Body as e:
            t.is_(e, body, "the exception of the body")
        compare(t, kind, root / "_index", {k: enc(kind, f"{v}{n}") for k, v in puts}, root, f"directory after session {n} of {case}")
        if not reuse:
            sink = dir_sink(kind, root)


# --- doc id to file maps ------------------------------------------------------------------

IDS = ("doc1", "doc10", "doc2", "a b", "\u00e9", "B", "x/y", "0")
PATHS = ("/tmp/x/one.txt", "rel.txt", "/with space/f", "/\u4e2d/f.xml", "sub/dir/../f")


def gen_map(tier):
    for n in range(0, 4 if not thorough(tier) else 5):
        for ids in itertools.combinations(IDS, n):
            for perm in ((ids, tuple(reversed(ids))) if not thorough(tier) else itertools.permutations(ids)):
                for off in range(len(PATHS) if n else 1):
                    yield tuple((d, PATHS[(i + off) % len(PATHS)]) for i, d in enumerate(perm))
    yield tuple((d, "/one/file") for d in IDS)


def run_map(case, t):
    from vistautils.io_utils import CharSink, CharSource, read_doc_id_to_file_map, write_doc_id_to_file_map

    t.state(case)
    want = [(k, Path(t.dir) / v) for k, v in sorted(dict(case).items())]
    mapping = {k: Path(v) for k, v in case}
    before = dict(mapping)
    out = CharSink.to_string()
    write_doc_id_to_file_map(mapping, out)
    text = out.last_string_written
    t.eq(text, "".join(f"{k}\t{v}\n" for k, v in want), f"file map of {case}")
    t.eq(mapping, before, "the mapping written")
    f = Path(t.dir) / "m" / "map.tsv"
    write_doc_id_to_file_map(mapping, CharSink.to_file(f))
    for src in (CharSource.from_string(text), CharSource.from_file(f)):
        got = read_doc_id_to_file_map(src)
        t.eq(list(got.items()), want, f"file map of {case} read back")
    t.eq(list(read_doc_id_to_file_map(CharSource.from_string(text[:-1]))), [k for k, _ in want],
         "a map without the last newline")


LINES = ("ok\t/p/ok", "ok2\t/p/q", " padded \t /p/r \r", "notab", "a\tb\tc", "a b", "x\ty\t", "\t\t")


def gen_bad(tier):
    for n in (1, 2, 3) if not thorough(tier) else (1, 2, 3, 4):
        for c in itertools.permutations(range(len(LINES)), n):
            for tail in ("\n", ""):
                yield (c, tail)


def run_bad(case, t):
    from vistautils.io_utils import CharSource, read_doc_id_to_file_map
    from vistautils.key_value import KeyValueSource

    c, tail = case
    t.state(case)
    text = "\n".join(LINES[i] for i in c) + tail
    src = CharSource.from_string(text)
    if all(i < 3 for i in c):
        names = {0: ("ok", "/p/ok"), 1: ("ok2", "/p/q"), 2: ("padded", "/p/r")}
        t.eq([(k, str(v)) for k, v in read_doc_id_to_file_map(src).items()], [names[i] for i in c], f"file map {text!r}")
        t.outcome("read")
    else:
        t.raises(IOError, lambda: read_doc_id_to_file_map(src), f"file map {text!r}")
        t.raises(IOError, lambda: KeyValueSource.from_doc_id_to_file_map(src), f"source on file map {text!r}")
        t.raises(IOError, lambda: KeyValueSource.binary_from_doc_id_to_file_map(src), f"source on file map {text!r}")


# --- sources on file maps -----------------------------------------------------------------

CONTENT = ("", "x", "two\nlines\n\u00e9\U0001f600", " padded ", "\n", "end\n\n", "\u2028\x85\x0c\x1c\ufeff")


def gen_src(tier):
    for kind in ("char", "bytes"):
        for n in (0, 1, 2, 3):
            for c in itertools.product(range(len(CONTENT)), repeat=n):
                if n < 3 or thorough(tier) or (len(set(c)) == 3 and c[0] < 4):
                    yield (kind, c)


def run_src(case, t):
    from immutablecollections import immutabledict
    from vistautils.key_value import KeyValueSource

    kind, c = case
    t.state(case)
    d = Path(t.dir)
    want, paths = {}, []
    for i, ci in enumerate(c):
        p = d / f"f{ci}"  # equal contents share one file
        p.write_bytes(CONTENT[ci].encode("utf-8"))
        want[f"id {i}"] = CONTENT[ci] if kind == "char" else CONTENT[ci].encode("utf-8")
        paths.append((f"id {i}", p))
    idx = d / "index"
    idx.write_text("".join(f"{k}\t{p}\n" for k, p in reversed(paths)), encoding="utf-8")
    with map_source(kind, idx) as src:
        read_back(t, src, want, ("missing", "f0", "id"), kind, f"source on a file map {case}")
    if kind == "char":
        with KeyValueSource.from_path_mapping(immutabledict(paths)) as src:
            read_back(t, src, want, ("missing", "f0", "id"), kind, f"source on a path mapping {case}")
        t.eq(list(src.items()), list(want.items()), "order of a path mapping")
    # values are read when asked for
    if c:
        with map_source(kind, idx) as src:
            paths[0][1].write_bytes(b"changed")
            t.eq(src["id 0"], "changed" if kind == "char" else b"changed", "value of a changed file")


# --- probes for known findings ------------------------------------------------------------

def gen_awkward(tier):
    yield ("value", "a\r\nb\rc")
    for k in ("_index", " lead", "trail ", "tab\tkey", "new\nline"):
        yield ("key", k)


def run_awkward(case, t):
    what, x = case
    root = Path(t.dir) / "out"
    root.mkdir()
    t.state(case)
    want = {}
    puts = [("a", x)] if what == "value" else [("a", "1"), (x, "2")]
    with dir_sink("char", root) as s:
        for k, v in puts:
            try:
                s.put(k, v)
                want[k] = v
            except ValueError:
                t.outcome("refused")
    with map_source("char", root / "_index") as src:
        read_back(t, src, want, ("missing",), "char", f"directory after {case}")


SPACES = [
    Space("sessions", gen_sessions, run_sessions, lambda tier: "all histories of 2-%d sessions over 5 sequences of puts, by one sink or several" % (3 if tier == "quick" else 4), tmp=True),
    Space("directory sinks", gen_dir, run_dir,
          lambda tier: "all sequences of up to %d puts over 3 keys and 2 values, 3 over 4 keys, all single puts of 4 keys and "
          "10 values; text and binary; body returning or raising" % (4 if thorough(tier) else 2), tmp=True),
    Space("file maps", gen_map, run_map, "all mappings of up to 3 of 8 ids to 5 paths, written and read", tmp=True),
    Space("malformed maps", gen_bad, run_bad, "all sequences of up to 3 good and malformed lines", tmp=True),
    Space("sources", gen_src, run_src, "all assignments of 7 contents to up to 3 ids, text and binary", tmp=True),
    Space("awkward entries", gen_awkward, run_awkward, "entries the index or the text layer cannot carry", tmp=True),
]

SPACES += many.BY_CHECK["C13"]
