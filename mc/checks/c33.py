"""C33 list, map, line-set and pickle files are read entry for entry."""
import io
import itertools
import json
import os
import pickle
import sys
from pathlib import Path

from mc.core import Space, thorough, seqs, deep_same
from mc import many

# --- lists of paths -------------------------------------------------------------------
LINES = ("a", "b/c.txt", "/abs/d", " e f ", "\tg", "", "   ", "# comment", "  #indented", "h#i", "h #i", "$HOME/~x", "\u00e9\u4e2d", "../up", "./here", "a", ".", "'quoted'", "x\ty", "//c", ";d", "%e", "!f", "a,b", "a:b")
RESOLVE = (None, "base", "/base/deep", ".", "with space")
ENDINGS = ("\n", "none", "\r\n", "\n\n")


def text_of(lines, ending):
    if ending == "none":
        return "\n".join(lines)
    if ending == "\n\n":
        return "".join(x + "\n\n" for x in lines)
    return "".join(x + ending for x in lines)


def resolved(path, base):
    return Path(path) if base is None else Path(os.path.join(base, path))


def gen_lists(tier):
    for lines in seqs(LINES, 0, 2):
        for r in RESOLVE:
            for e in ENDINGS:
                yield (lines, r, e, "file")
        for r in RESOLVE:
            yield (lines, r, "", "list")
    for lines in seqs(("a", "/b", "", "#c", " d") if not thorough(tier) else LINES[:12], 3, 3):
        for r in RESOLVE[:3]:
            for e in ENDINGS[:2]:
                yield (lines, r, e, "file")
    for lines in itertools.permutations(("m", "k", "z", "a", "m")):
        yield (lines, "base", "\n", "file")


def run_lists(case, t):
    from vistautils.parameters import ParameterError, Parameters

    lines, r, ending, how = case
    t.state(case)
    kw = {} if r is None else {"resolve_relative_to": Path(r)}
    if how == "list":
        if any(not x.strip() for x in lines):
            return  # blank entries of a list given directly are not settled
        p = Parameters.from_mapping({"n": {"paths": list(lines)}})
        want = tuple(resolved(x.strip(), r) for x in lines)
    else:
        with open("list", "w", encoding="utf-8", newline="") as f:
            f.write(text_of(lines, ending))
        p = Parameters.from_mapping({"n": {"paths": "list"}})
        want = tuple(resolved(x.strip(), r) for x in lines if x.strip() and not x.strip().startswith("#"))
    for k in (kw, {**kw, "log_name": "thing"}):
        w = f"the paths in the {how} {lines} ended by {ending!r}, resolved relative to {r}"
        got = t.call(lambda: p.path_list_from_file("n.paths", **k), w)
        t.true(list(got) == list(want) and all(isinstance(x, Path) for x in got), f"{w}: {got!r}, not {want!r}")
    t.raises(ParameterError, lambda: p.path_list_from_file("n.absent"), "the paths of an absent parameter")
    t.outcome(f"{len(want)} paths")


# --- maps of paths ----------------------------------------------------------------------
MAP_LINES = ("k1\ta", "k2\t/abs/b", "k 3\tc d", " k4 \t e ", "\u00e9\t\u4e2d", "k5\t../up", "#k6\tx", "a.b\t./y/z", "0\t0", "'q'\tq", "\"q\"\t\"r\"", "K1\t~/u")
BAD_LINES = ("", "no tab", "three\tfields\there", "a\tb\t", "\t\t", "   ", "# comment", "space only separator")


def gen_maps(tier):
    for lines in seqs(MAP_LINES, 0, 3 if thorough(tier) else 2):
        if len(set(x.split("\t")[0].strip() for x in lines)) < len(lines):
            continue
        for r in RESOLVE:
            for e in ("\n", "none", "\r\n"):
                yield (lines, r, e)
    for lines in itertools.permutations(MAP_LINES[:4] + MAP_LINES[-1:]):
        yield (lines, "base", "\n")
    for bad in BAD_LINES:
        for before in ((), MAP_LINES[:1], MAP_LINES[:2]):
            for after in ((), MAP_LINES[2:3]):
                for e in ("\n", "none"):
                    if bad == "" and e == "none" and not after:
                        continue
                    yield (before + (bad,) + after, None, e)


def run_maps(case, t):
    from vistautils.parameters import ParameterError, Parameters

    lines, r, ending = case
    t.state(case)
    with open("map", "w", encoding="utf-8", newline="") as f:
        f.write(text_of(lines, ending))
    p = Parameters.from_mapping({"map": "map", "dir": ".", "gone": "gone"})
    kw = {} if r is None else {"resolve_relative_to": Path(r)}
    w = f"the map of {lines} ended by {ending!r}, resolved relative to {r}"
    for k in (kw, {**kw, "log_name": "thing"}):
        if any(x in BAD_LINES for x in lines):
            t.raises(IOError, lambda: p.path_map_from_file("map", **k), w)
            continue
        want = {}
        for x in lines:
            a, b = x.split("\t")
            want[a.strip()] = resolved(b.strip(), r)
        got = t.call(lambda: p.path_map_from_file("map", **k), w)
        t.true(list(got.items()) == list(want.items()), f"{w}: {got!r}, not {want!r}")
        t.outcome(f"{len(want)} entries")
    for name in ("absent", "gone", "dir"):
        t.raises(ParameterError, lambda: p.path_map_from_file(name), f"the map in {name}")


# --- sets of lines -------------------------------------------------------------------------
def gen_line_sets(tier):
    words = ("a", "b", " a", "a ", "", "\u00e9", "#c", "x\ty", "\u2028", "A", "a\x0cb", "\ufeffa")
    for lines in seqs(words, 0, 4 if thorough(tier) else 3):
        for e in ("\n", "none"):
            yield (lines, e)
    for lines in itertools.permutations(("z", "y", "a", "m", "b")):
        yield (lines, "\n")


def run_line_sets(case, t):
    from vistautils.io_utils import file_lines_to_set

    lines, ending = case
    t.state(case)
    with open("lines", "w", encoding="utf-8", newline="") as f:
        f.write(text_of(lines, ending))
    got = t.call(lambda: file_lines_to_set(Path("lines")), "file_lines_to_set")
    want = list(dict.fromkeys(x for x in lines if x))
    t.eq(list(got), want, f"the lines of {case}")
    t.eq(len(got), len(want), f"the number of lines of {case}")
    for x in ("a", "b", "", "\u00e9", "nothing", "\n"):
        t.is_(x in got, x in want, f"{x!r} in the lines of {case}")


# --- pickles -----------------------------------------------------------------------------
PICKLED = (None, 0, "", "text\u00e9", b"\x00\xff", [], [1, [2, {"k": (3, None)}]], {"a": {"b": {1, 2}}}, 10 ** 40, 1.5, True, ("t",), "x" * 100000, "range", "path", "shared", "span")


def real(x):
    if x == "range":
        return range(3, 9)
    if x == "path":
        return Path("a/b")
    if x == "shared":
        a = [1]
        return [a, a, {"a": a}]
    if x == "span":
        from vistautils.span import Span

        return Span(3, 5)
    return x


def gen_pickles(tier):
    for i in range(len(PICKLED)):
        for proto in range(pickle.HIGHEST_PROTOCOL + 1):
            for more in (b"", b"trailing"):
                yield (i, proto, more)
    for bad in ("empty", "garbage", "directory", "gone", "absent", "number"):
        yield (bad,)


def run_pickles(case, t):
    from vistautils.parameters import ParameterError, Parameters

    t.state(case)
    if len(case) == 1:
        (bad,) = case
        Path("empty").write_bytes(b"")
        Path("garbage").write_bytes(b"\xff\xfe not a pickle")
        os.mkdir("directory")
        p = Parameters.from_mapping({"empty": "empty", "garbage": "garbage", "directory": "directory", "gone": "gone", "number": 5})
        t.raises(Exception if bad in ("empty", "garbage") else ParameterError, lambda: p.pickled_object_from_file(bad), f"the object in {bad}")
        return
    i, proto, more = case
    x = real(PICKLED[i])
    Path("o.pkl").write_bytes(pickle.dumps(x, protocol=proto) + more)
    p = Parameters.from_mapping({"n": {"o": "o.pkl"}})
    got = t.call(lambda: p.pickled_object_from_file("n.o"), f"the object pickled with protocol {proto}")
    t.true(got == x and type(got) is type(x), f"the object pickled with protocol {proto}: {got!r}")
    if PICKLED[i] == "shared":
        t.true(got[0] is got[1] and got[2]["a"] is got[0], "sharing in the object")


# --- text at offsets -----------------------------------------------------------------------
TEXT_ALPHABET = "a\n\r\u00e9\U0001F600 "


def gen_offsets(tier):
    for s in seqs(TEXT_ALPHABET, 1, 5 if thorough(tier) else 4):
        yield "".join(s)
    yield "line one\nline two\r\nline three\rend\u2028e\u0301\ufeff" * 3
    yield "\ufeffbom"


def printed(args):
    from vistautils.scripts import text_at_offsets

    saved = sys.argv, sys.stdout
    sys.argv, sys.stdout = ["text_at_offsets.py"] + [str(a) for a in args], io.StringIO()
    try:
        text_at_offsets.main()
        return sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdout = saved


def run_offsets(case, t):
    t.state(case)
    with open("text", "w", encoding="utf-8", newline="") as f:
        f.write(case)
    step = 1 if len(case) < 10 else 7
    for a in range(0, len(case), step):
        for b in range(a + 1, len(case) + 1, step):
            t.eq(t.call(lambda: printed(("text", a, b)), "text_at_offsets"), case[a:b] + "\n", f"text of {case!r} printed at {a} to {b}")
    for a, b in ((0, len(case) + 1), (len(case), len(case) + 1), (len(case), len(case)), (0, 0), (len(case) + 5, len(case) + 6)):
        got = t.call(lambda: printed(("text", a, b)), "text_at_offsets")
        t.true("out-of-bounds" in got, f"offsets {a} to {b} of {case!r}: {got!r}")


# --- files which are not text: refused, nothing is read as something else ---------------------
INVALID = (b"\xff", b"\xe9", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf8\x88\x80\x80\x80", b"\xff\xfea\x00")
TEXT_FILES = ("path list", "path map", "line set", "file map", "stores", "split", "store of a file map", "parameters", "parameters by name", "include")


def gen_invalid(tier):
    for what in TEXT_FILES:
        for inv in range(len(INVALID)):
            for at in range(6):
                yield (what, inv, at)


def run_invalid(case, t):
    import zipfile
    from vistautils.io_utils import CharSource, file_lines_to_set, read_doc_id_to_file_map
    from vistautils.key_value import byte_key_value_source_from_params
    from vistautils.parameters import Parameters, YAMLParametersLoader
    from vistautils.scripts import join_key_value_stores, split_key_value_store

    what, inv, at = case
    t.state(case)
    lines = {
        "path list": [b"one", b"two"], "path map": [b"one\tx", b"two\ty"], "line set": [b"one", b"two"], "file map": [b"one\tx", b"two\ty"],
        "stores": [b"# one", b"one.zip"], "split": [b"one", b"two"], "store of a file map": [b"one\tx", b"two\ty"],
    }.get(what, [b"a: one", b"b: two"])
    if at < 4:
        # at the beginning or the end of either line
        line = lines[at // 2]
        lines[at // 2] = INVALID[inv] + line if at % 2 == 0 else line + INVALID[inv]
        data = b"\n".join(lines) + b"\n"
    else:
        # in a comment, as it were, or far behind
        data = b"\n".join(lines) + b"\n" + (b"# " if at == 4 else b"#\n" * 5000 + b"# ") + INVALID[inv] + b"\n"
    Path("file").write_bytes(data)
    for n in ("one", "two", "x", "y"):
        Path(n).write_bytes(b"v")
    with zipfile.ZipFile("one.zip", "w") as z:
        z.writestr("one", "1")
        z.writestr("two", "2")
        z.writestr("__keys", "one\ntwo")
    p = lambda d: Parameters.from_mapping(d)  # noqa
    given = {"type": "zip", "path": "one.zip"}
    read = {
        "path list": lambda: p({"f": "file"}).path_list_from_file("f"),
        "path map": lambda: p({"f": "file"}).path_map_from_file("f"),
        "line set": lambda: file_lines_to_set(Path("file")),
        "file map": lambda: read_doc_id_to_file_map(CharSource.from_file("file")),
        "stores": lambda: join_key_value_stores.main(p({"input_store_list_file": "file", "output": {"type": "zip", "path": "out.zip"}})),
        "split": lambda: split_key_value_store.main(p({"input": given, "explicit_split": {"s": {"keys_file": "file", "output_file": "out.zip"}}})),
        "store of a file map": lambda: dict(byte_key_value_source_from_params(p({"input": {"type": "file-map", "path": "file"}})).items()),
        "parameters": lambda: YAMLParametersLoader().load(Path("file")),
        "parameters by name": lambda: YAMLParametersLoader().load("file"),
        "include": lambda: (Path("main").write_text("_includes: [file]"), YAMLParametersLoader().load("main")),
    }[what]
    t.raises(Exception, read, f"reading {what} from {data[:60]!r}{'...' if len(data) > 60 else ''}")
    t.outcome(what)


SPACES = [
    Space("not text", gen_invalid, run_invalid, "%d kinds of files with each of %d byte sequences which are not UTF-8, in 6 places" % (len(TEXT_FILES), len(INVALID)), tmp=True),
    Space("path lists", gen_lists, run_lists, "all lists of up to 2 of %d lines, 3 of 5 (thorough 12), x 5 directories x 4 line endings, from files and given directly" % len(LINES), tmp=True),
    Space("path maps", gen_maps, run_maps, "all maps of up to 2 (thorough 3) of %d lines x 5 directories x 3 line endings, %d malformed lines" % (len(MAP_LINES), len(BAD_LINES)), tmp=True),
    Space("line sets", gen_line_sets, run_line_sets, "all files of up to 3 (thorough 4) of 11 lines", tmp=True),
    Space("pickles", gen_pickles, run_pickles, "%d objects x all protocols, unreadable files" % len(PICKLED), tmp=True),
    Space("offsets", gen_offsets, run_offsets, "all texts of up to 4 (thorough 5) of 6 characters x all pairs of offsets", tmp=True),
]

SPACES += many.BY_CHECK["C33"]
