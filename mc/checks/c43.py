"""C43 files in the documented formats, exchanged with programs which are not vistautils.

Everything vistautils writes is read here with the modules of the format alone (zipfile, PyYAML, plain
files), everything it reads is written with them alone: a writer and a reader which depart from the
format together are not seen by checks which let one undo the other.
"""
import bz2  # noqa: F401  (the compressions of zip files)
import gzip
import io
import itertools
import lzma  # noqa: F401
import os
import struct
import tarfile
import zipfile
from pathlib import Path

from mc.core import Space, thorough, seqs, subsets
from mc.checks.c11 import CONFIGS, enc, make_sink, make_source, read_back
from mc.checks.c18 import convert, read_zip

TEXTS = ("", "v", "\u00e9\n\r\n\t\u4e2d", "x" * 3000 + "\r")
KEYS = ("a", "\u00fc/x y", "B.txt")


def unified(text):
    """Line ends are compared elsewhere (C19)."""
    return text.replace("\r\n", "\n").replace("\r", "\n")


# --- stores written by vistautils ------------------------------------------------------------

def gen_written(tier):
    for kind in ("char", "bytes"):
        for config in ("plain", "prefixed", "mangled"):
            for vals in itertools.product((None,) + tuple(range(len(TEXTS))), repeat=len(KEYS)):
                n = sum(v is not None for v in vals)
                if not thorough(tier) and config != "plain" and len(set(vals)) > 2:
                    continue
                for cut in range(n + 1):
                    for more in (0, 1) if cut in (0, n) else (0,):
                        yield (kind, config, vals, cut, more)


def run_written(case, t):
    kind, config, vals, cut, more = case
    t.state(case)
    path = Path(t.dir) / "out.zip"
    entries = [(k, TEXTS[v]) for k, v in zip(KEYS, vals) if v is not None]
    # a first session, a second one which adds, and perhaps one which adds nothing
    sessions = [entries[:cut], entries[cut:]] + [[]] * more
    for i, puts in enumerate(sessions):
        with t.call(lambda: make_sink(kind, path, config, overwrite=(i == 0)), "the sink") as s:
            for k, v in puts:
                t.call(lambda: s.put(k, enc(kind, v)), f"put {k!r}")
    check_zip(t, path, dict(entries), config, f"the {kind} store ({config}) written in sessions {sessions!r:.200}")
    t.outcome(f"{len(entries)} entries")


def check_zip(t, path, want, config, what):
    name = CONFIGS[config].get("filename_function", lambda k: k)
    with zipfile.ZipFile(path) as z:
        t.is_(z.testzip(), None, f"damaged entries of {what}")
        t.eq(set(z.namelist()), {name(k) for k in want} | {"__keys"}, f"the names in {what}")
        for k, v in want.items():
            v = v if isinstance(v, bytes) else v.encode("utf-8")
            t.eq(z.read(name(k)), v, f"the content of {name(k)!r} in {what}")
        listed = z.read("__keys").decode("utf-8")
        t.eq(sorted(listed.split("\n")) if want else listed, sorted(want) if want else "", f"the list of keys in {what}")


# --- stores written by other programs ---------------------------------------------------------

COMPRESSIONS = (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA)
WHERE = ("first", "middle", "last", "absent")
EXTRAS = ("comment", "unlisted", "directories", "prefix", "zip64", "fields", "streamed", "mixed")


class Unseekable(io.RawIOBase):
    """A pipe: zipfile writes sizes behind the data."""

    def __init__(self, f):
        self.f = f

    def writable(self):
        return True

    def write(self, b):
        return self.f.write(b)

    def flush(self):
        if not self.f.closed:
            self.f.flush()


def foreign_zip(path, entries, comp, where, extras, name=lambda k: k):
    """entries: [(key, bytes)], in this order"""
    items = [(name(k), v) for k, v in entries]
    keys = ("__keys", "\n".join(k for k, _ in entries).encode("utf-8"))
    at = {"first": 0, "middle": len(items) // 2, "last": len(items)}.get(where)
    if at is not None:
        items.insert(at, keys)
    if "directories" in extras:
        items.insert(0, ("d/", b""))
        items.append(("d/e/", b""))
    if "unlisted" in extras:
        items.insert(1, ("META-INF/MANIFEST.MF", b"unlisted"))
    raw = open(path, "wb")
    if "prefix" in extras:
        raw.write(b"#!/bin/sh\nexit 0\n")
    with raw, zipfile.ZipFile(Unseekable(raw) if "streamed" in extras else raw, "w", comp) as z:
        for i, (n, v) in enumerate(items):
            info = zipfile.ZipInfo(n, (1980 + i, 1, 1, 0, 0, 0))
            info.compress_type = COMPRESSIONS[(i + comp) % 4] if "mixed" in extras else comp
            info.external_attr = (0o40755 << 16) | 0x10 if n.endswith("/") else 0o100600 << 16
            info.create_system = i % 4
            if "fields" in extras:
                info.extra = struct.pack("<HH", 0xCA00 + i, 4) + b"abcd"
                info.comment = b"an entry"
            if "zip64" in extras:
                with z.open(info, "w", force_zip64=True) as out:
                    out.write(v)
            else:
                z.writestr(info, v)
        if "comment" in extras:
            z.comment = b"made by another program " * 3


FOREIGN = (("a", TEXTS[1]), ("\u00fc/x y", TEXTS[2]), ("d/B.txt", ""), ("z", TEXTS[3]))


def gen_foreign(tier):
    combos = list(subsets(EXTRAS, 0, None if thorough(tier) else 2)) + [EXTRAS]
    for kind in ("char", "bytes"):
        for extras in combos:
            for comp in range(4):
                for where in WHERE:
                    for n in (0, 1, 4) if len(extras) < 2 else (4,):
                        for config in ("plain", "prefixed"):
                            if config == "prefixed" and len(extras) > 1 and not thorough(tier):
                                continue
                            yield (kind, config, extras, comp, where, n)


def run_foreign(case, t):
    from vistautils.io_utils import ByteSource, CharSource

    kind, config, extras, comp, where, n = case
    t.state(case)
    path = Path(t.dir) / "foreign.zip"
    entries = FOREIGN[:n]
    name = CONFIGS[config].get("filename_function", lambda k: k)
    foreign_zip(path, [(k, v.encode("utf-8")) for k, v in entries], COMPRESSIONS[comp], where, extras, name)
    want = {k: enc(kind, v) for k, v in entries}
    w = f"a zip file with {n} entries, compression {COMPRESSIONS[comp]}, list of keys {where}, {' '.join(extras)} ({config})"
    # each entry on its own
    for k, v in entries:
        t.eq(ByteSource.from_file_in_zip(path, name(k)).read(), v.encode("utf-8"), f"bytes of {k!r} in {w}")
        t.eq(unified(CharSource.from_file_in_zip(path, name(k)).read_all()), unified(v), f"text of {k!r} in {w}")
        with zipfile.ZipFile(path) as z:
            t.eq(unified(CharSource.from_file_in_zip(z, name(k)).read_all()), unified(v), f"text of {k!r} in the opened {w}")
    # as a store
    with t.call(lambda: make_source(kind, path, config), f"opening {w}") as src:
        if where == "absent":
            t.is_(src.keys(), None, f"keys() of {w}")
            for k, v in want.items():
                t.same(src[k], v, f"[{k!r}] of {w}")
                t.same(src.get(k), v, f"get({k!r}) of {w}")
            t.raises(KeyError, lambda: src["missing"], f"a missing key of {w}")
            t.is_(src.get("missing"), None, f"get of a missing key of {w}")
        else:
            read_back(t, src, want, ("missing", "A"), kind, w)
            got = list(t.call(lambda: src.items(), f"items of {w}"))
            t.eq((len(got), dict(got)), (len(want), want), f"items() of {w}")
    if where == "absent":
        t.outcome("without keys")
        return
    # more is added by vistautils, and read by neither
    if "prefix" not in extras:
        with t.call(lambda: make_sink(kind, path, config, overwrite=False), f"adding to {w}") as s:
            s.put("new", enc(kind, "\u00e9"))
            for k in want:
                t.raises(ValueError, lambda: s.put(k, enc(kind, "other")), f"a key of {w} put again")
        with zipfile.ZipFile(path) as z:
            t.eq({k: z.read(name(k)) for k in (*want, "new")}, {k: v.encode("utf-8") for k, v in (*entries, ("new", "\u00e9"))},
                 f"entries after adding to {w}")
            t.eq(sorted(z.read("__keys").decode("utf-8").split("\n")), sorted((*want, "new")), f"keys after adding to {w}")
        with make_source(kind, path, config) as src:
            read_back(t, src, dict(want, new=enc(kind, "\u00e9")), ("missing",), kind, f"what was added to {w}")
    t.outcome(f"{n} entries")


# --- the scripts, over stores of other programs ------------------------------------------------

def gen_scripts(tier):
    for script in ("split", "explicit", "join", "downsample"):
        for comp in range(4):
            for where in WHERE:
                for extras in [()] + [(e,) for e in EXTRAS] + ([EXTRAS] if thorough(tier) else []):
                    yield (script, comp, where, extras)


def run_scripts(case, t):
    from vistautils.parameters import Parameters
    from vistautils.scripts import downsample_key_value_store, join_key_value_stores, split_key_value_store

    script, comp, where, extras = case
    t.state(case)
    d = Path(t.dir)
    entries = [(k, v.encode("utf-8") + bytes(range(256))) for k, v in FOREIGN]
    want = dict(entries)
    foreign_zip(d / "in.zip", entries, COMPRESSIONS[comp], where, extras)
    w = f"{script} of a zip file, compression {COMPRESSIONS[comp]}, list of keys {where}, {' '.join(extras)}"
    given = {"type": "zip", "path": str(d / "in.zip")}
    if where == "absent":
        # what cannot be listed is not taken for nothing
        t.raises(Exception, lambda: scripts_on(script, given, d), w)
        t.outcome("refused")
        return
    if script in ("split", "explicit"):
        (d / "out").mkdir()
        if script == "split":
            t.call(lambda: split_key_value_store.main(Parameters.from_mapping({"input": given, "output_dir": str(d / "out"), "num_slices": 2})), w)
            listed = (d / "out" / "_slices.txt").read_bytes().decode("utf-8").split("\n")
            t.eq(listed[:-1].count(""), 0, f"blank lines in the list of slices, {w}")
            stores = [Path(p) for p in listed if p]
            t.eq(len(stores), 2, f"slices listed, {w}")
        else:
            # both kinds of line ends, with and without a last one
            (d / "one").write_bytes("a\n\u00fc/x y\n".encode("utf-8"))
            (d / "two").write_bytes(b"d/B.txt\r\nz")
            stores = [d / "one.zip", d / "two.zip"]
            parts = {n: {"keys_file": str(d / n), "output_file": str(d / f"{n}.zip")} for n in ("one", "two")}
            t.call(lambda: split_key_value_store.main(Parameters.from_mapping({"input": given, "explicit_split": parts})), w)
            t.eq([set(plain_store(t, p, w)) for p in stores], [{"a", "\u00fc/x y"}, {"d/B.txt", "z"}], f"keys of the parts, {w}")
        got = {}
        for p in stores:
            part = plain_store(t, p, f"{p.name}, {w}")
            t.false(set(part) & set(got), f"keys in two parts, {w}")
            got.update(part)
    elif script == "join":
        foreign_zip(d / "in2.zip", [("other", b"o")], COMPRESSIONS[(comp + 1) % 4], "first", ())
        (d / "list").write_bytes(f"{d}/in.zip\r\n\r\n# a comment\r\n{d}/in2.zip".encode("utf-8"))
        t.call(lambda: join_key_value_stores.main(Parameters.from_mapping(
            {"input_store_list_file": str(d / "list"), "output": {"type": "zip", "path": str(d / "out.zip")}})), w)
        want["other"] = b"o"
        got = plain_store(t, d / "out.zip", w)
    else:
        t.call(lambda: downsample_key_value_store.main(Parameters.from_mapping(
            {"input": given, "num_to_sample": 9, "output_zip_path": str(d / "out.zip")})), w)
        got = plain_store(t, d / "out.zip", w)
    t.eq(got, want, f"the result of {w}")
    t.outcome(script)


def scripts_on(script, given, d):
    from vistautils.parameters import Parameters
    from vistautils.scripts import downsample_key_value_store, join_key_value_stores, split_key_value_store

    out = str(d / "out.zip")
    (d / "list").write_text(given["path"])
    (d / "keys").write_text("a", encoding="utf-8")
    main, params = {
        "split": (split_key_value_store.main, {"input": given, "output_dir": str(d / "out"), "num_slices": 2}),
        "explicit": (split_key_value_store.main, {"input": given, "explicit_split": {"one": {"keys_file": str(d / "keys"), "output_file": out}}}),
        "join": (join_key_value_stores.main, {"input_store_list_file": str(d / "list"), "output": {"type": "zip", "path": out}}),
        "downsample": (downsample_key_value_store.main, {"input": given, "num_to_sample": 1, "output_zip_path": out}),
    }[script]
    main(Parameters.from_mapping(params))


def plain_store(t, path, what):
    with zipfile.ZipFile(path) as z:
        t.is_(z.testzip(), None, f"damaged entries of {what}")
        text = z.read("__keys").decode("utf-8")
        keys = text.split("\n") if text else []
        t.eq(len(set(keys)), len(keys), f"keys listed in {what}")
        t.eq(set(z.namelist()), set(keys) | {"__keys"}, f"names in {what}")
        return {k: z.read(k) for k in keys}


# --- gzip files ---------------------------------------------------------------------------------

MEMBER_TEXTS = ("", "one\n", "\u00e9", "two\r\nthree", "y" * 70000)


def gen_gzip(tier):
    for members in seqs(range(len(MEMBER_TEXTS)), 1, 3 if thorough(tier) else 2):
        for level in (0, 1, 9):
            for header in ("plain", "name", "all"):
                for pad in (0, 1, 512):
                    for encoding in ("utf-8", "utf-16-le"):
                        yield (members, level, header, pad, encoding)


def gzip_member(data, level, header):
    if header == "plain":
        return gzip.compress(data, level, mtime=0)
    out = io.BytesIO()
    with gzip.GzipFile("name.txt" if header == "name" else "", "wb", level, out, mtime=12345) as z:
        z.write(data)
    b = out.getvalue()
    if header == "all":
        # FEXTRA, FNAME and FCOMMENT
        b = b[:3] + bytes([4 | 8 | 16]) + b[4:10] + struct.pack("<H", 6) + b"AB\x02\x00xy" + b"n\xe4me\x00" + b"comment\x00" + b[10:]
    return b


def run_gzip(case, t):
    from vistautils.io_utils import CharSource

    members, level, header, pad, encoding = case
    t.state(case)
    text = "".join(MEMBER_TEXTS[i] for i in members)
    path = Path(t.dir) / "x.gz"
    path.write_bytes(b"".join(gzip_member(MEMBER_TEXTS[i].encode(encoding), level, header) for i in members) + bytes(pad))
    w = f"a gzip file of members {members}, level {level}, header {header}, {pad} zero bytes at the end, {encoding}"
    src = CharSource.from_gzipped_file(path, encoding)
    t.eq(unified(t.call(src.read_all, w)), unified(text), f"text of {w}")
    t.outcome(f"{len(members)} members")


# --- tar archives -------------------------------------------------------------------------------

TAR_FORMATS = (tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT, tarfile.PAX_FORMAT)
LONG = "long/" * 18 + "b" * 90
TAR_NAMES = ("a.txt", "./b", "d/e f", "\u00fc.txt", LONG, "n" * 100, "n" * 99, "p" * 120 + "/" + "m" * 99, "u/" * 60 + "\u4e2d" * 60)
TAR_TEXTS = ("alpha\n", "", "\u00e9" * 300, "x" * 512, "x" * 10240)
TAR_HOW = ("tar", "gz", "gz of two members", "gz, zeros", "short")


def gen_tar(tier):
    for fmt in range(3):
        for names in itertools.permutations(range(len(TAR_NAMES)), 2):
            for how in TAR_HOW:
                for types in itertools.product("01c", repeat=2) if thorough(tier) else ("00", "0c"):
                    yield (fmt, names, how, "".join(types))


def run_tar(case, t):
    from vistautils.io_utils import CharSource
    from vistautils.key_value import KeyValueLinearSource

    fmt, names, how, types = case
    t.state(case)
    names = [TAR_NAMES[i] for i in names]
    raw = io.BytesIO()
    want = {}
    try:
        with tarfile.open(fileobj=raw, mode="w", format=TAR_FORMATS[fmt], encoding="utf-8") as tar:
            dir_info = tarfile.TarInfo("d")
            dir_info.type, dir_info.mode = tarfile.DIRTYPE, 0o755
            tar.addfile(dir_info)
            for i, (n, typ) in enumerate(zip(names, types)):
                data = TAR_TEXTS[(i + len(n)) % len(TAR_TEXTS)].encode("utf-8")
                info = tarfile.TarInfo(n)
                info.size, info.uid, info.gid, info.uname = len(data), 12345, 8 ** 7 - 1, "\u00fcser"
                # regular files have three type letters
                info.type = {"0": tarfile.REGTYPE, "1": tarfile.AREGTYPE, "c": tarfile.CONTTYPE}[typ]
                info.mtime = 1_600_000_000.5 if TAR_FORMATS[fmt] == tarfile.PAX_FORMAT else 1_600_000_000
                tar.addfile(info, io.BytesIO(data))
                want[n] = data
    except ValueError:
        t.outcome("the format has no such names")
        return
    data = raw.getvalue()
    if how == "short":
        data = data.rstrip(b"\0")
        data += bytes(-len(data) % 512) + bytes(1024)
    gz = how.startswith("gz")
    if how == "gz of two members":
        data = gzip.compress(data[:700]) + gzip.compress(data[700:])
    elif gz:
        data = gzip.compress(data) + bytes(512 if "zeros" in how else 0)
    path = Path(t.dir) / ("x.tgz" if gz else "x.tar")
    path.write_bytes(data)
    w = f"a tar archive ({('ustar', 'gnu', 'pax')[fmt]}, {how}, types {types}) of {[n[:12] + '..' + str(len(n)) for n in names]}"
    with t.call(lambda: KeyValueLinearSource.byte_linear_source_from_tar_gz(path), w) as src:
        t.eq(list(src.items()), list(want.items()), f"entries of {w}")
    with t.call(lambda: KeyValueLinearSource.str_linear_source_from_tar_gz(path), w) as src:
        t.eq(list(src.items()), [(k, v.decode("utf-8")) for k, v in want.items()], f"texts of {w}")
    if gz:
        for n, v in want.items():
            t.eq(t.call(CharSource.from_file_in_tgz(path, n).read_all, f"reading {n[:12]} from {w}"), v.decode("utf-8"), f"{n[:12]} of {w}")
    (Path(t.dir) / "work").mkdir()
    os.chdir(Path(t.dir) / "work")
    if all(len(part.encode("utf-8")) < 250 for n in names for part in n.split("/")):
        convert(t, [str(path)], w)
        t.eq(read_zip(t, str(Path(t.dir) / "x.zip"), w), want, f"the result of converting {w}")
    t.outcome(how)


# --- parameter files in the notations of YAML -----------------------------------------------------

TREE = {"a": {"b": 1, "c": "x"}, "l": ["p", "q r"]}
NOTATIONS = (
    ("a:\n  b: 1\n  c: x\nl:\n- p\n- q r\n", TREE),
    ("a:\n    b: 1\n    c: x\nl:\n    -   p\n    -   q r\n", TREE),
    ("a: {b: 1, c: x}\nl: [p, q r]\n", TREE),
    ("{a: {b: 1, c: x}, l: [p, q r]}", TREE),
    ('{"a": {"b": 1, "c": "x"}, "l": ["p", "q r"]}', TREE),
    ('{\n  "a": {\n    "b": 1,\n    "c": "x"\n  },\n  "l": [\n    "p",\n    "q r"\n  ]\n}\n', TREE),
    ("'a':\n  \"b\": 1\n  'c': \"x\"\n\"l\":\n- 'p'\n- \"q\\x20r\"\n", TREE),
    ("? a\n: ? b\n  : 1\n  ? c\n  : x\n? l\n: - p\n  - q r\n", TREE),
    ("---\na:\n  b: 1\n  c: x\nl: [p, q r]\n...\n", TREE),
    ("%YAML 1.1\n---\na: {b: 1, c: x}\nl: [p, q r]\n", TREE),
    ("# first\na: # the a\n  # inside\n  b: 1 # one\n\n  c: x\n\n\nl: [p, # p\n  q r]\n# last", TREE),
    ("a: &a\n  b: 1\n  c: x\nl: [p, q r]\nz: *a\n", dict(TREE, z=TREE["a"])),
    ("a: &a {b: 1, c: x}\nl: &l [p, q r]\nz:\n  <<: *a\n  c: y\n  m: *l\n", dict(TREE, z={"b": 1, "c": "y", "m": ["p", "q r"]})),
    ("a: !!map {b: !!int '1', c: !!str x}\nl: !!seq [p, q r]\n", TREE),
    ("a:\n  b: 0x1\n  c: |-\n    x\nl:\n- >-\n  p\n- >-\n  q\n  r\n", TREE),
    ("a: {b: +1, c: 'x'}\nl: [p,\n  q\n  r]\n", TREE),
    ("? 'a'\n: {b: 1, c: x}\nl:\n - p\n - q r\n", TREE),
)
SCALARS = (
    ("1", 1), ("-17", -17), ("0b11", 3), ("017", 15), ("0x1F", 31), ("1_000", 1000), ("190:20:30", 685230), ("+5", 5),
    ("1.5", 1.5), ("1e3", "1e3"), ("1.0e+3", 1000.0), (".inf", float("inf")), ("-.inf", float("-inf")), ("6.", 6.0),
    ("true", True), ("True", True), ("yes", True), ("on", True), ("no", False), ("OFF", False), ("false", False),
    ("'true'", "true"), ("\"1\"", "1"), ("'1.5'", "1.5"), ("y", "y"), ("n", "n"), ("1.2.3", "1.2.3"), ("0o17", "0o17"), ("08", "08"),
    ("a b", "a b"), ("'a: b'", "a: b"), ("a#b", "a#b"), ("a #b", "a"), ("'it''s'", "it's"), ("\"\\u00e9\\n\\t\\\\\"", "\u00e9\n\t\\"),
    ("\u00e9\u4e2d", "\u00e9\u4e2d"), ("/x/y", "/x/y"), ("C:\\x", "C:\\x"), ("-x", "-x"), (":x", ":x"), ("''", ""), ("'~'", "~"), ("'null'", "null"),
    ("|\n    one\n    two\n", "one\ntwo\n"), ("|-\n    one\n    two\n", "one\ntwo"), ("|+\n    one\n\n", "one\n\n"),
    (">\n    one\n    two\n\n    three\n", "one two\nthree\n"), ("one\n    two", "one two"), ("\"one\\\n    \\ two\"", "one two"),
    ("\"a\tb\"", "a\tb"), ("|\n    a\tb \n\n    # kept\n      more\n", "a\tb \n\n# kept\n  more\n"), (">-\n    # kept\n    a\t\n", "# kept a\t"), ("'one\n\n    two'", "one\ntwo"),
    ("|\n    ---\n    ...\n    %x\n    {a: b}\n    - c\n", "---\n...\n%x\n{a: b}\n- c\n"), ("\"\\x41\\u00e9\\0\\e\\_\"", "A\u00e9\0\x1b\xa0"), ("'\u2028'", "\u2028"),
    ("!!str 5", "5"), ("!!float 5", 5.0), ("[]", []), ("[1, two, 3.0, true]", [1, "two", 3.0, True]), ("[[1], [2, []]]", [[1], [2, []]]),
    ("10_0.5", 100.5), ("12345678901234567890", 12345678901234567890), ("\"\\U0001F600\"", "\U0001f600"),
)
FORMS = ("as is", "crlf", "no newline", "bom", "blank lines", "comment")
SOURCES = ("file", "str file", "string", "include", "include twice")


def formed(text, form):
    if form == "crlf":
        return text.replace("\n", "\r\n")
    if form == "no newline":
        return text.rstrip("\n")
    if form == "bom":
        return "\ufeff" + text
    if form == "blank lines":
        return ("\n\n" if not text.startswith("%") else "") + text
    if form == "comment":
        return "# \u00fc\n" + text if not text.startswith("%") else text
    return text


def load(t, text, how, what):
    """(the parameters, what the document's own parameters are called in them)"""
    from vistautils.parameters import YAMLParametersLoader

    d = Path(t.dir)
    loader = YAMLParametersLoader(interpolate_environmental_variables=False)
    f = d / "x.params"
    if how != "string":
        f.write_bytes(text.encode("utf-8"))
    if how == "file":
        return t.call(lambda: loader.load(f), what)
    if how == "str file":
        return t.call(lambda: loader.load(str(f)), what)
    if how == "string":
        return t.call(lambda: loader.load_string(text), what)
    (d / "top").write_bytes(b"_includes: [x.params]\n" if how == "include" else b'{"_includes": ["x.params",\n "./x.params"]}')
    return t.call(lambda: loader.load(d / "top"), what)


def gen_yaml(tier):
    for i in range(len(NOTATIONS)):
        for form in FORMS:
            for how in SOURCES:
                yield (i, form, how)


def run_yaml(case, t):
    i, form, how = case
    t.state(case)
    text, want = NOTATIONS[i]
    text = formed(text, form)
    w = f"the parameters {text!r} ({how})"
    p = load(t, text, how, w)
    t.deep(plain(p.as_nested_dicts()), want, w)
    t.same(p.integer("a.b"), 1, f"a.b of {w}")
    t.same(p.string("a.c"), "x", f"a.c of {w}")
    t.eq(list(p.arbitrary_list("l")), ["p", "q r"], f"l of {w}")
    t.outcome(form)


def plain(x):
    """Parameters and lists as dictionaries and lists in a set order."""
    if isinstance(x, dict):
        return {k: plain(x[k]) for k in sorted(x)}
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in x]
    return x


def gen_scalars(tier):
    shapes = ("{k}: {v}\n", "o:\n  {k}: {v}\n", "z: 1\n\n{k}: {v}\nzz: 2\n")
    for i in range(len(SCALARS)):
        for shape in range(len(shapes)):
            for form in ("as is", "crlf", "bom", "comment"):
                for how in SOURCES if thorough(tier) or form == "as is" else ("file", "string"):
                    yield (i, shape, form, how)


def run_scalars(case, t):
    i, shape, form, how = case
    t.state(case)
    value, want = SCALARS[i]
    if not value.endswith("\n"):
        value += "\n"
    text = ("", "o:\n  ", "z: 1\n\n")[shape] + "k: " + value + ("", "", "zz: 2\n")[shape]
    expected = ({"k": want}, {"o": {"k": want}}, {"z": 1, "k": want, "zz": 2})[shape]
    text = formed(text, form)
    w = f"the parameters {text!r} ({how})"
    t.deep(plain(load(t, text, how, w).as_nested_dicts()), plain(expected), w)
    t.outcome(type(want).__name__)


# --- aliases and merges are values like any other ----------------------------------------------

def gen_alias(tier):
    for where in itertools.product(("alias", "merge", "copy"), repeat=2):
        for ref in ("plain", "%up%", "%a.b%"):
            for how in SOURCES:
                yield (where, ref, how)


def run_alias(case, t):
    where, ref, how = case
    t.state(case)
    text = f"up: over\na: &a\n  b: one\n  c: '{ref}'\n"
    c = {"plain": "plain", "%up%": "over", "%a.b%": "one"}[ref]
    want = {"up": "over", "a": {"b": "one", "c": c}}
    for i, kind in enumerate(where):
        text += {"alias": f"x{i}: *a\n", "merge": f"x{i}:\n  <<: *a\n  d: '%up%'\n", "copy": f"x{i}:\n  b: one\n  c: '{ref}'\n"}[kind]
        want[f"x{i}"] = {"b": "one", "c": c, **({"d": "over"} if kind == "merge" else {})}
    w = f"the parameters {text!r} ({how})"
    t.deep(plain(load(t, text, how, w).as_nested_dicts()), plain(want), w)
    t.outcome(" ".join(where))


# --- parameter files written by vistautils -----------------------------------------------------

WRITTEN = (
    "plain", "", " padded ", "true", "1", "1.5", "null", "~", "a: b", "- x", "#no", "x #y", "%", "@x", "`x", "*a", "&a", "!a", "|", ">", "{", "[", "]", ",",
    "one\ntwo\n", "\u00e9\u4e2d\U0001f600", "\x85\u2028", "\ttab", "it's \"q\"", "x" * 200, "word " * 50, "=", "<<", "2020-01-02", "0x1F", "1_000", "yes", ".inf", "1e3",
    1, -1, 10 ** 20, 0, True, False, 1.5, -0.0, 1e300, 1e-7, float("inf"), (), (1, "two", False), ((), (1, (2,))),
)


def gen_out(tier):
    n = len(WRITTEN)
    for i in range(n):
        for shape in range(4):
            for as_key in (False, True):
                yield ((i,), shape, as_key)
    for i, j in itertools.product(range(n), repeat=2):
        yield ((i, j), 0 if not thorough(tier) else (i + j) % 4, False)


def run_out(case, t):
    import yaml
    from vistautils.io_utils import CharSink
    from vistautils.parameters import Parameters, YAMLParametersWriter

    which, shape, as_key = case
    t.state(case)
    vals = [WRITTEN[i] for i in which]
    if as_key and not (isinstance(vals[0], str) and "." not in vals[0]):
        return
    d = {vals[0]: "v"} if as_key else {f"k{i}": v for i, v in enumerate(vals)}
    d = (d, {"o": d}, {"o": {"p": d, "q": 1}}, {"z": "last", "o": dict(d, n={})})[shape]
    w = f"the parameters written for {d!r:.150}"
    params = Parameters.from_mapping(d)
    f = Path(t.dir) / "out.params"
    t.call(lambda: YAMLParametersWriter().write(params, f), w)
    t.deep(plain(yaml.safe_load(f.read_bytes())), plain(d), f"{w}, as another program reads them")
    s = CharSink.to_string()
    t.call(lambda: YAMLParametersWriter().write(params, s), w)
    t.deep(plain(yaml.safe_load(s.last_string_written)), plain(d), f"{w} to a string")
    t.outcome(f"shape {shape}")


# --- maps, lists and directories ---------------------------------------------------------------

MAP_KEYS = ("a", "\u00fc b", "C.d", "z/1")
LINE_ENDS = ("\n", "\r\n")


def gen_maps(tier):
    for keys in itertools.permutations(range(len(MAP_KEYS)), 3):
        for end in range(2):
            for final in (True, False):
                for relative in (False, True):
                    yield ("read", keys, end, final, relative)
    for keys in subsets(range(len(MAP_KEYS))):
        for order in itertools.permutations(keys):
            for relative in (False, True):
                yield ("written", order, relative)
                yield ("store", order, relative)
    for keys in subsets(range(3)):
        for kind in ("char", "bytes"):
            for vals in itertools.product(range(3), repeat=len(keys)):
                yield ("directory", keys, kind, vals)


def run_maps(case, t):
    from immutablecollections import immutabledict
    from vistautils.io_utils import CharSink, CharSource, file_lines_to_set, read_doc_id_to_file_map, write_doc_id_to_file_map
    from vistautils.key_value import KeyValueSource, byte_key_value_sink_from_params, byte_key_value_source_from_params, char_key_value_sink_from_params
    from vistautils.parameters import Parameters

    t.state(case)
    d = Path(t.dir)
    os.chdir(d)
    base = Path("files") if case[0] != "directory" and case[-1] else d / "files"
    (d / "files").mkdir()
    names = {k: f"{i} \u00e9.txt" for i, k in enumerate(MAP_KEYS)}
    for i, k in enumerate(MAP_KEYS):
        (d / "files" / names[k]).write_bytes((k + "\r\n").encode("utf-8"))
    if case[0] == "read":
        _, keys, end, final, _ = case
        keys = [MAP_KEYS[i] for i in keys]
        text = LINE_ENDS[end].join(f"{k}\t{base / names[k]}" for k in keys) + (LINE_ENDS[end] if final else "")
        (d / "map").write_bytes(text.encode("utf-8"))
        w = f"the map {text!r}"
        got = t.call(lambda: read_doc_id_to_file_map(CharSource.from_file(d / "map")), w)
        t.eq(dict(got), {k: base / names[k] for k in keys}, w)
        with KeyValueSource.binary_from_doc_id_to_file_map(CharSource.from_file(d / "map")) as src:
            t.eq({k: src[k] for k in keys}, {k: (k + "\r\n").encode("utf-8") for k in keys}, f"values of {w}")
            t.eq(set(src.keys()), set(keys), f"keys of {w}")
        with byte_key_value_source_from_params(Parameters.from_mapping({"input": {"type": "file-map", "path": str(d / "map")}})) as src:
            t.eq({k: src[k] for k in keys}, {k: (k + "\r\n").encode("utf-8") for k in keys}, f"values of {w}, from parameters")
        lines = file_lines_to_set(d / "map")
        t.eq(set(lines), {f"{k}\t{base / names[k]}" for k in keys}, f"lines of {w}")
    elif case[0] in ("written", "store"):
        keys = [MAP_KEYS[i] for i in case[1]]
        mapping = {k: base / names[k] for k in keys}
        expected = "".join(f"{k}\t{d}/files/{names[k]}\n" for k in sorted(keys)).encode("utf-8")
        w = f"the map written for {mapping!r}"
        if case[0] == "written":
            t.call(lambda: write_doc_id_to_file_map(mapping, CharSink.to_file(d / "map")), w)
            t.eq((d / "map").read_bytes(), expected, w)
            s = CharSink.to_string()
            t.call(lambda: write_doc_id_to_file_map(mapping, s), w)
            t.eq(s.last_string_written, expected.decode("utf-8"), f"{w} to a string")
        else:
            # what vistautils reads by the map, another program finds at the paths of the map
            with KeyValueSource.from_path_mapping(immutabledict(list(mapping.items()))) as src:
                t.eq({k: unified(src[k]) for k in keys}, {k: k + "\n" for k in keys}, f"values of {mapping!r}")
            t.call(lambda: write_doc_id_to_file_map(mapping, CharSink.to_file(d / "map")), w)
            lines = (d / "map").read_bytes().decode("utf-8").split("\n")[:-1]
            t.eq({x.split("\t")[0]: Path(x.split("\t")[1]).read_bytes() for x in lines}, {k: (k + "\r\n").encode("utf-8") for k in keys}, w)
    else:
        _, keys, kind, vals = case
        entries = {("a", "B.txt", "\u00fc x")[i]: TEXTS[v] for i, v in zip(keys, vals)}
        out = d / "out"
        out.mkdir()
        f = byte_key_value_sink_from_params if kind == "bytes" else char_key_value_sink_from_params
        w = f"the directory written for {entries!r}"
        with t.call(lambda: f(Parameters.from_mapping({"output": {"type": "directory", "path": str(out)}})), w) as sink:
            for k, v in entries.items():
                t.call(lambda: sink.put(k, enc(kind, v)), w)
        t.eq({n: (out / n).read_bytes() for n in sorted(os.listdir(out))},
             dict({k: v.encode("utf-8") for k, v in entries.items()},
                  _index="".join(f"{k}\t{out}/{k}\n" for k in sorted(entries)).encode("utf-8")), w)
    t.outcome(case[0])


SPACES = [
    Space("written stores", gen_written, run_written, "stores of up to 3 of 3 keys and 4 values, in 2-3 sessions, 3 naming functions; read with zipfile", tmp=True),
    Space("foreign stores", gen_foreign, run_foreign, lambda tier: "4 compressions, the list of keys in 4 places, %s 8 other features of zip files, up to 4 entries, 2 naming functions; written with zipfile" % ("up to 2 of" if tier == "quick" else "every subset of"), tmp=True),
    Space("scripts", gen_scripts, run_scripts, "4 scripts, 4 compressions, 4 places of the list of keys, 8 features of zip files", tmp=True),
    Space("gzip files", gen_gzip, run_gzip, lambda tier: "1-%d members of 5 texts, 3 levels, 3 headers, 3 paddings, 2 encodings" % (2 if tier == "quick" else 3), tmp=True),
    Space("tar archives", gen_tar, run_tar, lambda tier: "3 formats, all pairs of 9 names, 5 ways of packing, %d kinds of types of entries" % (2 if tier == "quick" else 9), tmp=True),
    Space("notations", gen_yaml, run_yaml, f"{len(NOTATIONS)} notations of parameters, 6 forms of files, 5 ways to load them", tmp=True),
    Space("scalars", gen_scalars, run_scalars, f"{len(SCALARS)} notations of values, 3 places, 4 forms of files, 5 ways to load them", tmp=True),
    Space("aliases", gen_alias, run_alias, "all pairs of aliases, merges and copies of a namespace, 3 values, 5 ways to load", tmp=True),
    Space("written parameters", gen_out, run_out, f"all pairs of {len(WRITTEN)} values, 4 shapes; read with PyYAML", tmp=True),
    Space("maps and directories", gen_maps, run_maps, "maps and directories of up to 4 keys, in every order, 2 line ends", tmp=True),
]
