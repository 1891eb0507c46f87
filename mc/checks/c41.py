"""C41 damaged or unreadable input is refused, never read as something else."""
import contextlib
import errno
import gzip
import io
import os
import pickle
import tarfile
import zipfile
from pathlib import Path

from mc.core import Space, thorough
from mc import faults, jobs
from mc.jobs import P, BYTES, argv, entries

TEXT = "first\nsecond \u00e9\n\nlast"
BIG = bytes((i * i * 7 + i // 3) % 251 for i in range(20000))


# --- archives -------------------------------------------------------------------------
def archive(kind, size):
    """(file name, content)"""
    big = BIG if size == "big" else b""
    items = [("a", TEXT.encode("utf-8")), ("b", BYTES[:20] + big), ("c", b"")]
    if kind == "zip text":
        items[1] = ("b", b"b" * 20 + bytes(33 + x % 90 for x in big))
    out = io.BytesIO()
    if kind.startswith("zip"):
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED if kind == "zip deflated" else zipfile.ZIP_STORED) as z:
            for k, v in items:
                z.writestr(zipfile.ZipInfo(k), v)
            z.writestr(zipfile.ZipInfo("__keys"), "a\nb\nc")
        return "s.zip", out.getvalue()
    if kind == "tar":
        with gzip.GzipFile("t", "wb", fileobj=out, mtime=0) as g:
            with tarfile.open(fileobj=g, mode="w") as t:
                for k, v in items:
                    info = tarfile.TarInfo(k)
                    info.size = len(v)
                    t.addfile(info, io.BytesIO(v))
        return "t.tar.gz", out.getvalue()
    with gzip.GzipFile("g", "wb", fileobj=out, mtime=0) as g:
        g.write(TEXT.encode("utf-8") + bytes(33 + x % 90 for x in big))
    return "g.gz", out.getvalue()


def _store(kind, how):
    def read(d):
        from vistautils.key_value import KeyValueSource

        make = KeyValueSource.zip_character_source if kind == "text" else KeyValueSource.zip_bytes_source
        with make(d / "s.zip") as s:
            keys = s.keys()
            if keys is None:
                raise LookupError("the store knows no keys")
            if how == "items":
                return dict(s.items())
            if how == "values":
                return {k: s[k] for k in keys}
            absent = object()
            out = {}
            for k in ("a", "b", "c"):
                v = s.get(k, absent)
                if v is absent:
                    with zipfile.ZipFile(d / "s.zip") as z:
                        if k not in z.namelist():
                            raise LookupError("the entry is not there")
                    v = "the default, though there is an entry of that name"
                out[k] = v
            return out

    return read


def _entry(kind):
    def read(d):
        from vistautils.io_utils import ByteSource, CharSource

        if kind == "bytes":
            return [ByteSource.from_file_in_zip(d / "s.zip", k).read() for k in "ab"]
        if kind == "text":
            return [CharSource.from_file_in_zip(d / "s.zip", "a").read_all(), CharSource.from_file_in_zip(d / "s.zip", "a").readlines()]
        with zipfile.ZipFile(d / "s.zip") as z:
            with ByteSource.from_file_in_zip(z, "b").open() as f:
                return f.read(7), f.read(), CharSource.from_file_in_zip(z, "a").read_all()

    return read


def _script(name, params, result):
    def read(d):
        import importlib

        importlib.import_module("vistautils.scripts." + name).main(P(params(d)))
        return result(d)

    return read


def _inp(d):
    return {"type": "zip", "path": str(d / "s.zip")}


def _slices(d):
    return [entries(d / "o" / f"{i}.zip") for i in (0, 1)]


def _explicit(d):
    (d / "k1").write_text("a\n")
    (d / "k2").write_text("b\nc\n")
    return {"input": _inp(d), "explicit_split": {n: {"keys_file": str(d / k), "output_file": str(d / (n + ".zip"))} for n, k in (("one", "k1"), ("two", "k2"))}}


def _join(d):
    (d / "list").write_text(f"{d}/s.zip\n")
    return {"input_store_list_file": str(d / "list"), "output": {"type": "zip", "path": str(d / "o.zip")}}


def _tar(how):
    def read(d):
        from vistautils.key_value import KeyValueLinearSource

        if how == "text":
            with KeyValueLinearSource.str_linear_source_from_tar_gz(d / "t.tar.gz", name_filter=lambda n: n != "b") as s:
                return list(s.items())
        with KeyValueLinearSource.byte_linear_source_from_tar_gz(d / "t.tar.gz") as s:
            if how == "filtered":
                return list(s.items(key_filter=lambda k: k != "a"))
            return list(s.items())

    return read


def _tar_entry(d):
    from vistautils.io_utils import CharSource

    return CharSource.from_file_in_tgz(d / "t.tar.gz", "a").read_all()


def _convert(*args):
    def read(d):
        from vistautils.scripts import tar_gz_to_zip

        argv(tar_gz_to_zip, d / "t.tar.gz", *args)
        return entries(d / "t.zip")

    return read


def _gz(how):
    def read(d):
        from vistautils.io_utils import CharSource

        s = CharSource.from_gzipped_file(d / "g.gz")
        if how == "lines":
            return s.readlines()
        if how == "iterated":
            with s.open() as f:
                return list(f)
        return s.read_all()

    return read


STORE_READERS = {
    "store items, text": _store("text", "items"), "store items, bytes": _store("bytes", "items"), "store values, text": _store("text", "values"),
    "store values, bytes": _store("bytes", "values"), "store get, text": _store("text", "get"), "store get, bytes": _store("bytes", "get"),
    "entry, bytes": _entry("bytes"), "entry, text": _entry("text"), "entry of an open zip": _entry("open"),
    "split": _script("split_key_value_store", lambda d: {"input": _inp(d), "num_slices": 2, "output_dir": str(d / "o")}, _slices),
    "explicit split": _script("split_key_value_store", _explicit, lambda d: [entries(d / "one.zip"), entries(d / "two.zip")]),
    "join": _script("join_key_value_stores", _join, lambda d: entries(d / "o.zip")),
    "downsample": _script("downsample_key_value_store", lambda d: {"input": _inp(d), "num_to_sample": 9, "output_zip_path": str(d / "o.zip")}, lambda d: entries(d / "o.zip")),
}
TAR_READERS = {"tar items": _tar("bytes"), "tar items, text": _tar("text"), "tar items, filtered": _tar("filtered"), "tar entry": _tar_entry,
               "tar to zip": _convert(), "tar to zip unstreamed": _convert("--dont-stream")}
GZ_READERS = {"gz": _gz("all"), "gz lines": _gz("lines"), "gz iterated": _gz("iterated")}
ARCHIVES = {"zip bytes": STORE_READERS, "zip deflated": STORE_READERS, "zip text": STORE_READERS, "tar": TAR_READERS, "gz": GZ_READERS}
BINARY = ("zip bytes", "zip deflated")  # whose values are no text


def readers(kind):
    for name in ARCHIVES[kind]:
        if not (kind in BINARY and name.startswith("store") and name.endswith("text")):
            yield name


PARTS = 4


def gen_damage(tier):
    for kind in ARCHIVES:
        for name in readers(kind):
            for size in ("small", "big"):
                for part in range(PARTS):
                    yield (kind, name, size, "truncated", part)
            if kind != "tar":
                for part in range(PARTS):
                    yield (kind, name, "small", "changed", part)


def run_damage(case, t):
    kind, name, size, how, part = case
    read = ARCHIVES[kind][name]
    base = Path(t.dir)
    file, data = archive(kind, size)
    good = base / "good"
    good.mkdir()
    (good / file).write_bytes(data)
    expected = t.call(lambda: read(good), f"{name} of an undamaged {kind} archive")
    for at in range(part, len(data), PARTS):
        if size == "big" and not (at < 300 or at > len(data) - 700 or at // PARTS % 64 == 0):
            continue
        if kind == "gz" and how == "truncated" and at == 0:
            continue  # an empty file is a gzipped file without members
        variants = [data[:at]] if how == "truncated" else [data[:at] + bytes([data[at] ^ m]) + data[at + 1:] for m in ((1, 0x80, 0xFF) if not thorough(os.environ["MC_TIER"]) else [1 << i for i in range(8)] + [0xFF])]
        for i, damaged in enumerate(variants):
            t.state((kind, size, how, at, i))
            d = base / f"{at}-{i}"
            d.mkdir()
            (d / file).write_bytes(damaged)
            judge(t, lambda: read(d), expected, f"{name} of a {kind} archive of {len(data)} bytes, {how} at byte {at}")


def judge(t, read, expected, what):
    t.ops += 1
    try:
        got = read()
    except (Exception, SystemExit) as e:
        t.outcome("raised " + type(e).__name__)
        return
    t.outcome("read in full")
    t.eq(got, expected, f"{what}: it was not refused, and gave")


# --- reads that fail ------------------------------------------------------------------
def unreadable():
    """name -> (prepare(d), read(d)): every call that reads files"""
    from immutablecollections import immutabledict
    from vistautils.io_utils import ByteSource, CharSource, file_lines_to_set, is_empty_directory, read_doc_id_to_file_map
    from vistautils.key_value import KeyValueLinearSource, KeyValueSource, byte_key_value_source_from_params, char_key_value_source_from_params
    from vistautils.parameters import YAMLParametersLoader
    from vistautils.scripts import directory_to_key_value_store, text_at_offsets

    def write(**files):
        def prepare(d):
            for n, c in files.items():
                (d / n).write_bytes(c if isinstance(c, bytes) else c.replace("D/", f"{d}/").encode("utf-8"))

        return prepare

    def arch(kind):
        name, data = archive(kind, "small")
        return lambda d: (d / name).write_bytes(data)

    text = write(f=TEXT)
    out = {
        "text": (text, lambda d: CharSource.from_file(d / "f").read_all()),
        "lines": (text, lambda d: CharSource.from_file(d / "f").readlines()),
        "iterated lines": (text, lambda d: _iterated(CharSource.from_file(d / "f"))),
        "text in pieces": (text, lambda d: _pieces(CharSource.from_file(d / "f"), 4)),
        "bytes": (text, lambda d: ByteSource.from_file(d / "f").read()),
        "some bytes": (text, lambda d: ByteSource.from_file(d / "f").read(9)),
        "bytes in pieces": (text, lambda d: _pieces(ByteSource.from_file(d / "f"), 4)),
        "wrapped bytes": (text, lambda d: CharSource.from_byte_source(ByteSource.from_file(d / "f"), encoding="utf-8").read_all()),
        "wrapped emptiness": (text, lambda d: CharSource.from_byte_source(ByteSource.from_file(d / "f"), encoding="utf-8").is_empty()),
        "gz emptiness": (arch("gz"), lambda d: CharSource.from_gzipped_file(d / "g.gz").is_empty()),
        "set of lines": (text, lambda d: file_lines_to_set(d / "f")),
        "file map": (write(m="a\tD/x\nb\tD/y\n"), lambda d: {k: v.name for k, v in read_doc_id_to_file_map(CharSource.from_file(d / "m")).items()}),
        "path list": (write(m="x\n\ny\n"), lambda d: [p.name for p in P({"p": str(d / "m")}).path_list_from_file("p")]),
        "path map": (write(m="a\tD/x\nb\tD/y\n"), lambda d: {k: v.name for k, v in P({"p": str(d / "m")}).path_map_from_file("p").items()}),
        "pickled object": (write(o=pickle.dumps([1, {"x": 2}])), lambda d: P({"p": str(d / "o")}).pickled_object_from_file("p")),
        "parameters": (write(p="a: 1\nb: [x, 'y']\nc: {d: e}\n"), lambda d: YAMLParametersLoader().load(d / "p").as_nested_dicts()),
        "parameters with includes": (write(p="_includes: [q, r]\na: '%b%'\n", q="b: 2\n", r="_includes: [q]\nc: 3\n"),
                                     lambda d: YAMLParametersLoader().load(d / "p").as_nested_dicts()),
        "path map store": (write(m="a\tD/x\nb\tD/y\n", x="xx", y="yyy"), lambda d: _items(KeyValueSource.from_doc_id_to_file_map(d / "m"))),
        "path map store, bytes": (write(m="a\tD/x\nb\tD/y\n", x="xx", y="yyy"), lambda d: _items(KeyValueSource.binary_from_doc_id_to_file_map(d / "m"))),
        "path map store, get": (write(x="xx", y="yyy"), lambda d: _get(KeyValueSource.from_path_mapping(immutabledict([(k, d / k) for k in "xy"])))),
        "path map store, bytes, get": (write(m="a\tD/x\nb\tD/y\n", x="xx", y="yyy"), lambda d: _get(KeyValueSource.binary_from_doc_id_to_file_map(str(d / "m")))),
        "store by parameters": (arch("zip text"), lambda d: _items(char_key_value_source_from_params(P({"input": {"type": "zip", "path": str(d / "s.zip")}})))),
        "map store by parameters": (write(m="a\tD/x\n", x="xx"), lambda d: _items(byte_key_value_source_from_params(P({"input": {"type": "file-map", "path": str(d / "m")}})))),
        "interpreted store": (arch("zip text"), lambda d: _items(KeyValueSource.interpret_values(KeyValueSource.zip_bytes_source(d / "s.zip"), lambda k, v: (k, len(v))))),
        "interpreted tar": (arch("tar"), lambda d: _linear(KeyValueLinearSource.interpret_values(KeyValueLinearSource.byte_linear_source_from_tar_gz(d / "t.tar.gz"), lambda k, v: (k, len(v))))),
        "empty directory": (lambda d: (d / "e").mkdir(), lambda d: is_empty_directory(d / "e")),
        "directory which is not empty": (lambda d: _files(d / "e"), lambda d: is_empty_directory(d / "e")),
        "creatable empty directory": (lambda d: (d / "e").mkdir(), lambda d: P({"e": str(d / "e")}).creatable_empty_directory("e") and None),
        "directory to store": (lambda d: _files(d / "e"), _script("directory_to_key_value_store", lambda d: {"input_directory": str(d / "e"), "output": {"type": "zip", "path": str(d / "o.zip")}}, lambda d: entries(d / "o.zip"))),
        "flat directory to store": (lambda d: _files(d / "e", False), _script("directory_to_key_value_store", lambda d: {"input_directory": str(d / "e"), "output": {"type": "zip", "path": str(d / "o.zip")}}, lambda d: entries(d / "o.zip"))),
        "text at offsets": (text, lambda d: _printed(text_at_offsets, d / "f", 2, 9)),
    }
    for kind in ("zip bytes", "zip text", "tar", "gz"):
        for name in readers(kind):
            if kind != "zip text" or name.startswith("store"):
                out[f"{name} of {kind}"] = (arch(kind), ARCHIVES[kind][name])
    return out


def _iterated(s):
    with s.open() as f:
        return list(f)


def _pieces(s, n):
    out = []
    with s.open() as f:
        while True:
            x = f.read(n)
            if not x:
                return out
            out.append(x)


def _items(s):
    with s:
        return dict(s.items()), {k: s[k] for k in s.keys()}


def _get(s):
    with s:
        return [s.get(k) for k in sorted(s.keys())]


def _linear(s):
    with s:
        return list(s.items())


def _files(e, deep=True):
    (e / "sub" / "subsub" if deep else e).mkdir(parents=True)
    (e / "x").write_bytes(b"xx")
    if not deep:
        return
    (e / "sub" / "y").write_bytes(b"y")
    (e / "sub" / "subsub" / "z").write_bytes(b"")


def _printed(m, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        with jobs.arguments(*args):
            m.main()
    return out.getvalue()


def gen_reads(tier):
    for name in unreadable():
        for mode in ("stays", "once"):
            for error in ("EIO", "EACCES"):
                for buffer in (8192, 16):
                    for part in range(2):
                        yield (name, mode, error, buffer, part)


def run_reads(case, t):
    name, mode, error, buffer, part = case
    prepare, read = unreadable()[name]
    base = Path(t.dir)

    def fresh(n):
        d = base / n
        d.mkdir()
        prepare(d)
        return d

    try:
        expected = read(fresh("good"))
    except Exception as e:
        if name == "directory to store":  # which may refuse sub-directories
            t.outcome("sub-directories are refused")
            return
        t.fail(f"{name}: raised {type(e).__name__}: {e}")
    d = fresh("counted")
    with faults.Disk(faults.READING, buffer=buffer) as disk:
        t.eq(read(d), expected, f"{name}, counting its accesses")
    n = disk.count
    t.outcome("accesses %s" % ("none" if n == 0 else "some"))
    for at in range(part, n, 2):
        t.state((name, mode, error, buffer, at))
        d = fresh(str(at))
        with faults.Disk(faults.READING, at, mode, error=getattr(errno, error), buffer=buffer):
            judge(t, lambda: read(d), expected, f"{name}: access {at} of {n} fails with {error}, the disk {'stays unreadable' if mode == 'stays' else 'recovers'}")


SPACES = [
    Space("damaged archives", gen_damage, run_damage,
          lambda tier: "22 ways of reading zip, tar.gz and gz archives x every truncation of a small archive (of a large one: every one near its ends and every 256th byte) and, for zip and gz, every byte changed in %d ways" % (3 if tier == "quick" else 9), tmp=True),
    Space("reads fail", gen_reads, run_reads, "56 calls that read x every byte read, every opening and every listing failing, with 2 errors, once or from then on, with buffers of 8192 and of 16 bytes", tmp=True),
]
