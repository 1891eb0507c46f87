"""C19 text and byte sources and sinks."""
import gzip
import io
import itertools
import tarfile
import zipfile
from pathlib import Path

from mc.core import Space, thorough, seqs

TOKENS = ("a", "\n", "\u00e9", "\u2028", "\x0b", "\U0001f600", "\ufeff", " ")
LONG = (
    "x" * 10_000,
    "\u00e9" * 8_191 + "\n" + "\U0001f600" * 5_000,
    ("line \u2029 " * 30 + "\n") * 200,
    "\n" * 9_000,
    "a" * 8_191 + "\n\n" + "b" * 8_192,
    "\x00\x01\x85\x1c\x1d\x1e\x0c\u2029end",
    "\t \n \t",
)
ENCODINGS = ("utf-8", "utf-16", "utf-32-be", "latin-1", "cp1252", "utf-8-sig")


def lines_of(text):
    parts = text.split("\n")
    return parts[:-1] if parts[-1] == "" else parts


def sources(d, data, encoding):
    """label -> () -> CharSource, for a text stored under the encoding."""
    from vistautils.io_utils import ByteSource, CharSource

    (d / "f").write_bytes(data)
    with gzip.open(d / "f.gz", "wb") as g:
        g.write(data)
    with tarfile.open(d / "f.tgz", "w:gz") as tar:
        for name, content in (("before.txt", b"decoy"), ("in/f.txt", data), ("later.txt", b"other decoy")):
            info = tarfile.TarInfo(name)
            info.size = len(content)
            tar.addfile(info, io.BytesIO(content))
    with zipfile.ZipFile(d / "f.zip", "w") as z:
        z.writestr("before.txt", b"decoy")
        z.writestr("in/f.txt", data)
        z.writestr("later.txt", b"other decoy")
    z = zipfile.ZipFile(d / "f.zip")
    out = {
        "wrapped file": lambda: CharSource.from_byte_source(ByteSource.from_file(d / "f"), encoding=encoding),
        "wrapped zip entry": lambda: CharSource.from_byte_source(ByteSource.from_file_in_zip(z, "in/f.txt"), encoding=encoding),
        "gzip": lambda: CharSource.from_gzipped_file(d / "f.gz", encoding),
        "tar.gz entry": lambda: CharSource.from_file_in_tgz(d / "f.tgz", "in/f.txt", encoding),
    }
    if encoding == "utf-8":
        out.update({
            "file": lambda: CharSource.from_file(d / "f"),
            "file by name": lambda: CharSource.from_file(str(d / "f")),
            "zip entry": lambda: CharSource.from_file_in_zip(d / "f.zip", "in/f.txt"),
            "open zip entry": lambda: CharSource.from_file_in_zip(z, "in/f.txt"),
            "wrapped bytes, default encoding": lambda: CharSource.from_byte_source(ByteSource.from_file(d / "f")),
            "gzip, default encoding": lambda: CharSource.from_gzipped_file(d / "f.gz"),
            "tar.gz entry, default encoding": lambda: CharSource.from_file_in_tgz(d / "f.tgz", "in/f.txt"),
        })
    return out, z


def compare(t, src, text, what):
    for _ in range(2):
        t.same(t.call(src.read_all, f"read_all of {what}"), text, f"read_all of {what}")
        t.is_(t.call(src.is_empty, f"is_empty of {what}"), text == "", f"is_empty of {what}")
        t.eq(list(t.call(src.readlines, f"readlines of {what}")), lines_of(text), f"readlines of {what}")
    step = max(1, len(text) // 50)
    for k in (1, 2, 3):
        with src.open() as f:
            parts = []
            while True:
                p = f.read(k * step)
                if not p:
                    break
                parts.append(p)
        t.same("".join(parts), text, f"{what}, read {k * step} characters at a time")
    with src.open() as f:
        got = f.readline() + f.read(1) + f.readline() + f.read()
    t.same(got, text, f"{what}, read in mixed pieces")
    with src.open() as f:
        got = list(f)
    t.eq(("".join(got), [x.rstrip("\n") if x.endswith("\n") else x for x in got]), (text, lines_of(text)), f"lines of {what}")
    with src.open() as f1, src.open() as f2:  # two readers do not disturb each other
        a = f1.read(1)
        b = f2.read()
        a += f1.read()
    t.eq((a, b), (text, text), f"two readers of {what}")


def gen_texts(tier):
    for p in seqs(TOKENS, 0, 3 if not thorough(tier) else 4):
        yield (("text", "".join(p)), "utf-8")
    for i in range(len(LONG)):
        yield (("long", i), "utf-8")
    for enc in ENCODINGS[1:]:
        for p in seqs(TOKENS[:4], 0, 2 if not thorough(tier) else 3):
            yield (("text", "".join(p)), enc)
        for i in range(len(LONG)):
            yield (("long", i), enc)


def run_texts(case, t):
    from vistautils.io_utils import CharSource

    (kind, x), encoding = case
    text = x if kind == "text" else LONG[x]
    try:
        data = text.encode(encoding)
    except UnicodeEncodeError:
        t.outcome("cannot be encoded")
        return
    if data.decode(encoding) != text:
        t.outcome("encoding does not round-trip")
        return
    t.state(case)
    kinds, z = sources(Path(t.dir), data, encoding)
    for name, make in kinds.items():
        compare(t, make(), text, f"a {name} source in {encoding} of {text[:60]!r}")
    if encoding == "utf-8":
        compare(t, CharSource.from_string(text), text, f"a string source of {text[:60]!r}")
        if not text:
            compare(t, CharSource.from_nowhere(), "", "the empty source")
    t.true(z.fp is not None, "an archive the caller opened stays open")
    z.close()


def gen_cr(tier):
    for text in ("a\r\nb\rc", "\r", "\r\n"):
        for kind in ("string", "tar.gz entry", "file", "gzip", "wrapped file", "zip entry"):
            yield (kind, text)


def run_cr(case, t):
    from vistautils.io_utils import CharSource

    kind, text = case
    t.state(case)
    if kind == "string":
        src = CharSource.from_string(text)
    else:
        src = sources(Path(t.dir), text.encode(), "utf-8")[0][kind]()
    t.same(src.read_all(), text, f"read_all of a {kind} source of {text!r}")
    t.eq(src.readlines(), lines_of(text), f"readlines of a {kind} source of {text!r}")


def gen_missing(tier):
    for k in ("file", "gzip", "zip", "zip entry", "open zip entry", "tgz", "tgz entry", "tgz directory", "wrapped", "bad utf-8 file", "bad utf-8 zip", "bytes"):
        yield k


def run_missing(case, t):
    from vistautils.io_utils import ByteSource, CharSource

    t.state(case)
    d = Path(t.dir)
    sources(d, b"\xff\xfe\xfd", "utf-8")
    with tarfile.open(d / "dir.tgz", "w:gz") as tar:
        info = tarfile.TarInfo("d")
        info.type = tarfile.DIRTYPE
        tar.addfile(info)
    with zipfile.ZipFile(d / "f.zip") as z:
        src = {
            "file": lambda: CharSource.from_file(d / "none"),
            "gzip": lambda: CharSource.from_gzipped_file(d / "none"),
            "zip": lambda: CharSource.from_file_in_zip(d / "none", "in/f.txt"),
            "zip entry": lambda: CharSource.from_file_in_zip(d / "f.zip", "none"),
            "open zip entry": lambda: CharSource.from_file_in_zip(z, "none"),
            "tgz": lambda: CharSource.from_file_in_tgz(d / "none", "in/f.txt"),
            "tgz entry": lambda: CharSource.from_file_in_tgz(d / "f.tgz", "none"),
            "tgz directory": lambda: CharSource.from_file_in_tgz(d / "dir.tgz", "d"),
            "wrapped": lambda: CharSource.from_byte_source(ByteSource.from_file(d / "none")),
            "bad utf-8 file": lambda: CharSource.from_file(d / "f"),
            "bad utf-8 zip": lambda: CharSource.from_file_in_zip(z, "in/f.txt"),
            "bytes": lambda: ByteSource.from_file(d / "none"),
        }[case]
        t.raises(Exception, lambda: src().read() if case == "bytes" else src().read_all(), f"reading a missing or unreadable {case}")


# --- bytes which are no text, text which has no bytes -------------------------------------

def gen_undecodable(tier):
    for p in seqs((0x61, 0x0A, 0x80, 0xA9, 0xC3, 0xE2, 0xED, 0xF0, 0xFF, 0x00), 1, 2 if not thorough(tier) else 4):
        yield p
    for p in itertools.product((0xC3, 0xE2, 0xED, 0xF0), (0x80, 0xA9, 0xA0, 0x90, 0x61), (0x80, 0x61, 0xBF)):
        yield p
        yield p + (0x80,)
    for n in (8191, 8192, 8193, 100_000):
        yield (n, 0xFF)
        yield (n, 0xC3)
        yield (n, 0xC3, 0xA9)


def run_undecodable(case, t):
    data = bytes(case) if case[0] < 256 else b"x" * case[0] + bytes(case[1:])
    t.state(case)
    for encoding in ("utf-8", "ascii"):
        try:
            text = data.decode(encoding)
        except UnicodeDecodeError:
            text = None
        kinds, z = sources(Path(t.dir), data, encoding)
        for name, make in kinds.items():
            if encoding == "ascii" and "default" in name:
                continue
            src = make()
            w = f"a {name} source in {encoding} of {data[-20:]!r}"
            for what, read in (("read_all", src.read_all), ("readlines", src.readlines)):
                if text is None:
                    t.raises(Exception, read, f"{what} of {w}")
                else:
                    got = t.call(read, f"{what} of {w}")
                    t.eq(got, text if what == "read_all" else lines_of(text), f"{what} of {w}")
        z.close()
        t.outcome("text" if text is not None else "no text")


def gen_unencodable(tier):
    for where in ("file", "file by name", "new directories"):
        for how in ("write", "open", "pieces"):
            for pre in ("", "a", "\n", "x" * 10_000):
                for post in ("", "b", "y" * 10_000):
                    for bad in ("\ud800", "\udcff", "\udfff\ud800"):
                        yield (where, how, len(pre), pre[:1], bad, len(post))


def run_unencodable(case, t):
    from vistautils.io_utils import CharSink

    where, how, n, pre, bad, m = case
    t.state(case)
    d = Path(t.dir)
    text = pre * n + bad + "y" * m
    p = d / "new" / "f" if where == "new directories" else d / "f"
    sink = CharSink.to_file(str(p) if where == "file by name" else p)

    def put():
        if how == "write":
            sink.write(text)
        else:
            with sink.open() as f:
                for c in (text,) if how == "open" else (text[:n], bad, text[n + len(bad):]):
                    f.write(c)

    t.raises(Exception, put, f"writing text which has no UTF-8 form ({case})")


BYTES = (b"", b"\x00", b"\r\n", b"\xff\xfe", b"a\nb\r\n\x1a", bytes(range(256)), bytes(i * i % 251 for i in range(100_003)))


def gen_bytes(tier):
    for i in range(len(BYTES)):
        yield i
    for p in seqs((0, 10, 13, 255), 2, 3 if not thorough(tier) else 4):
        yield p


def run_bytes(case, t):
    from vistautils.io_utils import ByteSource

    data = BYTES[case] if isinstance(case, int) else bytes(case)
    t.state(case)
    d = Path(t.dir)
    _, z = sources(d, data, "utf-8")
    n = len(data)
    for name, make in {
        "file": lambda: ByteSource.from_file(d / "f"),
        "zip entry": lambda: ByteSource.from_file_in_zip(d / "f.zip", "in/f.txt"),
        "open zip entry": lambda: ByteSource.from_file_in_zip(z, "in/f.txt"),
    }.items():
        src = make()
        w = f"a {name} source of {data[:40]!r}"
        for _ in range(2):
            t.same(src.read(), data, f"read of {w}")
        t.same(src.read(-1), data, f"read(-1) of {w}")
        for k in sorted({0, 1, 2, 3, n - 1, n, n + 1, 4096, 8193, 70_000} & set(range(0, n + 100_000))):
            t.same(src.read(k), data[:k], f"read({k}) of {w}")
            t.same(src.read(size=k), data[:k], f"read(size={k}) of {w}")
        with src.open() as f:
            t.same(f.read(1) + f.read(2) + f.read(), data, f"{w} in pieces")
        with src.open() as f1, src.open() as f2:
            a = f1.read(1)
            b = f2.read()
            a += f1.read()
        t.eq((a, b), (data, data), f"two readers of {w}")
        if hasattr(src, "is_empty"):
            t.is_(src.is_empty(), not data, f"is_empty of {w}")
    z.close()


WRITES = ("", "x", "\u00e9\n\n", "a longer text \U0001f600\n")
CHAR_SINKS = ("file", "file by name", "new directories", "string", "nowhere")
BYTE_SINKS = ("file", "new directories", "buffer", "zip entry")


def gen_sinks(tier):
    ops = tuple((v, how) for v in WRITES for how in ("write", "open", "pieces"))
    for k in CHAR_SINKS:
        for p in seqs(ops, 1, 2 if not thorough(tier) else 3):
            yield ("char", k, p)
    for k in BYTE_SINKS:
        for p in seqs(ops, 1, 2 if not thorough(tier) else 3):
            yield ("bytes", k, p)
    for kind, sinks in (("char", CHAR_SINKS), ("bytes", BYTE_SINKS)):
        for k in sinks:
            yield (kind, k, ((WRITES[3] * 5000, "write"), (WRITES[3], "write")))


def run_sinks(case, t):
    from vistautils.io_utils import ByteSink, ByteSource, CharSink, CharSource

    kind, where, ops = case
    t.state((kind, where, tuple((v[:40], how) for v, how in ops)))
    d = Path(t.dir)
    p = d / "new" / "er" / "f" if where == "new directories" else d / "f"
    char = kind == "char"
    if char:
        sink = {"file": lambda: CharSink.to_file(p), "file by name": lambda: CharSink.to_file(str(p)), "new directories": lambda: CharSink.to_file(p),
                "string": CharSink.to_string, "nowhere": CharSink.to_nowhere}[where]()
    else:
        if where == "zip entry":
            with zipfile.ZipFile(d / "z.zip", "w") as z:
                z.writestr("other", b"kept")
        sink = {"file": lambda: ByteSink.to_file(p), "new directories": lambda: ByteSink.to_file(p), "buffer": ByteSink.to_buffer,
                "zip entry": lambda: ByteSink.file_in_zip(d / "z.zip", "sub/f")}[where]()
    # sources made before anything was written
    early = (CharSource.from_file(p), ByteSource.from_file(p)) if where in ("file", "file by name", "new directories") else \
        (CharSource.from_file_in_zip(d / "z.zip", "sub/f"), ByteSource.from_file_in_zip(d / "z.zip", "sub/f"))
    if where == "string":
        t.is_(sink.last_string_written, None, "the last string of a fresh sink")
    for i, (text, how) in enumerate(ops):
        v = text if char else text.encode("utf-8")
        w = f"write number {i} ({how}) of {v[:40]!r} to a {kind} sink ({where})"
        if how == "write":
            t.call(lambda: sink.write(v), w)
        else:
            with t.call(sink.open, w) as f:
                if how == "open":
                    f.write(v)
                else:
                    for j in range(0, len(v), max(1, len(v) // 20)):
                        f.write(v[j: j + max(1, len(v) // 20)])
        if where == "nowhere":
            continue
        if where == "string":
            t.same(sink.last_string_written, v, f"after {w}")
            continue
        if where == "buffer":
            t.same(sink.last_bytes_written, v, f"after {w}")
            continue
        if where == "zip entry":
            t.same(ByteSource.from_file_in_zip(d / "z.zip", "sub/f").read(), v, f"after {w}")
            t.same(ByteSource.from_file_in_zip(d / "z.zip", "other").read(), b"kept", f"another entry of the zip after {w}")
            t.same(CharSource.from_file_in_zip(d / "z.zip", "sub/f").read_all(), text, f"text after {w}")
            t.eq((early[0].read_all(), early[1].read(), early[0].is_empty()), (text, v, not v), f"sources made before {w}")
            continue
        t.eq(p.read_bytes(), text.encode("utf-8"), f"file after {w}")
        t.same(CharSource.from_file(p).read_all(), text, f"text after {w}")
        t.same(ByteSource.from_file(p).read(), text.encode("utf-8"), f"bytes after {w}")
        t.eq((early[0].read_all(), early[1].read(), early[0].is_empty()), (text, text.encode("utf-8"), not v), f"sources made before {w}")
    if where == "nowhere":
        with sink.open() as f:
            f.writelines([v, v])
            f.flush()
            print("x", file=f)


def gen_null(tier):
    yield "null"


def run_null(case, t):
    from vistautils.io_utils import CharSink

    t.state(case)
    s = CharSink.to_nowhere()
    for v in ("", "x", "\n" * 10_000, "\udc80", "\U0001f600"):
        t.call(lambda: s.write(v), "writing to nowhere")
        with s.open() as f:
            t.call(lambda: (f.write(v), f.writelines([v]), f.write(v)), "writing to nowhere")


SPACES = [
    Space("texts", gen_texts, run_texts, lambda tier: "every text of up to %d of 8 tokens, long texts, 6 encodings; 11 kinds of source" % (3 if tier == "quick" else 4), tmp=True),
    Space("carriage returns", gen_cr, run_cr, "3 texts with carriage returns x 6 kinds of source", tmp=True),
    Space("missing", gen_missing, run_missing, "12 missing or unreadable places", tmp=True),
    Space("no text", gen_undecodable, run_undecodable,
          lambda tier: "every sequence of up to %d of 10 bytes, and longer ones around UTF-8's rules, as UTF-8 and ASCII; 11 kinds of source"
          % (2 if tier == "quick" else 4), tmp=True),
    Space("no bytes", gen_unencodable, run_unencodable, "surrogates in texts of several lengths, written in 9 ways", tmp=True),
    Space("bytes", gen_bytes, run_bytes, "all short contents of 4 bytes and some long ones; every length of read", tmp=True),
    Space("sinks", gen_sinks, run_sinks, lambda tier: "every history of 1-%d writes to 9 kinds of sink" % (2 if tier == "quick" else 3), tmp=True),
    Space("null", gen_null, run_null, "the null sink"),
]
