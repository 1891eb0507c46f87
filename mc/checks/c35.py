"""C35 sources, sinks, stores, loaders and scripts release the files they open."""
import contextlib
import gc
import gzip
import io
import itertools
import os
import pickle
import tarfile
import warnings
import zipfile
from pathlib import Path

from mc.core import Space, thorough, seqs
from mc import faults, jobs

TEXTS = ("", "one", "two\nlines \u00e9\n")


class Boom(Exception):
    pass


def descriptors():
    out = []
    for fd in range(256):
        try:
            os.fstat(fd)
        except OSError:
            continue
        out.append(fd)
    return out


class Watch:
    """Within it nothing is collected; afterwards the descriptors are those of before."""

    def __init__(self, t, what, failing=False):
        self.t, self.what, self.failing = t, what, failing

    def __enter__(self):
        gc.collect()
        gc.disable()
        self.before = descriptors()
        self.catcher = warnings.catch_warnings(record=True)
        self.seen = self.catcher.__enter__()
        warnings.simplefilter("always", ResourceWarning)
        return self

    def now(self, more=""):
        self.t.eq(descriptors(), self.before, f"open file descriptors {more or 'after'} {self.what}")

    def __exit__(self, typ, exc, tb):
        self.catcher.__exit__(None, None, None)
        gc.enable()
        if typ is None:
            if self.failing:
                gc.collect()
            self.now()
            if not self.failing:
                bad = [str(x.message) for x in self.seen if issubclass(x.category, ResourceWarning)]
                self.t.eq(bad, [], f"files left for the garbage collector by {self.what}")
        return False


def places(d, data):
    (d / "f").write_bytes(data)
    with gzip.open(d / "f.gz", "wb") as g:
        g.write(data)
    with tarfile.open(d / "f.tgz", "w:gz") as tar:
        info = tarfile.TarInfo("in/f.txt")
        info.size = len(data)
        tar.addfile(info, io.BytesIO(data))
    with zipfile.ZipFile(d / "f.zip", "w") as z:
        z.writestr("in/f.txt", data)
        z.writestr("other", b"other")


CHAR_SOURCES = ("string", "file", "gzip", "tar.gz entry", "zip entry", "open zip entry", "wrapped file", "wrapped zip entry")
BYTE_SOURCES = ("file bytes", "zip entry bytes", "open zip entry bytes")


def source(kind, d, z):
    from vistautils.io_utils import ByteSource, CharSource

    return {
        "string": lambda: CharSource.from_string((d / "f").read_text(encoding="utf-8")),
        "file": lambda: CharSource.from_file(d / "f"),
        "gzip": lambda: CharSource.from_gzipped_file(d / "f.gz"),
        "tar.gz entry": lambda: CharSource.from_file_in_tgz(d / "f.tgz", "in/f.txt"),
        "zip entry": lambda: CharSource.from_file_in_zip(d / "f.zip", "in/f.txt"),
        "open zip entry": lambda: CharSource.from_file_in_zip(z, "in/f.txt"),
        "wrapped file": lambda: CharSource.from_byte_source(ByteSource.from_file(d / "f")),
        "wrapped zip entry": lambda: CharSource.from_byte_source(ByteSource.from_file_in_zip(d / "f.zip", "in/f.txt"), encoding="utf-8"),
        "file bytes": lambda: ByteSource.from_file(d / "f"),
        "zip entry bytes": lambda: ByteSource.from_file_in_zip(d / "f.zip", "in/f.txt"),
        "open zip entry bytes": lambda: ByteSource.from_file_in_zip(z, "in/f.txt"),
    }[kind]()


def use_source(t, src, how, keep, what):
    """One use of a source; what it opened is kept alive in keep."""
    if how in ("all", "lines", "empty"):
        if how == "all":
            keep.append(src.read() if hasattr(src, "read") else src.read_all())
        elif how == "lines":
            keep.append(src.readlines() if hasattr(src, "readlines") else src.read(2))
        else:
            keep.append(src.is_empty() if hasattr(src, "is_empty") else src.read(0))
        return
    if how == "close":
        f = src.open()
        keep.append(f)
        f.read(1)
        f.close()
        f.close()
    else:
        try:
            with src.open() as f:
                keep.append(f)
                if how == "some":
                    f.read(1)
                elif how == "whole":
                    f.read()
                elif how == "first line":
                    keep.append(iter(f))
                    next(keep[-1], None)
                elif how == "raise":
                    f.read(1)
                    raise Boom()
        except Boom:
            pass
    t.raises(Exception, lambda: keep[0].read(), f"reading after {what}") if len(keep) and hasattr(keep[0], "read") else None


HOWS = ("all", "lines", "empty", "none", "some", "whole", "first line", "raise", "close")


def gen_sources(tier):
    for kind in CHAR_SOURCES + BYTE_SOURCES:
        for text in TEXTS:
            for hows in seqs(HOWS, 1, 2 if not thorough(tier) else 3):
                yield (kind, text, hows)


def run_sources(case, t):
    kind, text, hows = case
    t.state(case)
    d = Path(t.dir)
    places(d, text.encode("utf-8"))
    z = zipfile.ZipFile(d / "f.zip")
    keeps = []
    with Watch(t, f"uses of a {kind} source: {hows}") as w:
        src = source(kind, d, z)
        w.now("after making, before")
        for how in hows:
            keep = []
            keeps.append(keep)
            use_source(t, src, how, keep, f"the use '{how}' of a {kind} source")
            w.now(f"after the use '{how}' among")
    t.eq(z.read("other"), b"other", "the archive the caller opened, which stays open")
    z.close()


def gen_overlap(tier):
    for kind in CHAR_SOURCES + BYTE_SOURCES:
        for order in itertools.permutations(("open 1", "open 2", "close 1", "close 2")):
            if order.index("open 1") < order.index("close 1") and order.index("open 2") < order.index("close 2"):
                yield (kind, order)


def run_overlap(case, t):
    """Two readers of one source: closing one leaves the other readable, closing both releases all."""
    kind, order = case
    t.state(case)
    d = Path(t.dir)
    places(d, b"content")
    z = zipfile.ZipFile(d / "f.zip")
    with Watch(t, f"two readers of a {kind} source: {order}"):
        src = source(kind, d, z)
        f = {}
        for op, i in (x.split() for x in order):
            if op == "open":
                f[i] = src.open()
            else:
                f[i].close()
                for j, g in f.items():
                    if j != i and not g.closed:
                        t.eq(len(g.read(1)), 1, f"a character read by the other reader, {order}")
    t.eq(z.read("other"), b"other", "the archive the caller opened")
    z.close()


CHAR_SINKS = ("file", "string", "nowhere")
BYTE_SINKS = ("file bytes", "buffer", "zip entry bytes")
SINK_HOWS = ("write", "open", "nothing", "raise", "wrong type", "close")


def gen_sinks(tier):
    for kind in CHAR_SINKS + BYTE_SINKS:
        for hows in seqs(SINK_HOWS, 1, 2 if not thorough(tier) else 3):
            yield (kind, hows)


def run_sinks(case, t):
    from vistautils.io_utils import ByteSink, CharSink

    kind, hows = case
    t.state(case)
    d = Path(t.dir)
    with zipfile.ZipFile(d / "f.zip", "w") as z:
        z.writestr("other", b"other")
    v, wrong = ("text \u00e9", 5) if kind in CHAR_SINKS else ("text \u00e9".encode("utf-8"), "a text")
    keep = []
    with Watch(t, f"uses of a {kind} sink: {hows}", failing="wrong type" in hows) as w:
        sink = {"file": lambda: CharSink.to_file(d / "f"), "string": CharSink.to_string, "nowhere": CharSink.to_nowhere,
                "file bytes": lambda: ByteSink.to_file(d / "f"), "buffer": ByteSink.to_buffer,
                "zip entry bytes": lambda: ByteSink.file_in_zip(d / "f.zip", "e")}[kind]()
        for how in hows:
            if how == "write":
                sink.write(v)
            elif how == "wrong type":
                with contextlib.suppress(Exception):
                    sink.write(wrong)
                gc.collect()
            elif how == "close":
                f = sink.open()
                keep.append(f)
                f.write(v)
                f.close()
            else:
                try:
                    with sink.open() as f:
                        keep.append(f)
                        if how != "nothing":
                            f.write(v)
                        if how == "raise":
                            raise Boom()
                except Boom:
                    pass
            w.now(f"after the use '{how}' among")
            if kind == "zip entry bytes":
                with zipfile.ZipFile(d / "f.zip") as z:
                    t.eq(z.read("other"), b"other", f"another entry of the zip after {how} among {hows}")
                    if how in ("write", "open", "close"):
                        t.eq(z.read("e"), v, f"the entry of the zip after {how} among {hows}")
            elif kind in ("file", "file bytes") and how in ("write", "open", "close"):
                t.eq((d / "f").read_bytes(), "text \u00e9".encode("utf-8"), f"the file after {how} among {hows}")


SOURCES = ("zip text", "zip bytes", "map text", "map bytes", "path map", "tar text", "tar bytes", "interpreted zip", "interpreted tar", "zip by parameters", "map by parameters")
STORE_HOWS = ("nothing", "items", "some items", "filter raises", "keys", "value", "absent", "absent get", "body raises", "two iterations")


def gen_stores(tier):
    for kind in SOURCES:
        for hows in seqs(STORE_HOWS, 1, 2 if not thorough(tier) else 3):
            if "tar" in kind and any(h in ("keys", "value", "absent", "absent get") for h in hows):
                continue
            yield (kind, hows)


def store(kind, d):
    from immutablecollections import immutabledict
    from vistautils import key_value as kv
    from vistautils.io_utils import CharSource
    from vistautils.parameters import Parameters

    S, L = kv.KeyValueSource, kv.KeyValueLinearSource
    return {
        "zip text": lambda: S.zip_character_source(d / "s.zip"),
        "zip bytes": lambda: S.zip_bytes_source(d / "s.zip"),
        "map text": lambda: S.from_doc_id_to_file_map(CharSource.from_file(d / "map")),
        "map bytes": lambda: S.binary_from_doc_id_to_file_map(CharSource.from_file(d / "map")),
        "path map": lambda: S.from_path_mapping(immutabledict([("a", d / "va"), ("b", d / "vb")])),
        "tar text": lambda: L.str_linear_source_from_tar_gz(d / "s.tgz"),
        "tar bytes": lambda: L.byte_linear_source_from_tar_gz(d / "s.tgz"),
        "interpreted zip": lambda: S.interpret_values(S.zip_character_source(d / "s.zip"), lambda k, v: v + k),
        "interpreted tar": lambda: L.interpret_values(L.byte_linear_source_from_tar_gz(d / "s.tgz"), lambda k, v: (k, v)),
        "zip by parameters": lambda: kv.char_key_value_source_from_params(Parameters.from_mapping({"input": {"type": "zip", "path": str(d / "s.zip")}})),
        "map by parameters": lambda: kv.byte_key_value_linear_source_from_params(Parameters.from_mapping({"input": {"path": str(d / "map")}})),
    }[kind]()


def run_stores(case, t):
    from vistautils.key_value import KeyValueSink

    kind, hows = case
    t.state(case)
    d = Path(t.dir)
    with KeyValueSink.zip_character_sink(d / "s.zip") as s:
        s.put("a", "1")
        s.put("b", "2")
    for k in "ab":
        (d / f"v{k}").write_text("value of " + k)
    (d / "map").write_text(f"a\t{d}/va\nb\t{d}/vb\n")
    with tarfile.open(d / "s.tgz", "w:gz") as tar:
        for k in "ab":
            info = tarfile.TarInfo(k)
            info.size = 1
            tar.addfile(info, io.BytesIO(b"v"))
    keep = []

    def bad_filter(k):
        raise Boom()

    with Watch(t, f"sessions of a {kind} source: {hows}") as w:
        src = store(kind, d)
        w.now("after making, before")
        for how in hows:
            what = f"the session '{how}' of a {kind} source"
            try:
                with src as s:
                    if how == "items":
                        t.eq(len(list(s.items())), 2, what)
                    elif how == "some items":
                        keep.append(iter(s.items()))
                        next(keep[-1])
                    elif how == "filter raises":
                        list(s.items(key_filter=bad_filter))
                    elif how == "keys":
                        t.eq(sorted(s.keys()), ["a", "b"], what)
                    elif how == "value":
                        keep.append(s["a"])
                    elif how == "absent":
                        try:
                            s["absent"]
                        except KeyError:
                            pass
                    elif how == "absent get":
                        t.is_(s.get("absent"), None, what)
                    elif how == "body raises":
                        raise Boom()
                    elif how == "two iterations":
                        keep.append(iter(s.items()))
                        keep.append(iter(s.items()))
                        next(keep[-1])
                        next(keep[-2])
                        list(keep[-1])
            except Boom:
                t.true(how in ("body raises", "filter raises"), what)
            else:
                t.false(how in ("body raises", "filter raises"), f"no exception from {what}")
            w.now(f"after {what} among")
    t.state((kind, hows))


STORE_SINKS = ("zip text", "zip bytes", "directory text", "directory bytes")
PUTS = ("ok", "again", "none", "wrong", "body raises")


def gen_store_sinks(tier):
    for kind in STORE_SINKS:
        for sessions in seqs(tuple(seqs(PUTS, 0, 1 if not thorough(tier) else 2)), 1, 2):
            if "zip" in kind or len(sessions) == 1:  # a directory sink wants an empty directory
                yield (kind, sessions)


def run_store_sinks(case, t):
    from vistautils.key_value import KeyValueSink, byte_key_value_sink_from_params, char_key_value_sink_from_params
    from vistautils.parameters import Parameters

    kind, sessions = case
    t.state(case)
    d = Path(t.dir)
    (d / "out").mkdir()
    p = Parameters.from_mapping({"output": {"type": "directory", "path": str(d / "out")}})
    v = "x" if "text" in kind else b"x"
    failing = any(x in ("none", "wrong", "again") for s in sessions for x in s)
    with Watch(t, f"sessions {sessions} of a {kind} sink", failing) as w:
        sink = {"zip text": lambda: KeyValueSink.zip_character_sink(d / "s.zip", overwrite=False),
                "zip bytes": lambda: KeyValueSink.zip_bytes_sink(d / "s.zip"),
                "directory text": lambda: char_key_value_sink_from_params(p),
                "directory bytes": lambda: byte_key_value_sink_from_params(p)}[kind]()
        w.now("after making, before")
        for i, session in enumerate(sessions):
            try:
                with sink as s:
                    for j, op in enumerate(session):
                        if op == "ok":
                            s.put(f"{i}{j}", v)
                        elif op == "again":
                            s.put(f"{i}again{j}", v)
                            with contextlib.suppress(Exception):
                                s.put(f"{i}again{j}", v)
                        elif op == "none":
                            with contextlib.suppress(Exception):
                                s.put("k", None)
                        elif op == "wrong":
                            with contextlib.suppress(Exception):
                                s.put("k", 5)
                        else:
                            raise Boom()
            except Boom:
                pass
            if failing:
                gc.collect()
            w.now(f"after session {i} of")


# --- whole calls ------------------------------------------------------------------------
class Broken(Exception):
    pass


def calls(d, t):
    """name -> (function, fails)"""
    from vistautils import key_value as kv
    from vistautils.checkpoints import Checkpoints
    from vistautils.io_utils import ByteSource, CharSink, CharSource, file_lines_to_set, read_doc_id_to_file_map, write_doc_id_to_file_map
    from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter
    from vistautils.scripts import directory_to_key_value_store, downsample_key_value_store, join_key_value_stores, split_key_value_store, tar_gz_to_zip, text_at_offsets

    with kv.KeyValueSink.zip_bytes_sink(d / "s.zip") as s:
        for k in "abc":
            s.put(k, b"v")
    files = {
        "main.params": "_includes: [inc.params]\nx: '%y%'\nlist: paths\nmap: map\npickle: obj\n",
        "inc.params": "y: 1\n", "bad.params": "x: [", "missing.params": "_includes: [nowhere]\n", "cycle.params": "a: '%b%'\nb: '%a%'\n",
        "badinc.params": "_includes: [main.params, bad.params]\n", "scalar.params": "5\n", "reinc.params": "_includes: [scalar.params]\n",
        "paths": "a\nb\n", "map": f"a\t{d}/inc.params\n", "badmap": "a b c\n", "keys1": "a\n", "keys2": "b\nc\n", "keyfiles": f"one\t{d}/keys1\n",
    }
    for n, c in files.items():
        (d / n).write_text(c)
    (d / "latin").write_bytes(b"a\t\xff\n")
    (d / "obj").write_bytes(pickle.dumps([1]))
    (d / "badobj").write_bytes(b"")
    (d / "dir").mkdir()
    (d / "dir" / "e.txt").write_text("e")
    (d / "stores").write_text(f"{d}/s.zip\n")
    (d / "stores2").write_text(f"{d}/s.zip\n{d}/s.zip\n")
    (d / "stores3").write_text(f"{d}/s.zip\n{d}/nowhere.zip\n")
    (d / "splits").write_text(f"{d}/keys1\t{d}/o1.zip\n")
    with tarfile.open(d / "t.tar.gz", "w:gz") as tar:
        tar.add(d / "dir", "dir")
    (d / "bad.tar.gz").write_bytes(b"not a tar")
    (d / "empty").mkdir()

    P = Parameters.from_mapping
    load = lambda n: lambda: YAMLParametersLoader(interpolate_environmental_variables=False).load(d / n)
    inp = {"type": "zip", "path": str(d / "s.zip")}
    out = {"type": "zip", "path": str(d / "o.zip")}

    def argv(m, *args):
        return lambda: jobs.argv(m, *args)

    def checkpoints():
        c = Checkpoints.from_directory(d / "cp")
        for n in "ab":
            c.set(n)
            n in c  # pylint:disable=pointless-statement
        c.reset_all()
        c.set("z")

    held = []  # what these calls made stays referenced

    def keys_fail(make, body=False):
        def broken(*_a):
            raise Broken("key list")

        def f():
            held.append(make(broken))
            with held[-1] as x:
                if body:
                    x.put("new", "value")
        return f

    def again(z):
        return {"a"}

    sink_, source_ = kv.KeyValueSink, kv.KeyValueSource
    failing_keys = {
        "store whose keys cannot be read": (keys_fail(lambda f: source_.zip_bytes_source(d / "s.zip", keys_function=f)), True),
        "text store whose keys cannot be read": (keys_fail(lambda f: source_.zip_character_source(d / "s.zip", keys_function=f)), True),
        "wrapped store whose keys cannot be read": (keys_fail(lambda f: source_.interpret_values(source_.zip_character_source(d / "s.zip", keys_function=f), lambda k, v: v)), True),
        "sink whose keys cannot be read": (keys_fail(lambda f: sink_.zip_bytes_sink(d / "s.zip", overwrite=False, keys_in_function=f)), True),
        "text sink whose keys cannot be read": (keys_fail(lambda f: sink_.zip_character_sink(d / "s.zip", overwrite=False, keys_in_function=f)), True),
        "sink whose keys cannot be written": (keys_fail(lambda f: sink_.zip_bytes_sink(d / "n.zip", keys_out_function=f)), True),
        "text sink whose keys cannot be written": (keys_fail(lambda f: sink_.zip_character_sink(d / "n.zip", keys_out_function=f), True), True),
        "sink whose keys cannot be written when adding": (keys_fail(lambda f: sink_.zip_bytes_sink(d / "s.zip", overwrite=False, keys_in_function=again, keys_out_function=f), True), True),
    }
    return {
        **failing_keys,
        "load": (load("main.params"), False),
        "load malformed": (load("bad.params"), True),
        "load with a missing include": (load("missing.params"), True),
        "load with a malformed include": (load("badinc.params"), True),
        "load with a cycle": (load("cycle.params"), True),
        "load a scalar": (load("scalar.params"), True),
        "load with a scalar include": (load("reinc.params"), True),
        "load nothing": (load("nowhere"), True),
        "load a directory": (load("dir"), True),
        "write": (lambda: YAMLParametersWriter().write(P({"a": {"b": 1}}), d / "w.params"), False),
        "write to a sink": (lambda: YAMLParametersWriter().write(P({"a": {"b": 1}}), CharSink.to_file(d / "w.params")), False),
        "write bytes": (lambda: YAMLParametersWriter().write(P({"a": b"x"}), d / "w.params"), True),
        "path list": (lambda: P({"p": str(d / "paths")}).path_list_from_file("p"), False),
        "missing path list": (lambda: P({"p": str(d / "nowhere")}).path_list_from_file("p"), True),
        "path list in another encoding": (lambda: P({"p": str(d / "latin")}).path_list_from_file("p"), True),
        "path map": (lambda: P({"p": str(d / "map")}).path_map_from_file("p"), False),
        "bad path map": (lambda: P({"p": str(d / "badmap")}).path_map_from_file("p"), True),
        "path map in another encoding": (lambda: P({"p": str(d / "latin")}).path_map_from_file("p"), True),
        "pickled object": (lambda: P({"p": str(d / "obj")}).pickled_object_from_file("p"), False),
        "bad pickled object": (lambda: P({"p": str(d / "badobj")}).pickled_object_from_file("p"), True),
        "lines": (lambda: file_lines_to_set(d / "paths"), False),
        "lines in another encoding": (lambda: file_lines_to_set(d / "latin"), True),
        "read file map": (lambda: read_doc_id_to_file_map(CharSource.from_file(d / "map")), False),
        "read bad file map": (lambda: read_doc_id_to_file_map(CharSource.from_file(d / "badmap")), True),
        "write file map": (lambda: write_doc_id_to_file_map({"a": d / "x"}, CharSink.to_file(d / "new")), False),
        "write bad file map": (lambda: write_doc_id_to_file_map({"a": None}, CharSink.to_file(d / "new")), True),
        "store on a bad map": (lambda: kv.KeyValueSource.from_doc_id_to_file_map(CharSource.from_file(d / "badmap")).__enter__(), True),
        "store which is no zip": (lambda: kv.KeyValueSource.zip_bytes_source(d / "map").__enter__(), True),
        "tar which is no tar": (lambda: kv.KeyValueLinearSource.byte_linear_source_from_tar_gz(d / "map").__enter__(), True),
        "tgz without the entry": (lambda: CharSource.from_file_in_tgz(d / "t.tar.gz", "nothing").read_all(), True),
        "tgz directory": (lambda: CharSource.from_file_in_tgz(d / "t.tar.gz", "dir").read_all(), True),
        "zip without the entry": (lambda: ByteSource.from_file_in_zip(d / "s.zip", "nothing").read(), True),
        "file in another encoding": (lambda: CharSource.from_file(d / "latin").read_all(), True),
        "checkpoints": (checkpoints, False),
"split": (lambda: split_key_value_store.main(P({"input": inp, "num_slices": 2, "output_dir": str(d / "slices"), "random_seed": 1})), False),
"explicit split": (lambda: split_key_value_store.main(P({"input": inp, "explicit_split": {"one": {"keys_file": str(d / "keys1"), "output_file": str(d / "o1.zip")}, "two": {"keys_file": str(d / "keys2"), "output_file": str(d / "o2.zip")}}})), False),
        "explicit split which is not exhaustive": (lambda: split_key_value_store.main(P({"input": inp, "explicit_split": {"one": {"keys_file": str(d / "keys1"), "output_file": str(d / "o1.zip")}}})), True),
        "explicit split of absent keys": (lambda: split_key_value_store.main(P({"input": inp, "explicit_split": {"one": {"keys_file": str(d / "paths"), "output_file": str(d / "o1.zip")}, "two": {"keys_file": str(d / "map"), "output_file": str(d / "o2.zip")}}})), True),
        "join": (lambda: join_key_value_stores.main(P({"input_store_list_file": str(d / "stores"), "output": out})), False),
        "join with duplicates": (lambda: join_key_value_stores.main(P({"input_store_list_file": str(d / "stores2"), "output": out})), True),
        "join with a missing store": (lambda: join_key_value_stores.main(P({"input_store_list_file": str(d / "stores3"), "output": out})), True),
        "downsample": (lambda: downsample_key_value_store.main(P({"input": inp, "num_to_sample": 2, "output_zip_path": str(d / "sampled.zip")})), False),
        "downsample to a directory": (lambda: downsample_key_value_store.main(P({"input": inp, "num_to_sample": 2, "output_zip_path": str(d / "dir")})), True),
        "directory to store": (lambda: directory_to_key_value_store.main(P({"input_directory": str(d / "dir"), "output": out})), False),
        "tar to zip": (argv(tar_gz_to_zip, d / "t.tar.gz"), False),
        "tar to zip unstreamed": (argv(tar_gz_to_zip, d / "t.tar.gz", "--dont-stream"), False),
        "bad tar to zip": (argv(tar_gz_to_zip, d / "bad.tar.gz"), True),
        "text at offsets": (argv(text_at_offsets, d / "paths", "0", "2"), False),
        "text at offsets in another encoding": (argv(text_at_offsets, d / "latin", "0", "2"), True),
"empty directory": (lambda: P({"p": str(d / "dir")}).creatable_empty_directory("p", delete=True), False),
        "empty directory refused": (lambda: P({"p": str(d / "dir")}).creatable_empty_directory("p"), True),
    }


CALLS = (
    "store whose keys cannot be read", "text store whose keys cannot be read", "wrapped store whose keys cannot be read", "sink whose keys cannot be read",
    "text sink whose keys cannot be read", "sink whose keys cannot be written", "text sink whose keys cannot be written",
    "sink whose keys cannot be written when adding",
    "load", "load malformed", "load with a missing include", "load with a malformed include", "load with a cycle", "load a scalar", "load with a scalar include",
    "load nothing", "load a directory", "write", "write to a sink", "write bytes", "path list", "missing path list",
    "path list in another encoding", "path map", "bad path map", "path map in another encoding", "pickled object", "bad pickled object", "lines",
    "lines in another encoding", "read file map", "read bad file map", "write file map", "write bad file map", "store on a bad map",
    "store which is no zip", "tar which is no tar", "tgz without the entry", "tgz directory", "zip without the entry", "file in another encoding",
    "checkpoints", "split", "explicit split", "explicit split which is not exhaustive", "explicit split of absent keys", "join", "join with duplicates",
    "join with a missing store", "downsample", "downsample to a directory", "directory to store", "tar to zip", "tar to zip unstreamed", "bad tar to zip", "text at offsets",
    "text at offsets in another encoding", "empty directory", "empty directory refused",
)


def gen_calls(tier):
    for a in CALLS:
        yield (a,)
    for a in CALLS:
        yield (a, a)
    if thorough(tier):
        for a in CALLS:
            for b in CALLS:
                if a != b:
                    yield (a, b)


def run_calls(case, t):
    t.state(case)
    keep = []
    for i, name in enumerate(case):
        d = Path(t.dir) / str(i)
        d.mkdir()
        os.chdir(d)
        table = calls(d, t)
        if i == 0 and len(case) == 1 and set(table) != set(CALLS):
            raise RuntimeError(f"the lists of calls differ: {set(table) ^ set(CALLS)}")
        fn, fails = table[name]
        with Watch(t, f"the call '{name}'", fails):
            if fails:
                try:
                    keep.append(fn())
                except (Exception, SystemExit) as e:
                    t.outcome("raised " + type(e).__name__)
                else:
                    t.fail(f"no exception from the call '{name}'")
                del keep[:]
            else:
                keep.append(t.call(fn, f"the call '{name}'"))


# --- faults -----------------------------------------------------------------------------
def gen_faults(tier):
    for name in jobs.jobs():
        for mode in ("stays", "once"):
            for part in range(4):
                yield (name, mode, part)


def run_faults(case, t):
    """A write, or a creating, changing or removing call, fails: what was opened is released all the same."""
    name, mode, part = case
    job = jobs.jobs()[name]
    base = Path(t.dir)
    jobs.prepared(base / "counted", job[0])
    with faults.Disk(faults.WRITING, buffer=16) as disk:
        job[1](base / "counted")()
    gc.collect()
    gc.disable()  # from here on only what one call leaves behind is collected, after it
    try:
        for at in range(part, disk.count, 4):
            t.state((name, mode, at))
            d = base / str(at)
            jobs.prepared(d, job[0])
            before = descriptors()
            with faults.Disk(faults.WRITING, at, mode, buffer=16):
                try:
                    job[1](d)()
                except (Exception, SystemExit) as e:
                    t.outcome("raised " + type(e).__name__)
            gc.collect(0)
            t.eq(descriptors(), before, f"open file descriptors after the call '{name}', effect {at} of which failed")
    finally:
        gc.enable()


SPACES = [
    Space("sources", gen_sources, run_sources, lambda tier: "11 kinds of source x 3 contents x all sequences of up to %d of 9 uses" % (2 if tier == "quick" else 3), tmp=True),
    Space("two readers", gen_overlap, run_overlap, "11 kinds of source x all interleavings of opening and closing two readers", tmp=True),
    Space("sinks", gen_sinks, run_sinks, lambda tier: "6 kinds of sink x all sequences of up to %d of 6 uses" % (2 if tier == "quick" else 3), tmp=True),
    Space("stores", gen_stores, run_stores, lambda tier: "11 kinds of store x all sequences of up to %d of 10 sessions" % (2 if tier == "quick" else 3), tmp=True),
    Space("store sinks", gen_store_sinks, run_store_sinks, lambda tier: "4 kinds of sink x all sequences of 1-2 sessions of up to %d of 5 operations" % (1 if tier == "quick" else 2), tmp=True),
    Space("calls", gen_calls, run_calls, lambda tier: "59 calls that open files, succeeding or failing, alone and twice" + ("" if tier == "quick" else ", and all pairs"), tmp=True),
    Space("full disks", gen_faults, run_faults, "50 calls that write x every byte written and every creating, changing or removing call failing once or from then on", tmp=True),
]
