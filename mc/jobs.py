"""Everything vistautils does that writes files, as jobs: used by C39 and C40.

A job is (prepare(d), make(d) -> operation, result(d)): prepare writes the inputs under
d/in (never touched again), make creates the object that writes, the operation writes, and
result reads back what the job is there to write, in a form that does not depend on time
stamps.  Jobs only use the public interface.
"""
import contextlib
import io
import os
import sys
import tarfile
import zipfile
from pathlib import Path

TEXT = "one\ntwo é\n"
BYTES = bytes(range(40))


def entries(path):
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        out = {}
        for n in names:
            data = z.read(n)
            out[n] = sorted(data.decode("utf-8").split("\n")) if n == "__keys" else data
        return len(names), out


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d)] = None
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def argv(module, *args):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), arguments(*args):
        module.main()


ALTERED = []  # what became of the arguments and streams of a program, where it is not as it was (for C45)


@contextlib.contextmanager
def arguments(*args):
    old = sys.argv
    given = sys.argv = ["x", *map(str, args)]
    streams = sys.stdin, sys.stdout, sys.stderr
    try:
        yield
    finally:
        if sys.argv is not given or given != ["x", *map(str, args)]:
            ALTERED.append(f"the arguments, which were {['x', *map(str, args)]}, are {sys.argv}")
        if streams != (sys.stdin, sys.stdout, sys.stderr):
            ALTERED.append("the standard streams were replaced")
        sys.argv = old
        sys.stdin, sys.stdout, sys.stderr = streams


def nothing(d):
    pass


def store(d):
    with zipfile.ZipFile(d / "in" / "s.zip", "w") as z:
        for k in "abc":
            z.writestr(k, k.encode() * 5)
        z.writestr("__keys", "a\nb\nc")


def tar(d):
    with tarfile.open(d / "in" / "t.tar.gz", "w:gz") as t:
        for n, c in (("x/a", b"alpha"), ("b", BYTES), ("c", b"")):
            info = tarfile.TarInfo(n)
            info.size = len(c)
            t.addfile(info, io.BytesIO(c))
    (d / "out" / "t.tar.gz").symlink_to(d / "in" / "t.tar.gz")


def P(x):
    from vistautils.parameters import Parameters

    return Parameters.from_mapping(x)


# --- jobs -----------------------------------------------------------------------------
def _file(kind, how, name="f"):
    def make(d):
        from vistautils.io_utils import ByteSink, CharSink

        sink = (CharSink if kind == "text" else ByteSink).to_file(d / "out" / name)
        v = TEXT if kind == "text" else BYTES

        def op():
            if how == "write":
                sink.write(v)
            elif how == "open":
                with sink.open() as f:
                    f.write(v)
            elif how == "pieces":
                with sink.open() as f:
                    f.write(v[:3])
                    f.write(v[3:])
            elif how == "flushed":
                with sink.open() as f:
                    f.write(v[:3])
                    f.flush()
                    f.write(v[3:])
            else:
                f = sink.open()
                try:
                    f.write(v)
                finally:
                    f.close()

        return op

    return make, lambda d: (d / "out" / name).read_bytes()


def _in_zip(how):
    def make(d):
        from vistautils.io_utils import ByteSink

        sink = ByteSink.file_in_zip(d / "out" / "f.zip", "e")

        def op():
            if how == "write":
                sink.write(BYTES)
            else:
                with sink.open() as f:
                    f.write(BYTES[:7])
                    f.write(BYTES[7:])

        return op

    return make, lambda d: entries(d / "out" / "f.zip")


def _zip_sink(kind, sessions, **more):
    def make(d):
        from vistautils.key_value import KeyValueSink

        f = KeyValueSink.zip_character_sink if kind == "text" else KeyValueSink.zip_bytes_sink
        sink = f(d / "out" / "s.zip", **more)

        def op():
            for session in sessions:
                with sink as s:
                    for k in session:
                        s.put(k, k * 5 if kind == "text" else k.encode() * 5)

        return op

    return make, lambda d: entries(d / "out" / "s.zip")


def _directory_sink(kind):
    def prepare(d):
        (d / "out" / "dir").mkdir()

    def make(d):
        from vistautils.key_value import byte_key_value_sink_from_params, char_key_value_sink_from_params

        f = char_key_value_sink_from_params if kind == "text" else byte_key_value_sink_from_params
        sink = f(P({"output": {"type": "directory", "path": str(d / "out" / "dir")}}))

        def op():
            with sink as s:
                s.put("a", "aaa" if kind == "text" else b"aaa")
                s.put("b", "b" if kind == "text" else b"b")

        return op

    def result(d):
        out = tree(d / "out" / "dir")
        out["_index"] = sorted(out["_index"].decode("utf-8").replace(str(d), "D").split("\n"))
        return out

    return prepare, make, result


def _file_map():
    def make(d):
        from vistautils.io_utils import CharSink, write_doc_id_to_file_map

        return lambda: write_doc_id_to_file_map({"a": Path("/x/a"), "b": Path("/x/b é")}, CharSink.to_file(d / "out" / "map"))

    return make, lambda d: (d / "out" / "map").read_bytes()


PARAMS = {"a": {"b": 1, "c": [1, "x", True]}, "d": "two\nlines é", "e": 1.5}


def _parameters(through):
    def make(d):
        from vistautils.io_utils import CharSink
        from vistautils.parameters import YAMLParametersWriter

        p = d / "out" / "w.params"
        return lambda: YAMLParametersWriter().write(P(PARAMS), p if through == "path" else CharSink.to_file(p))

    def result(d):
        from vistautils.parameters import YAMLParametersLoader

        return YAMLParametersLoader(interpolate_environmental_variables=False).load(d / "out" / "w.params").as_nested_dicts()

    return make, result


def _script(name, prepare, params, result):
    def make(d):
        import importlib

        m = importlib.import_module("vistautils.scripts." + name)
        return lambda: m.main(P(params(d)))

    return prepare, make, result


def _split_prepare(d):
    store(d)
    (d / "in" / "k1").write_text("a\n")
    (d / "in" / "k2").write_text("b\nc\n")


def _join_prepare(d):
    for i, ks in enumerate(("ab", "c")):
        with zipfile.ZipFile(d / "in" / f"s{i}.zip", "w") as z:
            for k in ks:
                z.writestr(k, k * 3)
            z.writestr("__keys", "\n".join(ks))
    (d / "in" / "list").write_text(f"{d}/in/s0.zip\n{d}/in/s1.zip\n")


def _dir_prepare(d):
    (d / "in" / "files").mkdir(parents=True)
    for n, c in (("x.txt", b"x"), ("y", BYTES), ("z.txt", b"")):
        (d / "in" / "files" / n).write_bytes(c)


def _slices(d):
    out = {n: entries(d / "out" / "slices" / n) for n in ("0.zip", "1.zip")}
    out["list"] = (d / "out" / "slices" / "_slices.txt").read_text().replace(str(d), "D").split()
    return out


def _tar_to_zip(*args):
    def make(d):
        from vistautils.scripts import tar_gz_to_zip

        return lambda: argv(tar_gz_to_zip, d / "out" / "t.tar.gz", *args)

    return tar, make, lambda d: entries(d / "out" / "t.zip")


def inp(d):
    return {"type": "zip", "path": str(d / "in" / "s.zip")}


def outp(d):
    return {"type": "zip", "path": str(d / "out" / "o.zip")}


def _checkpoints_prepare(d):
    (d / "out" / "cp").mkdir()
    for n in ("a", "b"):
        (d / "out" / "cp" / n).write_bytes(b"")


def _checkpoints(ops):
    def make(d):
        from vistautils.checkpoints import Checkpoints

        c = Checkpoints.from_directory(d / "out" / "cp")

        def op():
            for name in ops:
                if name == "RESET":
                    c.reset_all()
                else:
                    c.set(name)

        return op

    def result(d):
        from vistautils.checkpoints import Checkpoints

        c = Checkpoints.from_directory(d / "out" / "cp")
        return [n for n in ("a", "b", "n", "o") if n in c]

    return make, result


def _stale(kind):
    """Files of an earlier run, which are to be replaced."""

    def prepare(d):
        if kind == "file":
            (d / "out" / "f").write_bytes(b"earlier content, longer than what is written now: " + BYTES * 2)
        elif kind == "zip":
            with zipfile.ZipFile(d / "out" / "s.zip", "w") as z:
                z.writestr("old", b"old" * 10)
                z.writestr("__keys", "old")
        elif kind == "params":
            (d / "out" / "w.params").write_text("old: 1\n" * 1)

    return prepare


def _appended(d):
    with zipfile.ZipFile(d / "out" / "s.zip", "w") as z:
        z.writestr("old", b"old")
        z.writestr("__keys", "old")


def _dirty(d):
    (d / "out" / "dir" / "x").mkdir(parents=True)
    (d / "out" / "dir" / "x" / "f").write_bytes(b"f")
    (d / "out" / "dir" / "g").write_bytes(b"g")


def _accessor(name, **more):
    def make(d):
        # not under fault: requests are made through values read earlier
        p = P({"p": str(d / "out" / "dir" / ("sub" if name != "creatable_empty_directory" else ""))})
        return lambda: getattr(p, name)("p", **more)

    def result(d):
        if name == "creatable_file":
            return (d / "out" / "dir").is_dir()
        return sorted(os.listdir(d / "out" / "dir" / ("sub" if name != "creatable_empty_directory" else "")))

    return make, result


def jobs():
    """name -> (prepare, make, result, can it be repeated after being cut short)"""
    out = {}

    def add(name, prepare, make_result, again=True):
        out[name] = (prepare, *make_result, again)

    def add3(name, three, again=True):
        out[name] = (*three, again)

    for kind in ("text", "bytes"):
        for how in ("write", "open", "pieces", "flushed", "close"):
            add(f"{kind} file, {how}", nothing, _file(kind, how))
        add(f"{kind} file in new directories", nothing, _file(kind, "write", "x/y/f"))
        add(f"{kind} file over another", _stale("file"), _file(kind, "write"))
        add(f"{kind} zip sink", nothing, _zip_sink(kind, ("ab",)))
        add(f"{kind} zip sink, nothing put", nothing, _zip_sink(kind, ("",)))
        add(f"{kind} zip sink, two sessions", nothing, _zip_sink(kind, ("ab", "bc")))
        add(f"{kind} zip sink over another", _stale("zip"), _zip_sink(kind, ("ab",)))
        add(f"{kind} zip sink, added to", _appended, _zip_sink(kind, ("ab",), overwrite=False), again=False)
        add(f"{kind} zip sink, without a key list", nothing, _zip_sink(kind, ("ab",), keys_in_function=None, keys_out_function=None))
        add3(f"{kind} directory sink", _directory_sink(kind), again=False)
    for how in ("write", "open"):
        add(f"entry in a zip, {how}", nothing, _in_zip(how), again=False)
    add("file map", nothing, _file_map())
    add("parameters to a path", nothing, _parameters("path"))
    add("parameters to a sink", nothing, _parameters("sink"))
    add("parameters over others", _stale("params"), _parameters("path"))
    for seed in ({}, {"random_seed": 1}):
        add3(f"split{' shuffled' if seed else ''}", _script("split_key_value_store", store, lambda d, seed=seed: {
            "input": inp(d), "num_slices": 2, "output_dir": str(d / "out" / "slices"), **seed}, _slices))
    add3("explicit split", _script("split_key_value_store", _split_prepare, lambda d: {"input": inp(d), "explicit_split": {
        "one": {"keys_file": str(d / "in" / "k1"), "output_file": str(d / "out" / "o1.zip")},
        "two": {"keys_file": str(d / "in" / "k2"), "output_file": str(d / "out" / "o2.zip")}}},
        lambda d: (entries(d / "out" / "o1.zip"), entries(d / "out" / "o2.zip"))))
    add3("join", _script("join_key_value_stores", _join_prepare, lambda d: {"input_store_list_file": str(d / "in" / "list"), "output": outp(d)},
                         lambda d: entries(d / "out" / "o.zip")))
    add3("downsample", _script("downsample_key_value_store", store, lambda d: {"input": inp(d), "num_to_sample": 2, "output_zip_path": str(d / "out" / "o.zip")},
                               lambda d: entries(d / "out" / "o.zip")))
    add3("directory to store", _script("directory_to_key_value_store", _dir_prepare, lambda d: {"input_directory": str(d / "in" / "files"), "output": outp(d)},
                                       lambda d: entries(d / "out" / "o.zip")))
    add3("tar to zip", _tar_to_zip())
    add3("tar to zip unstreamed", _tar_to_zip("--dont-stream"))
    add("set a checkpoint", nothing, _checkpoints(("n",)))
    add("set checkpoints", _checkpoints_prepare, _checkpoints(("n", "o", "a")))
    add("reset checkpoints", _checkpoints_prepare, _checkpoints(("RESET",)))
    add("reset and set checkpoints", _checkpoints_prepare, _checkpoints(("RESET", "n")))
    add("creatable directory", nothing, _accessor("creatable_directory"))
    add("creatable file", nothing, _accessor("creatable_file"))
    add("creatable empty directory", nothing, _accessor("creatable_empty_directory"))
    add("emptied directory", _dirty, _accessor("creatable_empty_directory", delete=True))
    return out


def prepared(d, prepare):
    """A fresh directory with the inputs of a job, files beside them, and its initial tree."""
    d.mkdir()
    (d / "in").mkdir()
    (d / "out").mkdir()
    (d / "out" / "bystander").write_bytes(b"not to be touched")
    prepare(d)
    return tree(d / "in")


def untouched(t, d, before, what):
    t.eq(tree(d / "in"), before, f"the inputs of {what}")
    p = d / "out" / "bystander"
    t.eq(p.read_bytes() if p.is_file() else None, b"not to be touched", f"a file beside the output of {what}")


def clean(t, d, job, name):
    """The expected result: an undisturbed run."""
    prepare, make, result, _ = job
    before = prepared(d, prepare)
    t.call(lambda: make(d)(), name)
    expected = result(d)
    untouched(t, d, before, name)
    return expected
