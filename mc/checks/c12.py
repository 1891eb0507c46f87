"""C12 failing and interrupted puts: every fault at every point of short sessions."""
import itertools
import zipfile
from pathlib import Path

from mc.core import Space, thorough, seqs, Violation
from mc.checks.c11 import read_back, enc


class Boom(Exception):
    pass


FAULTS = ("none", "wrong type", "wrong type list", "value None", "key None", "unencodable", "file-name function",
          "file-name interrupt", "open", "open interrupt", "write", "write interrupt")


class Injector:
    """Raises from the zip layer when an entry (not a key list) is opened or written."""

    def __init__(self):
        self.armed = None
        self.fired = False
        self.names = None

    def __enter__(self):
        self.o_open = zipfile.ZipFile.open
        self.wf = getattr(zipfile, "_ZipWriteFile", None)
        self.o_write = self.wf.write if self.wf is not None else None
        inj = self

        def open_(zf, name, mode="r", *a, **k):
            n = name.filename if isinstance(name, zipfile.ZipInfo) else name
            inj.current = n
            if mode == "w" and inj.armed in ("open", "open interrupt") and n == inj.target:
                kind, inj.armed, inj.fired = inj.armed, None, True
                raise KeyboardInterrupt() if "interrupt" in kind else OSError(28, "No space left on device")
            return inj.o_open(zf, name, mode, *a, **k)

        def write_(f, data):
            if inj.armed in ("write", "write interrupt") and f._zinfo.filename == inj.target:
                kind, inj.armed, inj.fired = inj.armed, None, True
                inj.o_write(f, bytes(data)[: len(data) // 2])
                raise KeyboardInterrupt() if "interrupt" in kind else OSError(28, "No space left on device")
            return inj.o_write(f, data)

        zipfile.ZipFile.open = open_
        if self.wf is not None:
            self.wf.write = write_
        return self

    def __exit__(self, *a):
        zipfile.ZipFile.open = self.o_open
        if self.wf is not None:
            self.wf.write = self.o_write


def gen(tier):
    """(kind, appending to a store with 'old'?, puts (key, fault), body raises?)"""
    keys = ("a", "b")
    ops = [(k, f) for k in keys for f in FAULTS]
    for kind in ("char", "bytes"):
        for append in (False, True):
            for end in ("normal", "raise", "interrupt"):
                yield (kind, append, (), end)
                for h in seqs(ops, 1, 2):
                    if (end == "normal" or h[0][1] == "none" or len(h) == 1) and (kind, h[0][1]) != ("bytes", "unencodable"):
                        yield (kind, append, h, end)
    # longer: one or two faults anywhere in a session of 3 or 4 puts
    base = ["none"]
    for n in (3,) if not thorough(tier) else (3, 4):
        for ks in itertools.product(("a", "b", "c"), repeat=n):
            for pos in itertools.combinations(range(n), 2):
                for f1, f2 in itertools.product(FAULTS, repeat=2):
                    if not thorough(tier) and (f1 != f2 and "none" not in (f1, f2)):
                        continue
                    fs = ["none"] * n
                    fs[pos[0]], fs[pos[1]] = f1, f2
                    kind = "char" if (pos[0] + len(f1)) % 2 else "bytes"
                    yield (kind, bool(len(f2) % 2), tuple(zip(ks, fs)), "normal")


def run(case, t):
    from vistautils.key_value import KeyValueSink, KeyValueSource

    kind, append, puts, end = case
    path = Path(t.dir) / "s.zip"
    store = {}
    t.state(case)
    bad_name = {"on": None}

    def filename(k):
        if bad_name["on"] == "file-name function":
            raise Boom("file name")
        if bad_name["on"] == "file-name interrupt":
            raise KeyboardInterrupt()
        return "f/" + k

    mk = KeyValueSink.zip_character_sink if kind == "char" else KeyValueSink.zip_bytes_sink
    src = KeyValueSource.zip_character_source if kind == "char" else KeyValueSource.zip_bytes_source
    with Injector() as inj:
        if append:
            with mk(path, filename_function=filename) as s:
                s.put("old", enc(kind, "old value"))
                s.put("older", enc(kind, ""))
            store = {"old": enc(kind, "old value"), "older": enc(kind, "")}
        sink = mk(path, filename_function=filename, overwrite=not append)
        stop = {"raise": Boom("body"), "interrupt": KeyboardInterrupt("body")}.get(end)
        try:
            with sink as s:
                for n, (k, fault) in enumerate(puts):
                    value = enc(kind, f"value {n} of {k} " * 3)
                    key = k
                    if fault == "wrong type":
                        value = 5
                    elif fault == "wrong type list":
                        value = [value]
                    elif fault == "value None":
                        value = None
                    elif fault == "key None":
                        key = None
                    elif fault == "unencodable":
                        if kind == "bytes":
                            value = 1.5
                        else:
                            value = "ab\ud800"
                    elif fault.startswith("file-name"):
                        bad_name["on"] = fault
                    elif fault != "none":
                        inj.armed, inj.fired, inj.target = fault, False, "f/" + k
                    w = f"put {n + 1} of {case}"
                    dup = k in store
                    t.ops += 1
                    try:
                        s.put(key, value)
                        failed = None
                    except (Exception, KeyboardInterrupt) as e:
                        failed = e
                    bad_name["on"] = None
                    inj.armed = None
                    if fault == "none" and not dup:
                        if failed is not None:
                            raise Violation(f"{w} failed: {type(failed).__name__}: {failed}")
                        store[k] = value
                    elif failed is None:
                        raise Violation(f"{w} did not raise")
                    elif not dup:
                        want = {"file-name function": Boom, "file-name interrupt": KeyboardInterrupt, "open": OSError,
                                "open interrupt": KeyboardInterrupt, "write": OSError,
                                "write interrupt": KeyboardInterrupt}.get(fault, Exception)
                        if not isinstance(failed, want):
                            raise Violation(f"{w}: expected {want.__name__}, got {type(failed).__name__}: {failed}")
                    t.outcome(f"{fault}{' duplicate' if dup else ''}: {type(failed).__name__ if failed else 'put'}")
                if stop is not None:
                    raise stop
            reached = None
        except (Boom, KeyboardInterrupt) as e:
            reached = e
        t.is_(reached, stop, f"what reaches the caller of {case}")
    with t.call(lambda: src(path, filename_function=filename).__enter__(), f"opening the store after {case}") as s2:
        pass
    with src(path, filename_function=filename) as s2:
        keys = s2.keys()
        t.eq(None if keys is None else set(keys), set(store), f"keys after {case}")
        for k, v in store.items():
            t.same(s2[k], v, f"value of {k!r} after {case}")
        got = list(s2.items())
        t.eq((len(got), dict(got)), (len(store), store), f"items after {case}")
    with zipfile.ZipFile(path) as z:
        t.is_(z.testzip(), None, f"integrity of the archive after {case}")
    # the store can be appended to
    with mk(path, filename_function=filename, overwrite=False) as s:
        for k in ("a", "b", "new"):
            if k in store:
                t.raises(Exception, lambda: s.put(k, enc(kind, "again")), f"duplicate put of {k!r} after {case}")
            else:
                t.call(lambda: s.put(k, enc(kind, "later")), f"appending {k!r} after {case}")
                store[k] = enc(kind, "later")
    with src(path, filename_function=filename) as s2:
        t.eq(dict(s2.items()), store, f"the store after {case} and appending")


LISTS = ("raises", "interrupted", "raises after writing", "open", "open interrupt", "write", "write interrupt", "unencodable key")


def gen_lists(tier):
    """A session whose key list cannot be written, or read, and one after it."""
    top = 3 if not thorough(tier) else 5
    for kind in ("char", "bytes"):
        for fault in LISTS:
            for n in range(top):
                for m in range(top):
                    for again in ("same sink", "new sink"):
                        for end in ("normal", "raise"):
                            for size in (1, 400):
                                yield ("written", kind, fault, n, m, again, end, size)
        for fault in ("raises", "interrupted", "damaged"):
            for n in range(1, top):
                for m in range(top):
                    for again in ("same sink", "new sink"):
                        yield ("read", kind, fault, n, m, again, "normal", 1)


def run_lists(case, t):
    from vistautils.key_value import KeyValueSink, KeyValueSource

    when, kind, fault, n, m, again, end, size = case
    path = Path(t.dir) / "s.zip"
    t.state(case)
    broken = {"on": False}

    def fail(where):
        if broken["on"] and fault.startswith(where):
            if "interrupted" in fault:
                raise KeyboardInterrupt()
            raise Boom("key list")

    def keys_in(z):
        if when == "read":
            fail("raises"), fail("interrupted")
        try:
            return set(filter(None, z.read("list").decode("utf-8").split(",")))
        except KeyError:
            return None

    def keys_out(z, keys):
        if when == "written" and fault != "raises after writing":
            fail("raises"), fail("interrupted")
        z.writestr("list", ",".join(sorted(keys)))
        if when == "written":
            fail("raises after")

    custom = fault in ("raises", "interrupted", "raises after writing")
    mk = KeyValueSink.zip_character_sink if kind == "char" else KeyValueSink.zip_bytes_sink
    src = KeyValueSource.zip_character_source if kind == "char" else KeyValueSource.zip_bytes_source
    functions = dict(keys_in_function=keys_in, keys_out_function=keys_out) if custom else {}
    make = lambda **kw: mk(path, **functions, **kw)
    read = lambda: src(path, **({"keys_function": keys_in} if custom else {}))

    def value(k):
        return enc(kind, f"{k} " * size)

    def session(sink, names, stop=None):
        with sink as s:
            for k in names:
                s.put(k, value(k))
            if stop:
                raise stop

    def check(names, w):
        with t.call(lambda: read().__enter__(), f"opening {w}") as s:
            pass
        with read() as s:
            t.eq(set(s.keys() or ()), set(names), f"keys of {w}")
            t.eq(dict(t.call(lambda: list(s.items()), f"items of {w}") if s.keys() is not None else ()), {k: value(k) for k in names}, f"items of {w}")
        with zipfile.ZipFile(path) as z:
            t.is_(z.testzip(), None, f"integrity of {w}")

    first = [f"first{i}" for i in range(n)]
    second = [f"s{i}" for i in range(m)]
    with Injector() as inj:
        if when == "read":
            session(make(), first)
            whole = path.read_bytes()
            sink = make(overwrite=False)
            if fault == "damaged":
                with zipfile.ZipFile(path, "w") as z:
                    z.writestr("__keys", b"\xff\xfe")
                bad = path.read_bytes()
            broken["on"] = True
            t.raises((Exception, KeyboardInterrupt), lambda: session(sink, second), f"{case}")
            broken["on"] = False
            t.same(path.read_bytes(), bad if fault == "damaged" else whole, f"the archive after {case}")
            if fault == "damaged":
                path.write_bytes(whole)
            if again == "new sink":
                sink = make(overwrite=False)
            t.call(lambda: session(sink, second), f"the session after {case}")
            check(first + second, f"the store after {case}")
            return
        sink = make()
        if fault == "unencodable key":
            first = first + ["ab\ud800"]
            sink = mk(path, filename_function=lambda k: "f" + k.encode("utf-16", "surrogatepass").hex())
            read = lambda: src(path, filename_function=lambda k: "f" + k.encode("utf-16", "surrogatepass").hex())
        elif not custom:
            inj.armed, inj.target = fault, "__keys"
        broken["on"] = True
        stop = Boom("body") if end == "raise" else None
        t.raises((Exception, KeyboardInterrupt), lambda: session(sink, first, stop), f"{case}")
        broken["on"] = False
        inj.armed = None
        with t.call(lambda: zipfile.ZipFile(path), f"opening the archive after {case}") as z:
            if fault not in ("write", "write interrupt"):
                t.is_(z.testzip(), None, f"integrity of the archive after {case}")
            if "unencodable" not in fault:
                for k in first:
                    t.same(t.call(lambda: z.read(k), f"reading entry {k!r} after {case}"), value(k) if kind == "bytes" else value(k).encode("utf-8"),
                           f"entry {k!r} after {case}")
        if again == "new sink":
            sink = make() if fault != "unencodable key" else mk(path, filename_function=lambda k: "f" + k.encode("utf-16", "surrogatepass").hex())
        t.call(lambda: session(sink, second), f"the session after {case}")
        del sink
        check(second, f"the store after {case} and another session")


SPACES = [
    Space("faults", gen, run,
          lambda tier: "12 kinds of fault at every put of all sessions of up to 2 puts over 2 keys, two faults at all "
          "positions of sessions of 3" + (" and 4" if thorough(tier) else "") + " puts over 3 keys; 3 endings; append and overwrite",
          tmp=True),
    Space("key lists", gen_lists, run_lists,
          lambda tier: "8 ways in which writing the key list fails and 3 in which reading it does, sessions of 0-%d puts, then another of 0-%d "
          "through the same sink or a new one" % ((4, 4) if thorough(tier) else (2, 2)), tmp=True),
]
