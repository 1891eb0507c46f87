"""C11 zip key-value stores over histories of sessions."""
import itertools
import json
from pathlib import Path

from mc.core import Space, thorough, seqs, Violation
from mc import many


# --- custom functions the caller may supply -----------------------------------------------

def prefixed(k):
    return "data/" + k


def mangled(k):
    return k[::-1] + ".txt"


def json_keys_in(z):
    try:
        return frozenset(json.loads(z.read("meta/keys.json").decode("utf-8")))
    except KeyError:
        return None


def json_keys_out(z, keys):
    z.writestr("meta/keys.json", json.dumps(sorted(keys)))


CONFIGS = {
    "plain": {},
    "prefixed": {"filename_function": prefixed},
    "mangled": {"filename_function": mangled},
    "json": {"keys": (json_keys_in, json_keys_out)},
    "json-prefixed": {"filename_function": prefixed, "keys": (json_keys_in, json_keys_out)},
}


def make_sink(kind, path, config, **kw):
    from vistautils.key_value import KeyValueSink

    c = CONFIGS[config]
    if "filename_function" in c:
        kw["filename_function"] = c["filename_function"]
    if "keys" in c:
        kw["keys_in_function"], kw["keys_out_function"] = c["keys"]
    f = KeyValueSink.zip_character_sink if kind == "char" else KeyValueSink.zip_bytes_sink
    return f(path, **kw)


def make_source(kind, path, config):
    from vistautils.key_value import KeyValueSource

    c = CONFIGS[config]
    kw = {}
    if "filename_function" in c:
        kw["filename_function"] = c["filename_function"]
    if "keys" in c:
        kw["keys_function"] = c["keys"][0]
    f = KeyValueSource.zip_character_source if kind == "char" else KeyValueSource.zip_bytes_source
    return f(path, **kw)


def enc(kind, v):
    return v if kind == "char" else v.encode("utf-8")


def read_back(t, src, want, absent, kind, what):
    """Compare a random-access source, inside its context, with the dict it should be."""
    keys = src.keys()
    t.eq(None if keys is None else (len(keys), set(keys)), (len(want), set(want)), f"keys() of {what}")
    for k, v in want.items():
        t.same(src[k], v, f"{what}[{k!r}]")
        t.same(src.get(k), v, f"{what}.get({k!r})")
        t.same(src.get(k, "other"), v, f"{what}.get({k!r}, default)")
    for k in absent:
        if k in want:
            continue
        t.raises(KeyError, lambda: src[k], f"{what}[{k!r}]")
        t.is_(src.get(k), None, f"{what}.get({k!r})")
        for d in (enc(kind, "dflt"), enc(kind, ""), None, 0):
            t.is_(src.get(k, d), d, f"{what}.get({k!r}, {d!r})")
    got = list(src.items())
    t.eq((len(got), dict(got)), (len(want), want), f"items() of {what}")
    t.eq(list(src.items()), got, f"items() again of {what}")
    calls = []
    for f in (lambda k: False, lambda k: k <= "a", lambda k: k > "a"):
        def flt(k, f=f):
            calls.append(k)
            return f(k)

        got = list(src.items(flt))
        t.eq((len(got), dict(got)), (len([k for k in want if f(k)]), {k: v for k, v in want.items() if f(k)}),
             f"filtered items() of {what}")
        t.eq(dict(src.items(key_filter=f)), dict(got), f"items(key_filter=) of {what}")
    t.true(all(c in want for c in calls), f"the filter of {what} was asked about {calls}")
    i1, i2 = iter(src.items()), iter(src.items())
    out1, out2 = [], []
    for _ in want:
        out1.append(next(i1))
        out2.append(next(i2))
    t.eq(out1, out2, f"two iterators over {what}, alternately")
    t.eq((next(i1, None), next(i2, None)), (None, None), f"end of two iterators over {what}")


def open_and_compare(t, kind, path, config, want, absent, what):
    src = make_source(kind, path, config)
    for f in (lambda: src.keys(), lambda: src["a"], lambda: src.get("a"), lambda: list(src.items())):
        t.raises(Exception, f, f"using {what} before entering it")
    with src as s:
        t.is_(s, src, f"entering {what}")
        read_back(t, s, want, absent, kind, what)
    for f in (lambda: src.keys(), lambda: src["a"], lambda: src.get("a"), lambda: list(src.items())):
        t.raises(Exception, f, f"using {what} after leaving it")
    with src as s:  # a source can be entered again
        t.eq({k: s[k] for k in want}, want, f"{what}, entered again")


class _Body(Exception):
    pass


def session(t, sink, kind, ops, store, what, how=0):
    """Run one session of puts against sink; store is the model dict and is updated."""
    t.raises(Exception, lambda: sink.put("zz", enc(kind, "zz")), f"put outside the context ({what})") if how % 2 else None
    with sink as s:
        t.is_(s, sink, f"entering a sink ({what})")
        for n, (k, v) in enumerate(ops):
            val = enc(kind, v)

            def put():
                if (n + how) % 2:
                    s[k] = val
                else:
                    s.put(k, val)

            if k in store:
                t.raises(Exception, put, f"duplicate put of {k!r} ({what})")
                t.outcome("duplicate refused")
            else:
                t.call(put, f"put of {k!r} ({what})")
                store[k] = val
    t.raises(Exception, lambda: sink.put("zz", enc(kind, "zz")), f"put after the session ({what})")


OPS = tuple((k, v) for k in ("a", "a/b") for v in ("", "x"))


def gen_hist(tier):
    """histories of sessions: (overwrite?, same sink object reused?, puts)"""
    puts2 = list(seqs(OPS, 0, 2))
    few = [(), (("a", "x"),), (("a/b", ""),), (("a", "y"), ("a/b", "z")), (("a", "1"), ("a", "2"))]
    for kind in ("char", "bytes"):
        for ow in (True, False):
            for p in seqs(OPS, 0, 3 if not thorough(tier) else 4):
                yield (kind, "plain", "new", ((ow, p),))
        for ow1, ow2 in itertools.product((True, False), repeat=2):
            for p1 in (few if not thorough(tier) else puts2):
                for p2 in puts2:
                    yield (kind, "plain", "new", ((ow1, p1), (ow2, p2)))
        for ow in (True, False):  # the same sink object entered several times
            for p1, p2 in itertools.product(few, puts2):
                yield (kind, "plain", "same", ((ow, p1), (ow, p2)))
            for p in itertools.product(few, repeat=3):
                yield (kind, "plain", "same", tuple((ow, q) for q in p))
        for ows in itertools.product((True, False), repeat=3):
            for p in itertools.product(few, repeat=3):
                yield (kind, "plain", "new", tuple(zip(ows, p)))
        for config in CONFIGS:
            for ows in itertools.product((True, False), repeat=2):
                for p in itertools.product(few, repeat=2):
                    yield (kind, config, "new", tuple(zip(ows, p)))
    if thorough(tier):
        for ows in itertools.product((True, False), repeat=4):
            for p in itertools.product(few, repeat=4):
                yield ("char" if ows[0] else "bytes", "plain", "new", tuple(zip(ows, p)))


def run_hist(case, t):
    kind, config, reuse, sessions = case
    path = Path(t.dir) / "store.zip"
    store = {}
    sink = None
    # one source made before anything was written, opened after every session
    again = make_source(kind, path, config)
    for i, (ow, ops) in enumerate(sessions):
        w = f"session {i + 1} of {case}"
        if sink is None or reuse == "new":
            sink = make_sink(kind, path if i % 2 else Path("store.zip"), config, overwrite=ow)
        if ow:
            store = {}
        session(t, sink, kind, ops, store, w, i)
        t.state((kind, tuple(sorted(store.items()))))
        open_and_compare(t, kind, path, config, store, ("a", "a/b", "b", "", "a/", "data/a", "missing"), f"the store after {w}")
        with again as s:
            keys = s.keys()
            t.eq(None if keys is None else set(keys), set(store), f"keys() of a source opened again after {w}")
            for k in ("a", "a/b", "b"):
                t.eq(s.get(k, "absent"), store.get(k, "absent"), f"get({k!r}) from a source opened again after {w}")
            t.eq(dict(s.items()), store, f"items() of a source opened again after {w}")
    t.outcome(f"{len(store)} keys after {len(sessions)} sessions")


KEYS = ("k", "a.txt", "dir/a", "dir/dir/b", "../up", "/abs", "with space", " lead", "trail ", "tab\tkey", "\u00e9\u4e2d",
        "\U0001f600", "a\rb", "x=1&y", "keys", "__keys2", "__keys/x", "0", "None", "C:\\x", "very/" + "long" * 60, "%s", "a'b\"c", "e\u0301", "\u00e9", "K", "\u212a", "\ufb01", "fi", "A.TXT", "\uff4b")
VALS = ("", "v", "line\nline\r\nx\r", "\u00e9\U0001f600\u0000", " \t", "x" * 100_000, "\ufeffbom", "0", "\n")


def gen_wide(tier):
    for kind in ("char", "bytes"):
        for config in CONFIGS:
            for k in range(len(KEYS)):
                for v in range(len(VALS)):
                    if v == k % len(VALS) or thorough(tier) or config == "plain":
                        yield (kind, config, ((k, v),))
        for k1, k2 in itertools.permutations(range(len(KEYS)), 2):
            yield (kind, "plain", ((k1, k2 % len(VALS)), (k2, k1 % len(VALS))))
        yield (kind, "plain", tuple((k, (k + 1) % len(VALS)) for k in range(len(KEYS))))
        yield (kind, "json-prefixed", tuple((k, (k + 1) % len(VALS)) for k in range(len(KEYS))))


def run_wide(case, t):
    kind, config, puts = case
    path = Path(t.dir) / "store.zip"
    store = {}
    t.state(case)
    ops = [(KEYS[k], VALS[v]) for k, v in puts]
    session(t, make_sink(kind, path, config, overwrite=bool(len(puts) % 2)), kind, ops, store, f"putting {case}")
    open_and_compare(t, kind, path, config, store, ("missing", "a", "dir", "dir/"), f"the store {case}")


RAW = (bytes(range(256)), b"\xff\xfe", b"\x00" * 70000, b"PK\x05\x06" + b"\x00" * 18, b"\r\n\r")


def gen_raw(tier):
    for i in range(len(RAW)):
        for mode in (True, False):
            yield (i, mode)


def run_raw(case, t):
    i, ow = case
    path = Path(t.dir) / "store.zip"
    t.state(case)
    want = {}
    with make_sink("bytes", path, "plain", overwrite=ow) as s:
        for j in range(i + 1):
            s.put(f"k{j}", RAW[j])
            want[f"k{j}"] = RAW[j]
    open_and_compare(t, "bytes", path, "plain", want, ("missing",), f"binary store {case}")


# --- keys which the format of the key list cannot carry -----------------------------------

AWKWARD = ("a\nb", "", "a\x00b", "\n", "__keys")


def gen_awkward(tier):
    for i in range(len(AWKWARD)):
        yield ("put", AWKWARD[i])
    yield ("put two", "")
    yield ("get", "__keys")


def run_awkward(case, t):
    """A put of such a key must either be refused or be read back."""
    how, key = case
    path = Path(t.dir) / "store.zip"
    store = {}
    t.state(case)
    with make_sink("char", path, "plain") as s:
        if how == "put two":
            s.put("b", "other")
            store["b"] = "other"
        if how != "get":
            try:
                s.put(key, "value")
                store[key] = "value"
            except ValueError:
                t.outcome("refused")
    with make_source("char", path, "plain") as src:
        read_back(t, src, store, (key, "missing", "a", "b"), "char", f"the store after {case}")


SPACES = [
    Space("session histories", gen_hist, run_hist,
          lambda tier: "all histories of up to 3 sessions (append/overwrite, new or reused sink, up to 2-3 puts over 2 keys "
          "and 2 values, duplicates included), text and binary, 5 configurations" + ("; 4 sessions" if thorough(tier) else ""), tmp=True),
    Space("keys and values", gen_wide, run_wide, "all pairs of 23 unusual keys, each with each of 9 unusual values", tmp=True),
    Space("binary values", gen_raw, run_raw, "5 binary values in both modes", tmp=True),
    Space("awkward keys", gen_awkward, run_awkward, "keys the newline-separated key list cannot carry", tmp=True),
]

SPACES += many.BY_CHECK["C11"]
