"""C14 tar.gz sources and interpreted sources."""
import gzip
import io
import itertools
import tarfile
import zipfile
from pathlib import Path

from mc.core import Space, thorough, seqs, Violation
from mc import many
from mc.checks.c11 import make_sink, read_back, enc

# (name, type, content)
MEMBERS = (
    ("a.txt", "file", "alpha"),
    ("d/b.txt", "file", ""),
    ("d/c.bin", "file", "\u00e9\U0001f600\r\n"),
    ("d", "dir", ""),
    ("link", "symlink", ""),
    ("a.txt", "file", "second version"),
    ("x" * 120 + "/long.txt", "file", "long"),
    ("\u4e2d.txt", "file", "0" * 5000),
    ("pipe.txt", "fifo", ""),
    ("null.txt", "device", ""),
    ("hard.txt", "hardlink", ""),
)

NAME_FILTERS = {
    "all": lambda n: True,
    "none": lambda n: False,
    "txt": lambda n: n.endswith(".txt"),
    "truthy": lambda n: n if n.startswith("d") else "",
}
KEY_FUNCTIONS = {
    "name": lambda n: n,
    "stem": lambda n: n.split("/")[-1].split(".")[0],
    "skip d": lambda n: None if n.startswith("d") else n.upper(),
    "empty": lambda n: "" if n.startswith("a") else n,
    "none": lambda n: None,
    "const": lambda n: "same",
}
KEY_FILTERS = {
    "all": lambda k: True,
    "none": lambda k: False,
    "a": lambda k: "a" in k,
    "not a": lambda k: not k.lower().startswith("a"),
}


def write_tar(path, members, mode="w:gz", fmt=tarfile.PAX_FORMAT):
    with tarfile.open(path, mode, format=fmt) as tar:
        for name, typ, content in members:
            info = tarfile.TarInfo(name)
            data = content.encode("utf-8") if isinstance(content, str) else content
            if typ == "hardlink":
                info.type = tarfile.LNKTYPE
                info.linkname = "a.txt"
                tar.addfile(info)
            elif typ == "dir":
                info.type = tarfile.DIRTYPE
                tar.addfile(info)
            elif typ == "symlink":
                info.type = tarfile.SYMTYPE
                info.linkname = "a.txt"
                tar.addfile(info)
            elif typ in ("fifo", "device"):
                info.type = tarfile.FIFOTYPE if typ == "fifo" else tarfile.CHRTYPE
                tar.addfile(info)
            else:
                info.size = len(data)
                tar.addfile(info, io.BytesIO(data))


def expected(members, nf, kf, kfl):
    out = []
    for name, typ, content in members:
        if typ != "file" or not nf(name):
            continue
        key = kf(name)
        if key is not None and kfl(key):
            out.append((key, content.encode("utf-8")))
    return out


def gen_tar(tier):
    for n in (0, 1, 2):
        for c in itertools.permutations(range(len(MEMBERS)), n):
            yield (c, "pax")
    for c in itertools.permutations(range(6), 3):
        yield (c, "gnu" if c[0] % 2 else "pax")
    yield (tuple(range(len(MEMBERS))), "gnu")
    yield (tuple(reversed(range(len(MEMBERS)))), "pax")
    yield ((0, 1, 2) * 3, "ustar")
    if thorough(tier):
        for c in itertools.permutations(range(6), 4):
            yield (c, "pax")


def run_tar(case, t):
    from vistautils.key_value import KeyValueLinearSource

    c, fmt = case
    members = [MEMBERS[i] for i in c]
    path = Path(t.dir) / "x.tar.gz"
    write_tar(path, members, fmt={"pax": tarfile.PAX_FORMAT, "gnu": tarfile.GNU_FORMAT, "ustar": tarfile.USTAR_FORMAT}[fmt])
    t.state(case)
    for nfn, nf in NAME_FILTERS.items():
        for kfn, kf in KEY_FUNCTIONS.items():
            src = KeyValueLinearSource.byte_linear_source_from_tar_gz(path, key_function=kf, name_filter=nf)
            w = f"{members} with name filter {nfn}, key function {kfn}"
            t.raises(Exception, lambda: list(src.items()), f"items() outside the context of {w}")
            with src as s:
                t.is_(s, src, "entering the source")
                for kfln, kfl in KEY_FILTERS.items():
                    want = expected(members, nf, kf, kfl)
                    got = t.call(lambda: list(s.items(kfl)), f"items of {w}, key filter {kfln}")
                    t.eq(got, want, f"items of {w}, key filter {kfln}")
                t.eq(list(s.items(key_filter=lambda k: True)), expected(members, nf, kf, lambda k: True), f"items of {w} again")
            tsrc = KeyValueLinearSource.str_linear_source_from_tar_gz(path, kf, nf)
            with tsrc as s:
                want = [(k, v.decode("utf-8")) for k, v in expected(members, nf, kf, lambda k: True)]
                t.eq(list(s.items()), want, f"text items of {w}")
                t.outcome(f"{len(want)} pairs")
    # defaults, and several iterators in all interleavings of their steps
    want = expected(members, NAME_FILTERS["all"], KEY_FUNCTIONS["name"], KEY_FILTERS["all"])
    n = len(want)
    if n <= 3:
        for order in set(itertools.permutations([0] * (n + 1) + [1] * (n + 1))) if n < 3 else \
                ([0, 1] * 4, [1, 0] * 4, [0, 0, 1, 1] * 2, [0, 1, 1, 0] * 2, [0, 0, 0, 0, 1, 1, 1, 1], [0, 1, 1, 1, 1, 0, 0, 0]):
            with KeyValueLinearSource.byte_linear_source_from_tar_gz(path) as s:
                its, outs = [iter(s.items()), iter(s.items())], [[], []]
                for i in order:
                    x = next(its[i], None)
                    if x is not None:
                        outs[i].append(x)
                t.eq(outs, [want, want], f"two iterators over {members}, stepped in order {order}")
    with KeyValueLinearSource.byte_linear_source_from_tar_gz(path) as s:
        if n:
            it = iter(s.items())
            t.eq(next(it), want[0], "first pair of an abandoned iteration")
            t.eq(list(s.items()), want, "iteration after an abandoned one")
            t.eq(list(it), want[1:], "the rest of the abandoned iteration")


def gen_plain(tier):
    for mode in ("w:gz", "w", "w:bz2"):
        yield mode


def run_plain(case, t):
    from vistautils.key_value import KeyValueLinearSource

    t.state(case)
    path = Path(t.dir) / "odd name"
    members = MEMBERS[:3]
    write_tar(path, members, mode=case)
    if case != "w:gz":
        t.outcome("not gzipped")
        return  # only gzipped archives are promised
    with KeyValueLinearSource.byte_linear_source_from_tar_gz(path) as s:
        t.eq(list(s.items()), expected(members, *[lambda x: True, lambda x: x, lambda x: True]), "an archive of any name")
    raw = bytes(range(256)) * 40
    write_tar(path, [("r", "file", raw)])
    with KeyValueLinearSource.byte_linear_source_from_tar_gz(path) as s:
        t.eq(list(s.items()), [("r", raw)], "binary content")
    with KeyValueLinearSource.str_linear_source_from_tar_gz(path) as s:
        t.raises(UnicodeDecodeError, lambda: list(s.items()), "text of a member that is not UTF-8")


FUNCTIONS = {
    "upper": lambda k, v: v.upper(),
    "pair": lambda k, v: (k, v),
    "len": lambda k, v: len(v),
    "none": lambda k, v: None,
    "falsy": lambda k, v: 0 if v else "",
}


def gen_interp(tier):
    base = (("a", ""), ("b", "x"), ("c/d", "Yy"), ("e", "0"))
    for kind in ("char", "bytes"):
        for n in range(0, 4):
            for entries in itertools.combinations(base, n):
                for f in FUNCTIONS:
                    for g in ("",) + (tuple(FUNCTIONS)[1:2] if not thorough(tier) else tuple(FUNCTIONS)):
                        if g and f in ("len", "none", "falsy", "pair") and g in ("upper", "len", "falsy"):
                            continue
                        yield (kind, entries, f, g)


def run_interp(case, t):
    from immutablecollections import immutabledict
    from vistautils.key_value import KeyValueSource, KeyValueLinearSource

    kind, entries, f, g = case
    t.state(case)
    d = Path(t.dir)
    calls = []

    def fn(k, v):
        calls.append(k)
        return FUNCTIONS[f](k, v)

    raw = {k: enc(kind, v) for k, v in entries}
    want = {k: FUNCTIONS[f](k, v) for k, v in raw.items()}
    with make_sink(kind, d / "s.zip", "plain") as s:
        for k, v in raw.items():
            s.put(k, v)
    idx = d / "idx"
    for i, (k, v) in enumerate(raw.items()):
        (d / f"v{i}").write_bytes(v.encode() if kind == "char" else v)
    idx.write_text("".join(f"{k}\t{d}/v{i}\n" for i, k in enumerate(raw)))
    if kind == "char":
        bases = [KeyValueSource.zip_character_source(d / "s.zip"), KeyValueSource.from_doc_id_to_file_map(idx)]
    else:
        bases = [KeyValueSource.zip_bytes_source(d / "s.zip"), KeyValueSource.binary_from_doc_id_to_file_map(idx)]
    for b in bases:
        src = KeyValueSource.interpret_values(b, fn)
        w2 = want
        if g:
            src = KeyValueSource.interpret_values(src, FUNCTIONS[g])
            w2 = {k: FUNCTIONS[g](k, v) for k, v in want.items()}
        with src as s:
            t.is_(s, src, "entering an interpreted source")
            w = f"interpreted {case}"
            t.eq(set(s.keys()), set(w2), f"keys of {w}")
            for k, v in w2.items():
                t.same(s[k], v, f"{w}[{k!r}]")
                t.same(s.get(k), v, f"{w}.get({k!r})")
                t.same(s.get(k, "dflt"), v, f"{w}.get({k!r}, default)")
            calls.clear()
            for k in ("missing", "d"):
                t.raises(KeyError, lambda: s[k], f"{w}[{k!r}]")
                t.is_(s.get(k), None, f"{w}.get({k!r})")
                for dflt in ("dflt", 0, "", None):
                    t.is_(s.get(k, dflt), dflt, f"{w}.get({k!r}, {dflt!r})")
            t.eq(calls, [], f"{w}: the function was called for absent keys")
            for flt in (lambda k: True, lambda k: False, lambda k: k > "a"):
                got = list(s.items(flt))
                t.eq((len(got), dict(got)), (sum(map(flt, w2)), {k: v for k, v in w2.items() if flt(k)}), f"items of {w}")
            t.eq(list(s.items()), list(s.items()), f"items of {w} twice")
    write_tar(d / "t.tgz", [(k, "file", v) for k, v in raw.items()] + [("dir", "dir", "")])
    mk = KeyValueLinearSource.str_linear_source_from_tar_gz if kind == "char" else KeyValueLinearSource.byte_linear_source_from_tar_gz
    src = KeyValueLinearSource.interpret_values(mk(d / "t.tgz"), fn)
    w2 = want
    if g:
        src = KeyValueLinearSource.interpret_values(src, FUNCTIONS[g])
        w2 = {k: FUNCTIONS[g](k, v) for k, v in want.items()}
    with src as s:
        t.is_(s, src, "entering an interpreted linear source")
        for flt in (lambda k: True, lambda k: False, lambda k: k > "a"):
            t.eq(list(s.items(flt)), [(k, v) for k, v in w2.items() if flt(k)], f"linear items of {case}")
        i1, i2 = iter(s.items()), iter(s.items())
        for pair in w2.items():
            t.eq((next(i1), next(i2)), (pair, pair), f"two linear iterators of {case}")


# --- functions which fail --------------------------------------------------------------------

class Odd(Exception):
    pass


FAILURES = {"key": KeyError, "odd": Odd, "lookup": LookupError, "value": ValueError, "io": OSError, "attribute": AttributeError, "type": TypeError, "zip": RuntimeError}


def gen_failing(tier):
    for kind in ("char", "bytes"):
        for who in ("interpretation", "key filter", "name filter", "key function", "filename function"):
            for failure in FAILURES:
                for key in ("a", "b", "c/d"):
                    yield (kind, who, failure, key)
        for key in ("a", "b", "c/d"):
            yield (kind, "unreadable", "", key)


def run_unreadable(case, t):
    """What a filter leaves out need not be readable."""
    from vistautils.key_value import KeyValueLinearSource, KeyValueSource

    kind, _, _, bad = case
    d = Path(t.dir)
    raw = {k: enc(kind, "v" + k) for k in ("a", "b", "c/d")}
    with zipfile.ZipFile(d / "s.zip", "w") as z:
        z.writestr("__keys", "\n".join(raw))
        for k, v in raw.items():
            if k != bad:
                z.writestr(k, v)
    for i, (k, v) in enumerate(raw.items()):
        if k != bad:
            (d / f"v{i}").write_bytes(v.encode() if kind == "char" else v)
    (d / "idx").write_text("".join(f"{k}\t{d}/v{i}\n" for i, k in enumerate(raw)))
    char = kind == "char"
    for mk in (lambda: (KeyValueSource.zip_character_source if char else KeyValueSource.zip_bytes_source)(d / "s.zip"),
               lambda: (KeyValueSource.from_doc_id_to_file_map if char else KeyValueSource.binary_from_doc_id_to_file_map)(d / "idx")):
        for how in ("plain", "interpreted", "twice interpreted"):
            src, want = mk(), {k: v for k, v in raw.items() if k != bad}
            for _ in range(("plain", "interpreted", "twice interpreted").index(how)):
                src = KeyValueSource.interpret_values(src, lambda k, v: (k, v))
                want = {k: (k, v) for k, v in want.items()}
            linear = KeyValueLinearSource.interpret_values(src, lambda k, v: (k, v))
            w = f"{how} {kind} source of {type(src).__name__} in which {bad!r} cannot be read"
            with linear as s:
                t.eq(t.call(lambda: dict(s.items(lambda k: k != bad)), f"items but the unreadable one of linear {w}"), {k: (k, v) for k, v in want.items()},
                     f"items but the unreadable one of linear {w}")
            with src as s:
                t.eq(t.call(lambda: dict(s.items(lambda k: k != bad)), f"items but the unreadable one of {w}"), want, f"items but the unreadable one of {w}")
                t.eq({k: s[k] for k in want}, want, w)
                t.raises((KeyError, OSError), lambda: s[bad], f"{bad!r} of {w}")
                t.raises((KeyError, OSError), lambda: list(s.items()), f"all items of {w}")


def run_failing(case, t):
    from vistautils.key_value import KeyValueLinearSource, KeyValueSource

    kind, who, failure, bad = case
    t.state(case)
    if who == "unreadable":
        return run_unreadable(case, t)
    d = Path(t.dir)
    raw = {k: enc(kind, "v" + k) for k in ("a", "b", "c/d")}
    before = list(raw)[: list(raw).index(bad)]

    def fail(k, v=None, result=None):
        if k == bad:
            raise FAILURES[failure]("on purpose")
        return result

    def interpret(k, v):
        return fail(k, v, ("seen", v))

    write_tar(d / "t.tgz", [(k, "file", v) for k, v in raw.items()])
    mk = KeyValueLinearSource.str_linear_source_from_tar_gz if kind == "char" else KeyValueLinearSource.byte_linear_source_from_tar_gz
    w = f"a source with a {who} which fails ({failure}) for {bad!r}"
    if who in ("interpretation", "key filter", "name filter", "key function"):
        kw = {"name filter": {"name_filter": lambda k: fail(k, result=True)}, "key function": {"key_function": lambda k: fail(k, result=k)}}.get(who, {})
        src = mk(d / "t.tgz", **kw)
        if who == "interpretation":
            src = KeyValueLinearSource.interpret_values(src, interpret)
        with src as s:
            for again in (0, 1):
                got = []

                def go():
                    for x in s.items(lambda k: fail(k, result=True)) if who == "key filter" else s.items():
                        got.append(x)

                t.raises(FAILURES[failure], go, f"items of tar {w}")
                t.eq(got, [(k, ("seen", raw[k]) if who == "interpretation" else raw[k]) for k in before], f"items before the failure of tar {w}")
    if who in ("name filter", "key function"):
        return
    with make_sink(kind, d / "s.zip", "plain") as s:
        for k, v in raw.items():
            s.put(k, v)
    for i, (k, v) in enumerate(raw.items()):
        (d / f"v{i}").write_bytes(v.encode() if kind == "char" else v)
    (d / "idx").write_text("".join(f"{k}\t{d}/v{i}\n" for i, k in enumerate(raw)))
    kw = {"filename_function": lambda k: fail(k, result=k)} if who == "filename function" else {}
    if kind == "char":
        bases = [KeyValueSource.zip_character_source(d / "s.zip", **kw), KeyValueSource.from_doc_id_to_file_map(d / "idx")]
    else:
        bases = [KeyValueSource.zip_bytes_source(d / "s.zip", **kw), KeyValueSource.binary_from_doc_id_to_file_map(d / "idx")]
    for b in bases[: 1 if who == "filename function" else 2]:
        src = KeyValueSource.interpret_values(b, interpret) if who == "interpretation" else b
        with src as s:
            t.eq(set(s.keys()), set(raw), f"keys of {w}")
            if who == "key filter":
                t.raises(FAILURES[failure], lambda: list(s.items(lambda k: fail(k, result=True))), f"filtered items of {w}")
                continue
            t.raises(FAILURES[failure], lambda: list(s.items()), f"items of {w}")
            t.raises(FAILURES[failure], lambda: s[bad], f"{bad!r} from {w}")
            t.raises(FAILURES[failure], lambda: s.get(bad), f"get of {bad!r} from {w}")
            t.raises(FAILURES[failure], lambda: s.get(bad, "default"), f"get of {bad!r} with a default from {w}")
            others = [k for k in raw if k != bad]
            want = {k: ("seen", raw[k]) if who == "interpretation" else raw[k] for k in others}
            t.eq({k: s[k] for k in others}, want, f"other keys from {w}")
            t.eq(dict(s.items(lambda k: k != bad)), want, f"items but the failing one of {w}")


SPACES = [
    Space("failing functions", gen_failing, run_failing, "interpretations, filters and key functions which fail with each of 8 kinds of error for each of 3 keys; zip, file-map and tar sources", tmp=True),
    Space("archives", gen_tar, run_tar,
          lambda tier: "all orders of up to 2 of 11 members and 3%s of 6, under 4 name filters, 6 key functions and 4 key "
          "filters; all interleavings of two iterators over up to 2 pairs" % (", 4" if thorough(tier) else ""), tmp=True),
    Space("formats", gen_plain, run_plain, "archive names and binary contents", tmp=True),
    Space("interpreted sources", gen_interp, run_interp,
          "all sub-collections of 4 entries under 5 functions, and compositions, over zip, file-map and tar sources", tmp=True),
]

SPACES += many.BY_CHECK["C14"]
