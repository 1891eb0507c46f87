"""C37 values and stores that several threads read at once."""
import collections
import gzip
import io
import itertools
import os
import tarfile
import zipfile
from pathlib import Path

from mc import sched
from mc.core import Space, thorough, _r

sched.control_locks()

import vistautils  # noqa: E402
from immutablecollections import immutabledict  # noqa: E402
from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter  # noqa: E402
from vistautils.io_utils import ByteSource, CharSink, CharSource, file_lines_to_set, read_doc_id_to_file_map  # noqa: E402
from vistautils.key_value import KeyValueLinearSource, KeyValueSink, KeyValueSource  # noqa: E402
from vistautils.iter_utils import drop, windowed  # noqa: E402
from vistautils.memory_amount import MemoryAmount  # noqa: E402
from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter  # noqa: E402
from vistautils.range import ImmutableRangeMap, ImmutableRangeSet, Range, RangeSet, immutablerangemap  # noqa: E402
from vistautils.span import HasSpan, HasSpanIndex, Span  # noqa: E402
from mc import plug  # noqa: E402

CODE = os.path.dirname(os.path.abspath(vistautils.__file__)) + os.sep
SCENARIOS = collections.OrderedDict()


def scenario(name, **ops):
    def deco(make):
        SCENARIOS[name] = (make, ops)
        return make

    return deco


def freeze(x):
    """A comparable picture of what an operation returned."""
    if isinstance(x, dict):
        return ("dict",) + tuple((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(i) for i in x)
    return (type(x).__name__, repr(x))


def unordered(xs):
    return sorted(xs, key=repr)


# --- ranges ------------------------------------------------------------------------
RANGES = (Range.closed(1, 3), Range.open(5, 7), Range.closed_open(9, 12), Range.at_least(20))


@scenario(
    "immutable range set",
    contains=lambda s: [v in s for v in (3, 5, 25)],
    containing=lambda s: [s.range_containing(v) for v in (2, 8)],
    enclosing=lambda s: [s.range_enclosing_range(r) for r in (Range.closed(10, 11), Range.closed(3, 6))],
    enclosed=lambda s: unordered(s.ranges_enclosed_by(Range.closed(0, 8))),
    overlapping=lambda s: unordered(s.ranges_overlapping(Range.closed(2, 10))),
    intersects=lambda s: [s.intersects(r) for r in (Range.closed(3, 4), Range.closed(7, 8))],
    neighbours=lambda s: [s.rightmost_containing_or_below(8), s.leftmost_containing_or_above(8)],
    encloses_all=lambda s: [s.encloses_all(RANGES), s.encloses_all([Range.all()])],
    ranges=lambda s: [list(s.as_ranges()), s.is_empty(), s.span],
    text=lambda s: [repr(s), hash(s) == hash(ImmutableRangeSet.builder().add_all(RANGES).build())],
    equality=lambda s: [s == ImmutableRangeSet.builder().add_all(RANGES).build(), s == ImmutableRangeSet.builder().add_all(RANGES[1:]).build()],
)
def make_range_set(d):
    return ImmutableRangeSet.builder().add_all(RANGES).build(), None


@scenario(
    "immutable range map",
    lookup=lambda m: [m[v] for v in (2, 4, 11)],
    contains=lambda m: [v in m for v in (3, 5, 25)],
    neighbours=lambda m: [m.get_from_rightmost_containing_or_below(8), m.get_from_leftmost_containing_or_above(8)],
    enclosed=lambda m: unordered(m.get_enclosed_by(Range.closed(0, 8))),
    entries=lambda m: [dict(m.as_dict()), m.is_empty()],
    text=lambda m: [repr(m), hash(m) == hash(immutablerangemap(zip(RANGES, "abcd")))],
    equality=lambda m: [m == immutablerangemap(zip(RANGES, "abcd")), m == immutablerangemap(zip(RANGES, "abce"))],
)
def make_range_map(d):
    return immutablerangemap(zip(RANGES, "abcd")), None


@scenario(
    "one range and one span",
    contains=lambda x: [2 in x[0], 5 in x[0], Span(2, 3) in x[1]],
    relations=lambda x: [x[0].encloses(Range.closed(1, 2)), x[0].is_connected(Range.closed(5, 6)), x[0].intersects(Range.open(3, 9))],
    combined=lambda x: [x[0].span(Range.open(7, 9)), x[0].intersection(Range.open(2, 9))],
    spans=lambda x: [x[1].intersection(Span(3, 9)), x[1].clip_to(Span(0, 4)), x[1].shift(2), x[1].as_range(), len(x[1])],
    text=lambda x: [repr(x), hash(x[0]) == hash(Range.closed_open(1, 5)), x[0] == Range.closed_open(1, 5)],
    spanning=lambda x: [Range.create_spanning([x[0], Range.closed(7, 8)]), Span.minimal_enclosing_span([x[1], Span(7, 9)])],
)
def make_range(d):
    return (Range.closed_open(1, 5), Span(1, 5)), None


@scenario(
    "values built apart",
    set=lambda _: ImmutableRangeSet.builder().add(Range.closed(1, 3)).add(Range.closed(2, 5)).build(),
    other_set=lambda _: ImmutableRangeSet.builder().add_all([Range.open(7, 9), Range.at_most(0)]).build(),
    mutable=lambda _: list(RangeSet.create_mutable().add(Range.closed(4, 6)).add(Range.closed(1, 2)).as_ranges()),
    map=lambda _: ImmutableRangeMap.builder().put(Range.closed(1, 3), "x").put(Range.open(4, 6), "y").build(),
    index=lambda _: unordered(i.label for i in HasSpanIndex.index([Item(Span(0, 3), "a"), Item(Span(2, 4), "b")]).get_overlapping(Span(2, 3))),
    parameters=lambda _: Parameters.from_mapping({"a": {"b": [1, {"c": 2}]}}).as_nested_dicts(),
    pairs=lambda _: Parameters.from_key_value_pairs([("a.b", 1), ("a.c", 2)]).as_nested_dicts(),
    memory=lambda _: [str(MemoryAmount.parse("4 GB")), MemoryAmount.parse("4 GB") == MemoryAmount.parse("4096 m")],
    windows=lambda _: [list(windowed([1, 2, 3, 4], 2)), list(drop([1, 2, 3], 1))],
)
def make_nothing(d):
    return None, None


# --- spans -------------------------------------------------------------------------
class Item(HasSpan):
    def __init__(self, span, label):
        self.span, self.label = span, label

    def __repr__(self):
        return f"{self.label}@{self.span}"


INDEX_OPS = dict(
    exact=lambda x: [names(x.get_exactly_matching(Span(*q))) for q in ((0, 3), (3, 5))],
    overlapping=lambda x: [names(x.get_overlapping(Span(*q))) for q in ((2, 4), (7, 9))],
    contained=lambda x: [names(x.get_contained(Span(*q))) for q in ((0, 6), (1, 9))],
    containing=lambda x: [names(x.get_containing(Span(*q))) for q in ((1, 2), (8, 9))],
)


def names(r):
    if r is None or isinstance(r, Item):
        return repr(r)
    return unordered(map(repr, r))


@scenario("span index", **INDEX_OPS)
def make_index(d):
    return HasSpanIndex.index([Item(Span(*s), n) for n, s in zip("abcd", ((0, 3), (2, 5), (0, 3), (7, 9)))]), None


@scenario("disjoint span index", **INDEX_OPS)
def make_disjoint(d):
    return HasSpanIndex.index_disjoint([Item(Span(*s), n) for n, s in zip("abc", ((0, 3), (3, 5), (7, 9)))]), None


@scenario(
    "formatter",
    nested=lambda f: f.annotated_text("Hello big world", [AnnotatedSpan("q1", Span(0, 5)), AnnotatedSpan("q2", Span(6, 15), immutabledict([("c", "x")])), AnnotatedSpan("q3", Span(6, 9))]),
    snippet=lambda f: f.annotated_text("big world", [AnnotatedSpan("q1", Span(6, 9))], text_offsets=Span(6, 15)),
    plain=lambda f: f.annotated_text("no markup", []),
)
def make_formatter(d):
    return HTMLStyleAnnotationFormatter(), None


# --- parameters --------------------------------------------------------------------
TREE = {
    "a": {"b": "text", "n": 3, "f": 0.5, "list": [1, {"x": "y"}], "deep": {"er": {"leaf": False}}},
    "object": {"value": "[a.b, 1 + 1]"},
    "made": {"factory": "mc.plug.build", "import": ["mc.plug"], "x": 1},
    "made2": {"factory": "Local", "y": {"z": 2}},
    "expr": "dict(k=[1])",
    "expr2": {"value": "[here, 2]"},
    "special": "quick",
    "empty": {},
}


@scenario(
    "parameters",
    get=lambda p: [p.string("a.b"), p.integer("a.n"), p.floating_point("a.f"), p.boolean("a.deep.er.leaf"), p.arbitrary_list("a.list")],
    absent=lambda p: [p.optional_string("nope"), p.optional_integer("a.x"), p.optional_namespace("a.deep.x"), "a.x" in p, "a.b" in p],
    refused=lambda p: p.integer("a.b"),
    namespace=lambda p: [p.namespace("a.deep").as_nested_dicts(), p.namespace_or_empty("z").as_nested_dicts(), p.has_namespace("a")],
    items=lambda p: unordered(p.namespaced_items()),
    sub=lambda p: unordered(s.as_nested_dicts() for s in p.sub_namespaces()),
    unify=lambda p: p.unify({"a": {"n": 4, "new": {"er": 1}}}).as_nested_dicts(),
    dicts=lambda p: p.as_nested_dicts(),
    text=lambda p: [str(p), hash(p) == hash(Parameters.from_mapping(TREE)), p == Parameters.from_mapping(TREE)],
    evaluate=lambda p: p.evaluate("expr", dict),
    evaluate_other=lambda p: [p.evaluate("expr2", list, context={"here": "x"}), p.evaluate("special", int, special_values={"quick": "40 + 2"})],
    made=lambda p: vars(p.object_from_parameters("made", plug.Built)),
    made_other=lambda p: vars(p.object_from_parameters("made2", plug.Built, context={"Local": plug.ClassBuilt})),
    value=lambda p: p.object_from_parameters("object", list, context={"a": collections.namedtuple("A", "b")(7)}),
    default=lambda p: p.object_from_parameters("missing", list, default_factory=lambda q: [q.as_nested_dicts()]),
    mapping=lambda p: sorted(p.as_mapping()),
    one=lambda p: p.assert_exactly_one_present(["expr", "other"]),
)
def make_parameters(d):
    return Parameters.from_mapping(TREE), None


YAMLS = {
    "1/main.params": "_includes: [base.params]\nx: 1\ntext: '%root%/one'\n",
    "1/base.params": "root: /r1\nns: {k: [1, 2]}\n",
    "2/main.params": "_includes: [base.params, ../1/base.params]\ny: '%name%-2'\n",
    "2/base.params": "root: /r2\nname: base\nns: {e: '%root%'}\n",
    "bad.params": "x: '%unknown_one%'\n",
}


@scenario(
    "parameters loader",
    one=lambda x: x[0].load(x[1] / "1/main.params").as_nested_dicts(),
    two=lambda x: x[0].load(str(x[1] / "2/main.params")).as_nested_dicts(),
    bad=lambda x: x[0].load(x[1] / "bad.params").as_nested_dicts(),
    string=lambda x: x[0].load_string("q: '%r%/w'\nr: five\n").as_nested_dicts(),
    included=lambda x: x[0].load(x[1] / "2/base.params", included_context=Parameters.from_mapping({"root": "/ctx", "ns": {"z": 0}})).as_nested_dicts(),
    write=lambda x: written(x[2], {"a": {"b": [1, "x"]}}),
    write_other=lambda x: written(x[2], {"c": "two"}),
)
def make_loader(d):
    for n, text in YAMLS.items():
        p = os.path.join(d, n)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
    return (YAMLParametersLoader(), Path(d), YAMLParametersWriter()), None


def written(writer, d):
    s = CharSink.to_string()
    writer.write(Parameters.from_mapping(d), s)
    return s.last_string_written


# --- stores ------------------------------------------------------------------------
ENTRIES = {"a": "one\n", "b": "", "d/c": "\u4e2d" * 30}
STORE_OPS = dict(
    get=lambda s: [s["a"], s["d/c"]],
    other=lambda s: [s["b"], s.get("a"), s.get("zz", None)],
    absent=lambda s: s["zz"],
    items=lambda s: unordered(s.items()),
    filtered=lambda s: unordered(s.items(lambda k: k != "a")),
    keys=lambda s: unordered(s.keys()),
)


def once(path, write):
    if not os.path.exists(path):
        write(path)
    return Path(path)


def zip_of(d):
    def write(p):
        with KeyValueSink.zip_character_sink(Path(p)) as s:
            for k, v in ENTRIES.items():
                s.put(k, v)

    return once(os.path.join(d, "s.zip"), write)


def map_of(d):
    def write(p):
        with open(p, "w") as f:
            for i, (k, v) in enumerate(ENTRIES.items()):
                with open(os.path.join(d, f"f{i}"), "wb") as g:
                    g.write(v.encode())
                f.write(f"{k}\t{d}/f{i}\n")

    return once(os.path.join(d, "map"), write)


def entered(s):
    s = s.__enter__()
    return s, lambda: s.__exit__(None, None, None)


@scenario("character zip source", **STORE_OPS)
def make_char_zip(d):
    return entered(KeyValueSource.zip_character_source(zip_of(d)))


@scenario("bytes zip source", **STORE_OPS)
def make_byte_zip(d):
    return entered(KeyValueSource.zip_bytes_source(zip_of(d)))


@scenario("character file-map source", **STORE_OPS)
def make_char_map(d):
    return entered(KeyValueSource.from_doc_id_to_file_map(map_of(d)))


@scenario("bytes file-map source", **STORE_OPS)
def make_byte_map(d):
    return entered(KeyValueSource.binary_from_doc_id_to_file_map(map_of(d)))


@scenario("interpreted source", **STORE_OPS)
def make_interpreted(d):
    return entered(KeyValueSource.interpret_values(KeyValueSource.zip_character_source(zip_of(d)), lambda k, v: (k, len(v))))


@scenario(
    "configured sources",
    zip=lambda d: opened({"input": {"type": "zip", "path": str(zip_of(d))}}),
    map=lambda d: opened({"input": {"type": "file-map", "path": str(map_of(d))}}),
)
def make_configured(d):
    zip_of(d)
    map_of(d)
    return d, None


def opened(c):
    from vistautils.key_value import char_key_value_source_from_params

    with char_key_value_source_from_params(Parameters.from_mapping(c)) as s:
        return unordered(s.items())


# --- sources of text and bytes -----------------------------------------------------
TEXT = "first\nsecond \u4e2d\n\nlast"


def files_of(d):
    def write(p):
        with open(p, "w", encoding="utf-8") as f:
            f.write(TEXT)
        with gzip.open(p + ".gz", "wb") as f:
            f.write(TEXT.encode())
        with zipfile.ZipFile(p + ".zip", "w") as z:
            z.writestr("in/side", TEXT)
            z.writestr("other", "x")
        with tarfile.open(p + ".tgz", "w:gz") as tf:
            info = tarfile.TarInfo("in/side")
            info.size = len(TEXT.encode())
            tf.addfile(info, io.BytesIO(TEXT.encode()))

    return once(os.path.join(d, "t"), write)


CHAR_OPS = dict(
    read_all=lambda s: s.read_all(),
    readlines=lambda s: s.readlines(),
    is_empty=lambda s: s.is_empty(),
    open=lambda s: opened_text(s),
)
BYTE_OPS = dict(
    read=lambda s: s.read(),
    part=lambda s: s.read(5),
    open=lambda s: opened_bytes(s),
    as_text=lambda s: CharSource.from_byte_source(s).readlines(),
)


def opened_text(s):
    with s.open() as f:
        return [f.readline(), f.read(3), f.read()]


def opened_bytes(s):
    with s.open() as f:
        return [f.read(2), f.readline(), f.read()]


def char_source(name, f):
    @scenario(name, **CHAR_OPS)
    def make(d):
        return f(files_of(d))


char_source("characters from a string", lambda p: (CharSource.from_string(TEXT), None))
char_source("characters from a file", lambda p: (CharSource.from_file(p), None))
char_source("characters from a gzipped file", lambda p: (CharSource.from_gzipped_file(Path(str(p) + ".gz")), None))
char_source("characters in a zip", lambda p: (CharSource.from_file_in_zip(Path(str(p) + ".zip"), "in/side"), None))
char_source("characters in a tgz", lambda p: (CharSource.from_file_in_tgz(Path(str(p) + ".tgz"), "in/side"), None))
char_source("characters from bytes", lambda p: (CharSource.from_byte_source(ByteSource.from_file(p)), None))


@scenario("bytes from a file", **BYTE_OPS)
def make_byte_file(d):
    return ByteSource.from_file(files_of(d)), None


@scenario("bytes in a zip", **BYTE_OPS)
def make_byte_in_zip(d):
    return ByteSource.from_file_in_zip(Path(str(files_of(d)) + ".zip"), "in/side"), None


@scenario("bytes in an open zip", **BYTE_OPS)
def make_byte_in_open_zip(d):
    z = zipfile.ZipFile(str(files_of(d)) + ".zip")
    return ByteSource.from_file_in_zip(z, "in/side"), z.close


@scenario(
    "files of lines",
    lines=lambda d: unordered(file_lines_to_set(Path(d) / "t")),
    map=lambda d: list(read_doc_id_to_file_map(CharSource.from_file(Path(d) / "map")).items()),
    list=lambda d: Parameters.from_mapping({"l": d + "/list"}).path_list_from_file("l"),
    paths=lambda d: list(Parameters.from_mapping({"m": d + "/map"}).path_map_from_file("m").items()),
)
def make_lines(d):
    files_of(d)
    map_of(d)
    once(os.path.join(d, "list"), lambda p: Path(p).write_text(f"{d}/t\n# no\n{d}/map\n"))
    return d, None


# --- the search --------------------------------------------------------------------
def run_case(case, t):
    name, ops, bound, fine, visits = case
    make_shared, table = SCENARIOS[name]
    t.state(case)
    d = t.dir

    def run(op, shared):
        return freeze(table[op](shared))

    def alone(op):
        shared, close = make_shared(d)
        try:
            return ("returned", run(op, shared))
        except Exception as e:
            return ("raised", type(e).__name__)
        finally:
            if close:
                close()

    want = [alone(op) for op in ops]

    def make():
        shared, close = make_shared(d)
        return [lambda op=op: run(op, shared) for op in ops], close

    def check(results, close, choices):
        if close:
            close()
        for op, got, w in zip(ops, results, want):
            if got[:2] != w:
                t.fail(f"{op} on a shared {name} while other threads do {[o for o in ops]}, interleaved as {compact(choices)}: {_r(got)}, alone it gives {_r(w)}")

    with sched.CodePoints(CODE, fine, visits):
        runs, points, lost = sched.explore(make, check, bound)
    t.ops += runs
    if lost:
        t.outcome("schedules that could not be repeated")
    t.outcome("all threads got what they get alone")
    return runs, points


def compact(choices):
    return [i for i, c in enumerate(choices) if c] or "one after the other"


HEAVY = ("parameters loader", "configured sources")


def gen_pairs(tier):
    for name, (_, ops) in SCENARIOS.items():
        for a, b in itertools.combinations_with_replacement(ops, 2):
            yield (name, (a, b), 1, False, 2 if not thorough(tier) else 6 if name in HEAVY else None)


def gen_fine(tier):
    for name, (_, ops) in SCENARIOS.items():
        if name in HEAVY and not thorough(tier):
            continue
        for a, b in itertools.combinations_with_replacement(ops, 2):
            if a == b or thorough(tier):
                yield (name, (a, b), 1, True, 1)


def gen_more(tier):
    for name, (_, ops) in SCENARIOS.items():
        if name in HEAVY:
            continue
        for a, b in itertools.combinations_with_replacement(ops, 2):
            yield (name, (a, b), 2, False, 1)


def gen_three(tier):
    for name, (_, ops) in SCENARIOS.items():
        if name in HEAVY and not thorough(tier):
            continue
        ops = list(ops)
        for i, a in enumerate(ops):
            if thorough(tier):
                yield (name, (a, a, a), 1, False, 1)
            if thorough(tier) or i % 2 == 0:
                yield (name, (a, ops[(i + 1) % len(ops)], ops[(i + 2) % len(ops)]), 1, False, 1)


SPACES = [
    Space("pairs of reads", gen_pairs, run_case,
          lambda tier: "every two reading operations on every kind of shared value; every interleaving of their lines with at most 1 preemption, "
          + ("before any visit of a line" if thorough(tier) else "before the first two visits of each line"), tmp=True),
    Space("pairs of reads, by bytecode", gen_fine, run_case,
          lambda tier: ("every two reading operations" if thorough(tier) else "every reading operation with itself")
          + "; every interleaving with at most 1 preemption, before the first visit of each bytecode", tmp=True),
    Space("three reads", gen_three, run_case,
          lambda tier: "every (quick: every second) reading operation with the two that follow it" + (", and three times" if thorough(tier) else "")
          + "; every interleaving of their lines with at most 1 preemption, before the first visit of each line", tmp=True),
    Space("pairs of reads, two preemptions", lambda tier: gen_more(tier) if thorough(tier) else (), run_case,
          "(thorough only) every two reading operations; every interleaving with at most 2 preemptions, before the first visit of each line", tmp=True),
]
