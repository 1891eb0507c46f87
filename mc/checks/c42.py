"""C42 values: equality by content, no way to change them, copies and pickles as good as the original."""
import collections
import collections.abc
import copy
import itertools
import os
import pickle

from mc.core import Space, thorough, seqs
from mc import rangemodel as M

PICKLES = tuple(f"pickle{p}" for p in range(pickle.HIGHEST_PROTOCOL + 1))
WAYS = ("copy", "deepcopy") + PICKLES


def clone(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(way[6:])))


# --- the kinds of values ------------------------------------------------------------------

SPANS = tuple((s, e) for s in range(-1, 4) for e in range(-1, 5) if s < e) + ((0, 10 ** 20),)
ATTRIBUTES = ((), (("a", "1"),), (("a", "2"),), (("b", "1"),), (("a", "1"), ("b", "2")), (("b", "2"), ("a", "1")), (("", ""),))
ANNOTATED = tuple((lab, sp, at) for lab in ("span", "div", "") for sp in ((0, 1), (0, 2), (1, 2)) for at in ATTRIBUTES)
MEMORY = tuple((n, u) for n in (1, 2, 1024, 10 ** 20) for u in ("KILOBYTES", "MEGABYTES", "GIGABYTES", "TERABYTES"))
DOCUMENTS = (
    {}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": "1"}, {"a": None}, {"a": {}}, {"a": {"b": 1}}, {"a": {"b": 2}}, {"a": {"c": 1}},
    {"a": {"b": {"c": "x"}}}, {"a": {"b": {"c": "x", "d": 2.5}}, "e": "f"}, {"a": "x", "b": "y"}, {"b": "y", "a": "x"},
    {"a": ""}, {"a": 0.5}, {"a": (1, 2)}, {"a": {"b": {}}}, {"a": {"b": 1}, "b": {"a": 1}},
)
UNITS = "KILOBYTES"


def frozen(x):
    """A document as literal, comparable data; the order of keys does not count."""
    if isinstance(x, dict):
        return ("d",) + tuple(sorted((k, frozen(v)) for k, v in x.items()))
    return (type(x).__name__, repr(x))


def ranges():
    return tuple(M.all_ranges(2))


KINDS = {
    "span": lambda: SPANS,
    "annotated": lambda: ANNOTATED,
    "memory": lambda: MEMORY,
    "parameters": lambda: tuple(range(len(DOCUMENTS))),
    "range": ranges,
    "range set": lambda: tuple(range(32)),
    "range map": lambda: tuple(range(32)),
}


def real(kind, d):
    from immutablecollections import immutabledict

    if kind == "span":
        from vistautils.span import Span

        return Span(*d)
    if kind == "annotated":
        from vistautils.annotated_text_utils import AnnotatedSpan
        from vistautils.span import Span

        return AnnotatedSpan(d[0], Span(*d[1]), immutabledict(d[2]))
    if kind == "memory":
        from vistautils.memory_amount import MemoryAmount, MemoryUnit

        return MemoryAmount(amount=d[0], unit=MemoryUnit[d[1]])
    if kind == "parameters":
        from vistautils.parameters import Parameters

        return Parameters.from_mapping(DOCUMENTS[d])
    ep = M.endpoints("int", 2)[0]
    if kind == "range":
        return M.make(d, ep)
    from vistautils.range import ImmutableRangeSet, immutablerangemap

    rs = [M.make(r, ep) for r in M.runs(d)]
    if kind == "range set":
        return ImmutableRangeSet.builder().add_all(rs).build()
    return immutablerangemap([(r, i) for i, r in enumerate(rs)])


def content(kind, d):
    """What makes two values of the kind equal."""
    if kind == "annotated":
        return (d[0], d[1], tuple(sorted(d[2])))
    if kind == "parameters":
        return frozen(DOCUMENTS[d])
    return d


def observed(kind, x):
    """The content of the real value, through its public queries."""
    if kind == "span":
        return (x.start, x.end)
    if kind == "annotated":
        return (x.label, (x.span.start, x.span.end), tuple(sorted(x.attributes.items())))
    if kind == "memory":
        from vistautils.memory_amount import MemoryUnit

        names = [n for n in ("KILOBYTES", "MEGABYTES", "GIGABYTES", "TERABYTES") if x.unit is MemoryUnit[n]]
        return (x.amount, names[0] if names else repr(x.unit))
    if kind == "parameters":
        from vistautils.parameters import Parameters

        def plain(p):
            return {k: plain(v) if isinstance(v, (Parameters, collections.abc.Mapping)) else v
                    for k, v in (p.as_nested_dicts() if isinstance(p, Parameters) else p).items()}

        return frozen(plain(x))
    ep = M.endpoints("int", 2)[0]
    if kind == "range":
        return M.unmake(x, ep)
    if kind == "range set":
        return sum(M.mask(M.unmake(r, ep)) for r in x.as_ranges())
    got = {M.unmake(r, ep): v for r, v in x.as_dict().items()}
    mask = sum(M.mask(r) for r in got)
    return mask if got == {r: i for i, r in enumerate(M.runs(mask))} else repr(got)


# --- pairs --------------------------------------------------------------------------------

def gen_pairs(tier):
    for kind, all_ in KINDS.items():
        ds = all_()
        for x in ds:
            yield (kind, x)


def run_pairs(case, t):
    kind, d = case
    x = real(kind, d)
    t.state(case)
    t.eq(observed(kind, x), content(kind, d), f"content of {kind} {d}")
    for d2 in KINDS[kind]():
        y = real(kind, d2)
        want = content(kind, d) == content(kind, d2)
        w = f"{kind} {d!r}, {d2!r}"
        t.is_(x == y, want, f"== {w}")
        t.is_(x != y, not want, f"!= {w}")
        if want:
            t.eq(hash(x), hash(y), f"hash {w}")
        t.eq(len({x, y}), 1 if want else 2, f"both in a set {w}")
        t.is_(y in {x: 1}, want, f"one as a key, the other looked up {w}")
        t.is_(y in [x], want, f"one in a list, the other looked for {w}")
        t.outcome("equal" if want else "different")
    for other, all_ in KINDS.items():
        if other != kind:
            for d2 in all_()[:4]:
                y = real(other, d2)
                t.is_(x == y, False, f"{kind} {d} == {other} {d2}")
                t.is_(x != y, True, f"{kind} {d} != {other} {d2}")


# --- no way to change them ----------------------------------------------------------------

def gen_fixed(tier):
    for kind in ("span", "annotated", "memory", "parameters", "range"):
        for d in KINDS[kind]():
            yield (kind, d)


def run_fixed(case, t):
    kind, d = case
    x = real(kind, d)
    h = hash(x)
    t.state(case)
    names = {"span": ("start", "end"), "annotated": ("label", "span", "attributes"), "memory": ("amount", "unit"),
             "parameters": ("namespace_prefix",), "range": ("lower_endpoint", "upper_endpoint")}[kind]
    for name in names + ("something_new",):
        for value in (1, None, "x"):
            t.raises((AttributeError, TypeError), lambda: setattr(x, name, value), f"assigning {name} of {kind} {d}")
        t.raises((AttributeError, TypeError, ValueError), lambda: delattr(x, name), f"deleting {name} of {kind} {d}")
    t.eq(observed(kind, x), content(kind, d), f"{kind} {d} afterwards")
    t.eq(hash(x), h, f"hash of {kind} {d} afterwards")
    if kind == "annotated":
        for change in (lambda: x.attributes.__setitem__("n", "1"), lambda: x.attributes.update({"n": "1"}), lambda: x.attributes.clear()):
            t.raises((AttributeError, TypeError, NotImplementedError), change, f"changing the attributes of {d}")
        t.eq(observed(kind, x), content(kind, d), f"{kind} {d} afterwards")


# --- copies and pickles -------------------------------------------------------------------

def gen_clones(tier):
    for kind, all_ in KINDS.items():
        for d in all_():
            for h in seqs(WAYS, 1, 2 if not thorough(tier) else 3):
                yield (kind, d, h)


def run_clones(case, t):
    kind, d, ways = case
    x = real(kind, d)
    h = hash(x)
    t.state(case)
    c = x
    for way in ways:
        c = t.call(lambda: clone(c, way), f"{way} in {ways} of {kind} {d}")
        w = f"{ways} of {kind} {d}"
        t.eq(t.call(lambda: observed(kind, c), f"content of {w}"), content(kind, d), f"content of {w}")
        t.true(c == x and x == c and not c != x, f"{w} is equal to the original")
        t.eq(hash(c), h, f"hash of {w}")
        t.is_(type(c), type(x), f"type of {w}")
        t.true(c in {x} and x in {c: 1}, f"{w} is found among the originals")
    if kind == "parameters":
        names = sorted(n for n, _ in x.namespaced_items())
        t.eq(sorted(n for n, _ in c.namespaced_items()), names, f"full names of {ways} of {kind} {d}")
        for n in names:
            t.is_(n in c, n in x, f"{n} in {ways} of {kind} {d}")
            if n in x:
                t.deep(c.get(n, object), x.get(n, object), f"{n} in {ways} of {kind} {d}")
    if kind == "range":
        for v in M.endpoints("int", 2)[1]:
            t.is_(v in c, v in x, f"{v} in {ways} of {d}")
        t.is_(c.is_empty(), x.is_empty(), f"is_empty of {ways} of {d}")
    if kind in ("range set", "range map"):
        for v in M.endpoints("int", 2)[1]:
            t.is_(v in c, v in x, f"{v} in {ways} of {d}")
    if kind == "range map":
        for v in M.endpoints("int", 2)[1]:
            t.same(c[v], x[v], f"{v} in {ways} of {d}")
    t.eq(observed(kind, x), content(kind, d), f"the original {kind} {d} afterwards")


# --- descriptions of files, and indices ---------------------------------------------------

class Item:
    def __init__(self, span, label):
        self.span, self.label = span, label

    def __eq__(self, o):
        return isinstance(o, Item) and (self.span, self.label) == (o.span, o.label)

    def __hash__(self):
        return hash(self.label)


SOURCES = ("string", "file", "gzip", "tgz", "zip", "bytes file", "bytes zip", "interpreted", "mapping", "binary mapping", "index", "disjoint index",
           "file sink", "bytes sink")


def gen_things(tier):
    for name in SOURCES:
        for text in ("", "a\nb\u00e9\n"):
            for h in seqs(WAYS, 1, 2 if not thorough(tier) else 3):
                yield (name, text, h)


def make_thing(name, text, d):
    import gzip
    import io
    import tarfile
    import zipfile
    from pathlib import Path
    from immutablecollections import immutabledict
    from vistautils.io_utils import ByteSink, ByteSource, CharSink, CharSource
    from vistautils.key_value import KeyValueSource
    from vistautils.span import HasSpanIndex, Span

    data = text.encode("utf-8")
    p = Path(d) / "f"
    p.write_bytes(data)
    if name == "string":
        return CharSource.from_string(text)
    if name == "file":
        return CharSource.from_file(p)
    if name == "gzip":
        q = Path(d) / "f.gz"
        with gzip.open(q, "wb") as f:
            f.write(data)
        return CharSource.from_gzipped_file(q)
    if name == "tgz":
        q = Path(d) / "f.tgz"
        with tarfile.open(q, "w:gz") as f:
            f.add(str(p), arcname="f")
        return CharSource.from_file_in_tgz(q, "f")
    if name in ("zip", "bytes zip"):
        q = Path(d) / "f.zip"
        with zipfile.ZipFile(str(q), "w") as f:
            f.writestr("f", data)
        return (CharSource if name == "zip" else ByteSource).from_file_in_zip(q, "f")
    if name == "bytes file":
        return ByteSource.from_file(p)
    if name == "interpreted":
        return CharSource.from_byte_source(ByteSource.from_file(p))
    if name in ("mapping", "binary mapping"):
        m = immutabledict([("k", p), ("l", p)])
        if name == "mapping":
            return KeyValueSource.from_path_mapping(m)
        q = Path(d) / "m"
        q.write_text(f"k\t{p}\nl\t{p}\n")
        return KeyValueSource.binary_from_doc_id_to_file_map(q)
    if name in ("index", "disjoint index"):
        items = [Item(Span(0, 2), "a"), Item(Span(2, 3), "b"), Item(Span(5, 9), "c")]
        return (HasSpanIndex.index if name == "index" else HasSpanIndex.index_disjoint)(items)
    if name == "file sink":
        return CharSink.to_file(Path(d) / "out")
    if name == "bytes sink":
        return ByteSink.to_file(Path(d) / "out")
    raise KeyError(name)


def use(name, x, text, d):
    """What the thing does."""
    from vistautils.span import Span

    data = text.encode("utf-8")
    if name in ("bytes file", "bytes zip"):
        return x.read()
    if name in ("mapping", "binary mapping"):
        with x as s:
            return (sorted(s.keys()), [s["k"], s["l"]], s.get("none", "-"))
    if name in ("index", "disjoint index"):
        out = []
        for q in ((0, 2), (1, 2), (2, 3), (0, 9), (3, 5), (5, 9), (8, 20)):
            for rel in ("exactly_matching", "overlapping", "contained", "containing"):
                got = getattr(x, "get_" + rel)(Span(*q))
                if got is None or isinstance(got, Item):
                    got = [got] if got else []
                out.append((q, rel, tuple(sorted(i.label for i in got))))
        return out
    if name in ("file sink", "bytes sink"):
        out = os.path.join(d, "out")
        if os.path.exists(out):
            os.remove(out)
        x.write(text if name == "file sink" else data)
        with open(out, "rb") as f:
            return f.read()
    return (x.read_all(), x.readlines(), x.is_empty())


def run_things(case, t):
    name, text, ways = case
    t.state(case)
    x = make_thing(name, text, t.dir)
    want = use(name, x, text, t.dir)
    if name in ("string", "file", "gzip", "tgz", "zip", "interpreted"):
        t.eq(want[0], text, f"the original {name}")
    c = x
    for way in ways:
        c = t.call(lambda: clone(c, way), f"{way} in {ways} of {name}")
        t.eq(t.call(lambda: use(name, c, text, t.dir), f"using {ways} of {name}"), want, f"using {ways} of {name}")
    t.eq(use(name, x, text, t.dir), want, f"using {name} after {ways}")
    t.outcome(name)


# --- what they were built from changes later ----------------------------------------------

def gen_inputs(tier):
    ops = ("add", "remove", "replace", "clear", "deeper", "look")
    for name in ("annotated", "parameters", "pairs", "index", "disjoint index", "range map", "range set", "spanning", "mapping", "prefix"):
        for h in seqs(ops, 1, 3 if not thorough(tier) else 5):
            yield (name, h)


def run_inputs(case, t):
    from pathlib import Path
    from vistautils.annotated_text_utils import AnnotatedSpan
    from vistautils.key_value import KeyValueSource
    from vistautils.parameters import Parameters
    from vistautils.range import ImmutableRangeSet, Range, immutablerangemap
    from vistautils.span import HasSpanIndex, Span

    name, ops = case
    t.state(case)
    inner = collections.OrderedDict([("x", 1), ("y", "2")])
    if name == "annotated":
        src = collections.UserDict([("a", "1"), ("b", "2")])
        thing = AnnotatedSpan("span", Span(0, 3), src)

        def look():
            return dict(thing.attributes)
    elif name in ("parameters", "prefix"):
        src = {"a": 1, "n": {"o": inner}, "b": "c"}
        prefix = ["p", "q"]
        thing = Parameters.from_mapping(src) if name == "parameters" else Parameters.from_mapping(src, namespace_prefix=prefix)

        def look():
            return (sorted(thing.namespaced_items()), thing.integer("a"), thing.integer("n.o.x"), "n.o.z" in thing,
                    thing.optional_string("zz"), sorted(thing.namespace("n.o").as_nested_dicts()), tuple(thing.namespace_prefix))
    elif name == "pairs":
        src = [("a", 1), ("n.o.x", 1), ("n.o.y", "2")]
        thing = Parameters.from_key_value_pairs(src)

        def look():
            return sorted(thing.namespaced_items())
    elif name in ("index", "disjoint index"):
        src = [Item(Span(0, 2), "a"), Item(Span(2, 3), "b"), Item(Span(5, 9), "c")]
        thing = (HasSpanIndex.index if name == "index" else HasSpanIndex.index_disjoint)(src)

        def look():
            return use(name, thing, "", "")
    elif name == "range map":
        src = [(Range.closed(1, 2), "a"), (Range.open(5, 6), "b")]
        thing = immutablerangemap(src)

        def look():
            return [thing[i] for i in (0, 1, 2, 5.5, 9)] + [len(thing.as_dict()), hash(thing)]
    elif name == "range set":
        src = [Range.closed(1, 2), Range.open(5, 6)]
        thing = ImmutableRangeSet.builder().add_all(src).build()

        def look():
            return [i in thing for i in (0, 1, 2, 5.5, 9)] + [len(thing), hash(thing)]
    elif name == "spanning":
        src = [Range.closed(1, 2), Range.open(5, 6)]
        thing = Range.create_spanning(src)

        def look():
            return [i in thing for i in (0, 1, 2, 5.5, 6, 9)] + [hash(thing)]
    else:
        p = Path(t.dir) / "v"
        p.write_bytes(b"value")
        src = collections.UserDict([("a", p), ("b", p)])
        thing = KeyValueSource.from_path_mapping(src)

        def look():
            with thing as s:
                return (sorted(s.keys()), s["a"], s["b"], s.get("new", None), s.get("zz", None))
    before = look()
    n = 0
    for op in ops:
        n += 1
        if isinstance(src, collections.abc.Mapping):
            key = list(src)[-1] if src else "zz"
            if op == "add":
                src["new" if n < 2 else f"zz{n}"] = src.get("a", "late") if name == "mapping" else "late"
            elif op == "remove":
                src.pop(key, None)
            elif op == "replace":
                src[key] = Path(t.dir) / "absent" if name == "mapping" else "changed"
            elif op == "clear":
                src.clear()
            elif op == "deeper":
                inner["z"] = 5
                inner["x"] = 6
                if name == "prefix":
                    prefix.append("r")
        else:
            late = {"pairs": ("late", 1), "index": 0, "disjoint index": 0, "range map": (Range.closed(8, 9), "late")}.get(name, Range.closed(8, 9))
            if late == 0:
                late = Item(Span(3, 5), "late")
            if op == "add":
                src.append(late)
            elif op == "remove":
                del src[:1]
            elif op == "replace":
                src[:1] = [late]
            elif op == "clear":
                del src[:]
            elif op == "deeper":
                src.reverse()
        if op == "look" or n == len(ops):
            t.eq(look(), before, f"{name} after {ops[:n]} of what it was made from")


SPACES = [
    Space("pairs", gen_pairs, run_pairs, "all pairs of values of 7 kinds, compared and hashed"),
    Space("no changes", gen_fixed, run_fixed, "every value of 5 kinds, every attribute assigned and deleted"),
    Space("copies", gen_clones, run_clones,
          lambda tier: "every value of 7 kinds, all sequences of up to %d of 8 ways to copy or pickle" % (3 if thorough(tier) else 2)),
    Space("copies of descriptions", gen_things, run_things,
          lambda tier: "14 kinds of sources, sinks, stores and indices, all sequences of up to %d of 8 ways to copy or pickle"
          % (3 if thorough(tier) else 2), tmp=True),
    Space("inputs changed later", gen_inputs, run_inputs,
          lambda tier: "10 constructions, all histories of up to %d changes of what the value was made from" % (5 if thorough(tier) else 3), tmp=True),
]
