"""C25 writing parameters as YAML and loading them again gives them back."""
import collections
import datetime
import enum
import itertools
import types
from pathlib import Path

from mc.core import Space, thorough, seqs, deep_same
from mc import many
from mc.trees import dicts, plain, fresh, nested

SCALARS = (
    0, 1, -1, 10 ** 20, True, False, 0.0, -0.5, 1.5, 1e20, 1e-7, 123456.789, 1e300, "inf", "-inf", "nan",
    ("none",), ("date", 2001, 2, 3), ("datetime", 2001, 2, 3, 4, 5, 6), ("datetime", 2001, 2, 3, 4, 5, 6, 789), ("float", "inf"), ("float", "-inf"), ("float", "nan"),
    [], [[]], [1, [2, [3, []]]], [{"a": [1, {"b": ("none",)}]}], ["x", 1, True, ("none",), 1.5], [("date", 1999, 12, 31), ("date", 1999, 12, 31)],
)
LOOKALIKES = (
    "", "1", "-1", "+1", "0", "01", "007", "0o7", "0x1F", "0b11", "1_000", "1.5", "-1.5", ".5", "5.", "1e5", "1.5e5", "1.0e+5", "1e+20", ".inf", "-.inf", "+.INF", ".nan", ".NaN", "nan", "Infinity",
    "true", "True", "TRUE", "false", "yes", "no", "y", "n", "Y", "N", "on", "off", "On", "OFF", "null", "Null", "NULL", "~", "none", "None",
    "2001-02-03", "2001-2-3", "2001-02-03 04:05:06", "2001-02-03T04:05:06Z", "2001-02-03t04:05:06.78 +9:00", "12:30", "12:30:45", "190:20:30.15",
    "=", "<<", "---", "...", "--- a", "- a", "-", "?", "? a", ":", "a: b", "a:", "a :b", "{}", "[]", "{a: b}", "[a, b]", "!tag", "!!str 1", "&anchor", "*alias", "# no comment", "a #b", "a# b", "|", ">", "|-", "@at", "`tick", "%directive", "%YAML 1.1", "100%", "%", "%%", "% a %",
    "'", '"', "''", '""', "'a'", '"a"', "it's", 'say "x"', "\\", "\\n", "a\\", "C:\\dir\\x",
    " ", "  ", " a", "a ", " a ", "\ta", "a\t", "\t", "a\tb", "\n", "\n\n", "a\n", "\na", "a\nb", "a\n\nb", "a\n b", " a\nb", "a \nb", "a\n\n", "\n a", "a\r\nb", "a\rb", "\r",
    "\u00e9", "\u4e2d\u6587", "\U0001F600", "e\u0301", "\u00a0", "\u2028", "\u2029", "\x85", "\ufeff", "\ufeffa", "\x00", "\x07", "\x1b[0m", "\x7f", "\x80", "\ufffe", "\uffff", "\U0010ffff", "\u200b", "a\u2028b", "a\x85b", "\u00e9\n\u00e9",
    "word " * 40, "word  " * 40, "x" * 200, "x" * 70 + " " + "y" * 70, " " * 100, ("a" * 30 + " ") * 5, "- " * 60, "a: " * 60, "\n" * 100, "'" * 100, '"' * 100, "\u00e9 " * 60, "\\ " * 60, "word \n" * 30, "\t" * 90, "http://a.b/c?d=e&f=g#h " * 8,
    "!!python/object:os.system", "_includes", "key: value\nother: [1, 2]\n", "a,b", "a, b", "]", "}", ",", "[", "{",
)
KEYS = (
    "a", "B", "a b", "1", "1e5", "true", "null", "~", "no", "<<", "=", "- a", "a: b", "a:b", "?", "#", "# a", "'", '"', "\\", "\n", "a\nb", " ", " a", "a ", "\u00e9", "\u4e2d", "\U0001F600", "!a", "&a", "*a", "%a%", "@", "2001-02-03",
    "", "k" * 127, "k" * 128, "k" * 129, "k" * 500, "\u2028", "\x00", "[a]", "{a}", "|", ">", "_include", "---", "-", "\t", "0x1", "k " * 60,
)


class Text(str):
    pass


class Loud(str):
    """Prints itself as something else."""

    def __str__(self):
        return "LOUD"

    __repr__ = __str__


class Colour(str, enum.Enum):
    RED = "red"
    YES = "yes"


class Level(enum.IntEnum):
    LOW = 3


class Number(int):
    def __str__(self):
        return "a number"

    __repr__ = __str__


class Ratio(float):
    def __repr__(self):
        return "a ratio"


class Day(datetime.date):
    pass


class Moment(datetime.datetime):
    pass


Pair = collections.namedtuple("Pair", "a b")
# value of a type derived from a type of YAML -> what it comes back as
DERIVED = {
    "text": (Text("x"), "x"), "text like a number": (Text("007"), "007"), "empty text": (Text(), ""), "loud text": (Loud("quiet"), "quiet"), "colour": (Colour.RED, "red"), "colour yes": (Colour.YES, "yes"),
    "level": (Level.LOW, 3), "number": (Number(12), 12), "zero": (Number(0), 0), "ratio": (Ratio(1.5), 1.5), "no ratio": (Ratio("nan"), float("nan")), "day": (Day(2001, 2, 3), datetime.date(2001, 2, 3)),
    "moment": (Moment(2001, 2, 3, 4, 5, 6, 789), datetime.datetime(2001, 2, 3, 4, 5, 6, 789)), "midnight": (Moment(2001, 2, 3), datetime.datetime(2001, 2, 3)), "pair": (Pair(1, Text("b")), [1, "b"]), "range": (range(2, 5), [2, 3, 4]),
    "mapping": (types.MappingProxyType({Text("k"): Text("v")}), {"k": "v"}), "ordered": (collections.OrderedDict([(Text("z"), 1), (Colour.RED, 2)]), {"z": 1, "red": 2}), "deque": (collections.deque([Number(1)]), [1]),
}


def real(v):
    """The value a plain description stands for."""
    if isinstance(v, tuple) and v[0] == "derived":
        return DERIVED[v[1]][0]
    if isinstance(v, tuple):
        return {"none": lambda: None, "date": datetime.date, "datetime": datetime.datetime, "float": float, "path": Path,
                "tuple": lambda *a: tuple(real(x) for x in a), "bytes": lambda x: x.encode(), "bytearray": lambda x: bytearray(x.encode()),
                "set": lambda *a: set(a), "object": object, "complex": complex, "function": lambda: len, "memoryview": lambda: memoryview(b"x"),
                }[v[0]](*v[1:])
    if isinstance(v, list):
        return [real(x) for x in v]
    if isinstance(v, dict):
        return {k: real(x) for k, x in v.items()}
    return v


def back(v):
    """What it comes back as."""
    if isinstance(v, tuple) and v[0] == "tuple":
        return [back(x) for x in v[1:]]
    if isinstance(v, tuple) and v[0] == "path":
        return str(Path(v[1]))
    if isinstance(v, tuple) and v[0] == "derived":
        return DERIVED[v[1]][1]
    if isinstance(v, list):
        return [back(x) for x in v]
    if isinstance(v, dict):
        return {k: back(x) for k, x in v.items()}
    return real(v)


def ways(p, t, w):
    """The text of p, written in every way."""
    from vistautils.io_utils import CharSink
    from vistautils.parameters import YAMLParametersWriter

    writer = YAMLParametersWriter()
    s = CharSink.to_string()
    t.call(lambda: writer.write(p, s), f"writing {w} to a sink")
    yield "a string sink", s.last_string_written
    yield "str", t.call(lambda: str(p), f"printing {w}")


def round_trip(t, d, files=False):
    """d is a description."""
    from vistautils.io_utils import CharSink
    from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter

    given = real(d)
    w = f"the parameters {d!r}"
    p = Parameters.from_mapping(given)
    before = nested(p)
    want = back(d)
    loader = YAMLParametersLoader(interpolate_environmental_variables=False)
    for how, text in ways(p, t, w):
        q = t.call(lambda: loader.load_string(text), f"loading {w}, written to {how} as {text!r}")
        t.true(deep_same(nested(q), want), f"{w}, written to {how} as {text!r} and loaded again, are {nested(q)!r}")
    if files:
        writer = YAMLParametersWriter()
        for label, target in (("a.params", "a.params"), ("b.params", Path("b.params")), ("c.params", CharSink.to_file("c.params"))):
            t.call(lambda: writer.write(p, target), f"writing {w} to a file")
            q = t.call(lambda: YAMLParametersLoader().load(label), f"loading {w} from a file")
            t.true(deep_same(nested(q), want), f"{w}, written to a file and loaded again, are {nested(q)!r}")
    t.true(deep_same(nested(p), before), f"{w} after writing")
    t.outcome("round trip")


def gen_values(tier):
    for v in SCALARS + LOOKALIKES:
        yield v


def run_values(case, t):
    t.state(repr(case))
    for d in ({"v": case}, {"n": {"v": case}}, {"n": {"m": {"o": {"v": case, "w": 1}}}}, {"v": [case]}, {"v": [[case, case], {"k": case}]}, {"v": case, "w": case, "x": {"v": case}}):
        round_trip(t, d, files=d == {"v": case})
    if isinstance(case, str) and case and not has_placeholder(case * 3):
        round_trip(t, {"v": case * 3, "w": case + "a", "x": "a" + case})


def gen_texts(tier):
    n = 4 if thorough(tier) else 3
    alphabet = "a \n:#-'\"\\\t,%!&*?[{|>@`~0.=\r\u00e9\x85\u2028\ufeff\U0001F600\x07"
    for s in seqs(alphabet, 1, n - 1):
        yield "".join(s)
    for s in seqs("a \n:#-'\"\t\\", n, n + 1):
        yield "".join(s)


def has_placeholder(s):
    import re

    return re.search(r"%([\w.\-]+)%", s) is not None


def run_texts(case, t):
    if has_placeholder(case):
        return
    t.state(case)
    round_trip(t, {"v": case, "n": {"l": [case]}})
    if not any(c in case for c in ".%"):
        round_trip(t, {case: 1, "n": {case: {case: [{case: 0}]}}})


def gen_wide(tier):
    for fill in ("word", "it's", "a:b", "\u00e9", "#", "- x", "1", "\\", '"', "\U0001F600"):
        for n in range(60, 100) if not thorough(tier) else range(40, 180):
            for gap in (" ", "  ", "\n", " \n", "\t", "\u2028"):
                yield (fill, n, gap)


def run_wide(case, t):
    fill, n, gap = case
    t.state(case)
    k = max(1, n // (len(fill) + len(gap)))
    body = gap.join([fill] * k)
    for s in (body, "x" * n + gap + "y" * n, body + "z" * (n - len(body)), "x" * (n - 1) + gap, gap + "x" * n):
        round_trip(t, {"v": s, "n": {"m": {"l": [s, [s]]}}})


def gen_keys(tier):
    for k in KEYS:
        yield (k,)
    for a, b in itertools.permutations(KEYS[:34] if not thorough(tier) else KEYS, 2):
        yield (a, b)


def run_keys(case, t):
    t.state(case)
    d = {}
    cur = d
    for k in case:
        cur[k] = {}
        cur = cur[k]
    cur["end"] = "v"
    round_trip(t, d)
    round_trip(t, {k: i for i, k in enumerate(case)})
    round_trip(t, {"l": [{k: i for i, k in enumerate(case)}]})
    round_trip(t, {k: {"x": [k], "y": {}} for k in case})


def gen_trees(tier):
    leaves = (0, "yes", ("none",), [], ("path", "a/b")) if not thorough(tier) else (0, "yes", ("none",), [], ("path", "a/b"), [{"k": ("tuple", 1)}], "two\nlines", 1.5)
    for names in (("a", "b"), ("b", "a")):
        for d in dicts(names, leaves, 2, 0, 2):
            yield d
    for d in dicts(("b", "a"), leaves[:1], 3, 0, 2):
        yield d
    for d in itertools.permutations((("z", ("leaf", 1)), ("y", ("leaf", "x")), ("a", ("ns", (("q", ("leaf", 0)), ("b", ("leaf", 0))))), ("m", ("ns", ())))):
        yield d


def run_trees(case, t):
    t.state(repr(case))
    round_trip(t, plain(case), files=len(repr(case)) < 60)


def gen_derived(tier):
    names = tuple(DERIVED)
    for a in names:
        yield {"a": ("derived", a)}
        yield {"a": {"b": {"c": ("derived", a), "d": 1}}}
        yield {"a": [("derived", a), [("derived", a)], {"k": ("derived", a)}], "b": ("tuple", ("derived", a))}
    for a, b in itertools.permutations(names, 2):
        yield {"a": ("derived", a), "b": [1, ("derived", b)]}


def run_derived(case, t):
    t.state(repr(case))
    round_trip(t, case, files=True)


def gen_odd(tier):
    for v in (("path", "."), ("path", "/a b/\u00e9"), ("path", "1"), ("path", "true"), ("tuple",), ("tuple", 1, "x", ("tuple", ("none",))), [("path", "x"), ("tuple", ("path", "y"))], {"k": ("path", "z")}):
        for d in ({"v": v}, {"n": {"v": v}}, {"v": [v]}, {"v": [{"k": v}]}):
            yield ("comes back", d)
    for v in (("bytes", ""), ("bytes", "abc"), ("bytearray", "abc")):
        for d in ({"v": v}, {"n": {"v": v}}, {"v": [v]}, {"v": [{"k": v}]}, {"v": ("tuple", v)}, {"a": 1, "z": {"v": [1, [v]]}}):
            yield ("refused", d)


def run_odd(case, t):
    from vistautils.io_utils import CharSink
    from vistautils.parameters import Parameters, YAMLParametersWriter

    kind, d = case
    t.state(repr(case))
    if kind == "comes back":
        round_trip(t, d, files=True)
        return
    p = Parameters.from_mapping(real(d))
    t.raises(Exception, lambda: YAMLParametersWriter().write(p, CharSink.to_string()), f"writing {d!r}")
    t.raises(Exception, lambda: YAMLParametersWriter().write(p, "x.params"), f"writing {d!r} to a file")
    t.raises(Exception, lambda: str(p), f"printing {d!r}")


SPACES = [
    Space("values", gen_values, run_values, "%d values, at 6 places" % len(SCALARS + LOOKALIKES), tmp=True),
    Space("texts", gen_texts, run_texts, lambda tier: "all texts and names of up to %d characters over 30 awkward characters, and of up to %d over 10" % ((3, 5) if tier == "thorough" else (2, 4))),
    Space("wide", gen_wide, run_wide, "texts of every length around the line width, of 10 kinds, broken in 6 ways"),
    Space("keys", gen_keys, run_keys, "%d names and pairs of them" % len(KEYS)),
    Space("trees", gen_trees, run_trees, "all dictionaries of up to 2 names per level and depth 2 over 5 (thorough 8) leaves, depth 3 over one; permutations of four entries", tmp=True),
    Space("odd", gen_odd, run_odd, "paths and tuples at 4 places, bytes at 6 places", tmp=True),
    Space("derived types", gen_derived, run_derived, "%d values of types derived from those of YAML, in 4 places, and every pair of them" % len(DERIVED), tmp=True),
]

SPACES += many.BY_CHECK["C25"]
