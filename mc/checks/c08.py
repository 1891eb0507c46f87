"""C08 spans against the set of offsets they cover."""
import itertools

from mc.core import Space, thorough, sizes
from mc import rangemodel as M

BAD = (1.0, "1", None, (1,), 1.5, b"1", 1j, [1])
SHIFTS = (-7, -1, 0, 1, 3, 10 ** 9)


def universe(tier):
    return range(-3, 6) if thorough(tier) else range(-2, 4)


def spans(u):
    return [(s, e) for e in u for s in u if s < e]


BIG = [(0, 10 ** 9), (10 ** 9, 10 ** 18), (-10 ** 18, 10 ** 18), (10 ** 18 - 1, 10 ** 18), (255, 257), (256, 258)]


def gen_one(tier):
    u = range(-5, 8) if not thorough(tier) else range(-12, 25)
    for s in u:
        for e in u:
            yield (s, e)
    for x in BIG:
        yield x


def run_one(case, t):
    from vistautils.span import Span
    from vistautils.range import BoundType

    s, e = case
    t.state(case)
    for f in (Span, Span.from_inclusive_to_exclusive):
        if s >= e:
            t.raises((ValueError, TypeError), lambda: f(s, e), f"Span{case}")
    if s >= e:
        return
    x = Span(s, e)
    t.eq(Span.from_inclusive_to_exclusive(s, e), x, f"Span{case}")
    t.same(x.start, s, f"Span{case}.start")
    t.same(x.end, e, f"Span{case}.end")
    if e - s < 2 ** 63:
        t.same(len(x), e - s, f"len(Span{case})")
    for i in {s - 2, s - 1, s, s + 1, (s + e) // 2, e - 2, e - 1, e, e + 1, 0}:
        t.is_(x.contains_offset(i), s <= i < e, f"Span{case}.contains_offset({i})")
    r = x.as_range()
    t.eq((r.lower_endpoint, r.upper_endpoint), (s, e - 1), f"Span{case}.as_range()")
    t.is_(r.lower_bound_type, BoundType.closed(), f"Span{case}.as_range()")
    t.is_(r.upper_bound_type, BoundType.closed(), f"Span{case}.as_range()")
    for k in SHIFTS:
        y = x.shift(k)
        t.eq((y.start, y.end), (s + k, e + k), f"Span{case}.shift({k})")
    t.eq((x.start, x.end), case, "the span itself afterwards")
    for attr in ("start", "end"):
        t.raises(AttributeError, lambda: setattr(x, attr, 0), f"assigning {attr} of a span")
    for other in (None, (s, e), s, "x", [s, e], r):
        t.is_(x == other, False, f"Span{case} == {other!r}")
        t.is_(x != other, True, f"Span{case} != {other!r}")
    t.true(bool(x), "a span is true")


def gen_bad(tier):
    for i in range(len(BAD)):
        for good in (0, 5):
            yield (i, good)


def run_bad(case, t):
    from vistautils.span import Span

    b, good = BAD[case[0]], case[1]
    t.state(case)
    for args in ((b, good), (good, b), (b, b)):
        for f in (Span, Span.from_inclusive_to_exclusive):
            t.raises((ValueError, TypeError), lambda: f(*args), f"Span{args}")


def gen_pairs(tier):
    ss = spans(universe(tier)) + BIG
    for x in ss:
        for y in ss:
            yield (x, y)


def run_pair(case, t):
    from vistautils.span import Span

    (a, b), (c, d) = case
    x, y = Span(a, b), Span(c, d)
    w = f"Span({a},{b}), Span({c},{d})"
    t.state(case)
    t.is_(x.contains_span(y), a <= c and d <= b, f"contains_span {w}")
    t.is_(y in x, a <= c and d <= b, f"{y} in {x}")
    t.is_(x.precedes(y), b <= c, f"precedes {w}")
    t.is_(x.follows(y), a >= d, f"follows {w}")
    lo, hi = max(a, c), min(b, d)
    t.is_(x.overlaps(y), lo < hi, f"overlaps {w}")
    i, k = x.intersection(y), x.clip_to(y)
    if lo < hi:
        t.eq(i, Span(lo, hi), f"intersection {w}")
        t.eq(k, Span(lo, hi), f"clip_to {w}")
        t.outcome("overlap")
    else:
        t.is_(i, None, f"intersection {w}")
        t.is_(k, None, f"clip_to {w}")
        t.outcome("apart")
    t.is_(x == y, case[0] == case[1], f"== {w}")
    t.is_(x != y, case[0] != case[1], f"!= {w}")
    if case[0] == case[1]:
        t.eq(hash(x), hash(y), f"hash {w}")
    kx, ky = Span.earliest_then_longest_first_key(x), Span.earliest_then_longest_first_key(y)
    t.is_(kx < ky, (a, -(b - a)) < (c, -(d - c)), f"earliest_then_longest_first_key {w}")

    class Item(_has_span()):
        def __init__(self, span):
            self.span = span

    it = Item(x)
    t.eq((it.start, it.end), (a, b), f"start and end of an item with {x}")
    t.is_(it.contains_span(y), a <= c and d <= b, f"item.contains_span {w}")
    for o in (c, d, c - 1, d - 1):
        t.is_(it.contains_offset(o), a <= o < b, f"item.contains_offset({o}) of {x}")


def _has_span():
    from vistautils.span import HasSpan

    return HasSpan


FORMS = ("list", "tuple", "set", "iterator", "generator", "map", "dict keys")


def gen_min(tier):
    ss = spans(range(-1, 4) if thorough(tier) else range(0, 4))
    yield ()
    for n in (1, 2, 3) if not thorough(tier) else (1, 2, 3, 4):
        for c in itertools.product(ss, repeat=n):
            yield c


def run_min(case, t):
    from vistautils.span import Span

    t.state(case)
    for form in FORMS:
        xs = [Span(*c) for c in case]
        arg = {"list": lambda: xs, "tuple": lambda: tuple(xs), "set": lambda: set(xs), "iterator": lambda: iter(xs),
               "generator": lambda: (x for x in xs), "map": lambda: map(lambda c: Span(*c), case),
               "dict keys": lambda: dict.fromkeys(xs).keys()}[form]()
        w = f"minimal_enclosing_span of {case} as {form}"
        if not case:
            t.raises(ValueError, lambda: Span.minimal_enclosing_span(arg), w)
        else:
            got = t.call(lambda: Span.minimal_enclosing_span(arg), w)
            t.eq(got, Span(min(c[0] for c in case), max(c[1] for c in case)), w)
    xs = [Span(*c) for c in case]
    t.eq([(x.start, x.end) for x in sorted(xs, key=Span.earliest_then_longest_first_key)],
         sorted(case, key=lambda c: (c[0], -c[1])), f"sorting {case}")


def gen_long(tier):
    for n in (4, 5, 6, 7, *sizes(tier, 257)):
        for low in sorted({0, 1, n // 2, n - 2, n - 1}):
            for high in sorted({0, 1, n // 2, n - 2, n - 1}):
                yield (n, low, high)


def run_long(case, t):
    """n spans around (5, 7), but the earliest start at `low` and the latest end at `high`."""
    n, low, high = case
    specs = [(-4 if i == low else 5 - i % 3, 20 if i == high else 7 + i % 4) for i in range(n)]
    run_min(tuple(specs), t)


SPACES = [
    Space("single spans", gen_one, run_one, "all (start, end) from a window, valid or not, and large ones"),
    Space("non-integers", gen_bad, run_bad, "every kind of non-integer in every position"),
    Space("pairs", gen_pairs, run_pair,
          lambda tier: "all pairs of spans within a window of %d offsets and 6 large ones" % len(universe(tier))),
    Space("minimal enclosing span", gen_min, run_min,
          lambda tier: "all sequences of up to %d spans in 7 kinds of iterable" % (4 if thorough(tier) else 3)),
    Space("many spans", gen_long, run_long,
          lambda tier: "4-%d spans, the outermost ones at every pair of 5 positions, 7 kinds of iterable" % max(sizes(tier, 257))),
]
