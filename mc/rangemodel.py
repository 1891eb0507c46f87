"""Reference model for ranges over a finite, ordered alphabet of values.

With n endpoint values there are 2n+2 places to cut the line.  They are numbered
    -1 = below everything, 2i = just below value i, 2i+1 = just above value i, 2n = above everything
and a range is a pair (lo, hi) of cuts with lo <= hi, -1 <= lo < 2n, 0 <= hi <= 2n.
Between cuts c-1 and c lies elementary segment c (0..2n), so a set of values that only
distinguishes the endpoints is a bitmask of 2n+1 bits.

A value list of 2n+1 ascending values v[0..2n] provides endpoint i = v[2i+1] and one probe value per
segment: v[j] lies in segment j.
"""
import datetime
import functools
from fractions import Fraction


@functools.total_ordering
class Money:
    """An ordered user type."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Money) and self.x == o.x

    def __lt__(self, o):
        if not isinstance(o, Money):
            return NotImplemented
        return self.x < o.x

    def __hash__(self):
        return hash(("money", self.x))

    def __repr__(self):
        return f"Money{self.x}"


class Bare:
    """A type which is ordered by < and compared by == alone."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Bare) and self.x == o.x

    def __lt__(self, o):
        if not isinstance(o, Bare):
            return NotImplemented
        return self.x < o.x

    def __hash__(self):
        return hash(("bare", self.x))

    def __repr__(self):
        return f"Bare{self.x}"


def values(name, m):
    """m ascending values of one ordered type, m odd."""
    h = m // 2
    if name == "int":
        return [10 * (i - h) for i in range(m)]
    if name == "dense":  # consecutive integers: no gaps for the code to rely on
        return [i - h for i in range(m)]
    if name == "bigint":
        return [(i - h) * 10 ** 20 + i for i in range(m)]
    if name == "float":
        mid = [0.1 * (i + 1 - h) for i in range(m - 2)]
        mid = [0.0 if abs(x) < 1e-12 else x for x in mid]
        return [float("-inf")] + mid + [float("inf")]
    if name == "mixed":  # ints and floats, equal across types
        return [i - h if i % 2 else float(i - h) for i in range(m)]
    if name == "str":
        return ["", *sorted("abcdefghijklmnopqrstuvwxyz"[i] * (1 + i % 3) for i in range(m - 2)), "\u00e9\u4e2d"]
    if name == "tuple":
        return [(i // 2, i % 2) if i % 3 else (i // 2, i % 2, 0) for i in range(m)]
    if name == "date":
        return [datetime.date(2020, 2, 27) + datetime.timedelta(days=i) for i in range(m)]
    if name == "fraction":
        return [Fraction(i - h, 3) for i in range(m)]
    if name == "money":
        return [Money(i - h) for i in range(m)]
    if name == "bare":
        return [Bare(i - h) for i in range(m)]
    if name == "falsy":  # falsy and truthy tuples
        return [()] + [(0,) * i for i in range(1, m)]
    raise KeyError(name)


ALPHABETS = ("int", "dense", "str", "float", "tuple", "falsy", "date", "fraction", "money", "bare", "bigint", "mixed")


def check_alphabets():
    for a in ALPHABETS:
        for m in (3, 5, 7, 9, 11, 21):
            v = values(a, m)
            assert len(v) == m and all(x < y for x, y in zip(v, v[1:])), (a, m, v)


def endpoints(name, n):
    """(endpoint values, probe values): n endpoints, 2n+1 probes."""
    v = values(name, 2 * n + 1)
    return [v[2 * i + 1] for i in range(n)], v


def all_ranges(n, empty=True, unbounded=True):
    lo_min, hi_max = (-1, 2 * n) if unbounded else (0, 2 * n - 1)
    out = []
    for lo in range(lo_min, 2 * n):
        for hi in range(max(lo if empty else lo + 1, 0), hi_max + 1):
            out.append((lo, hi))
    out.sort(key=lambda r: (r[1] - r[0], r[0]))
    return out


def make(r, ep):
    """The real Range for model range r."""
    from vistautils.range import Range

    lo, hi = r
    n = len(ep)
    if lo == -1 and hi == 2 * n:
        return Range.all()
    if lo == -1:
        return (Range.at_most if hi % 2 else Range.less_than)(ep[hi // 2])
    if hi == 2 * n:
        return (Range.greater_than if lo % 2 else Range.at_least)(ep[lo // 2])
    f = {(0, 0): Range.closed_open, (0, 1): Range.closed, (1, 0): Range.open, (1, 1): Range.open_closed}
    return f[(lo % 2, hi % 2)](ep[lo // 2], ep[hi // 2])


def unmake(rng, ep):
    """The model range of a real Range, read through its public queries only."""
    from vistautils.range import BoundType

    n = len(ep)

    def cut(value, kind, lower):
        i = ep.index(value)
        closed = kind is BoundType.closed()
        assert closed or kind is BoundType.open()
        return 2 * i + (0 if closed == lower else 1)

    lo = cut(rng.lower_endpoint, rng.lower_bound_type, True) if rng.has_lower_bound() else -1
    hi = cut(rng.upper_endpoint, rng.upper_bound_type, False) if rng.has_upper_bound() else 2 * n
    return (lo, hi)


def contains(r, j):
    return r[0] < j <= r[1]


def mask(r):
    return ((1 << (r[1] + 1)) - 1) & ~((1 << (r[0] + 1)) - 1)


def runs(m):
    """Maximal runs of the bitmask, as model ranges in ascending order."""
    out, j = [], 0
    while m >> j:
        if (m >> j) & 1:
            s = j
            while (m >> j) & 1:
                j += 1
            out.append((s - 1, j - 1))
        else:
            j += 1
    return out


def empty(r):
    return r[0] == r[1]


def encloses(a, b):
    return a[0] <= b[0] and b[1] <= a[1]


def connected(a, b):
    return max(a[0], b[0]) <= min(a[1], b[1])


def span(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def intersection(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


def observe(t, rng, r, ep, probes, what):
    """Compare every query of a single range with the model."""
    from vistautils.range import BoundType

    n = len(ep)
    lo, hi = r
    t.is_(rng.has_lower_bound(), lo != -1, f"{what}.has_lower_bound()")
    t.is_(rng.has_upper_bound(), hi != 2 * n, f"{what}.has_upper_bound()")
    kinds = {0: BoundType.closed(), 1: BoundType.open()}
    if lo == -1:
        t.raises(Exception, lambda: rng.lower_endpoint, f"{what}.lower_endpoint")
        t.raises(Exception, lambda: rng.lower_bound_type, f"{what}.lower_bound_type")
    else:
        t.eq(rng.lower_endpoint, ep[lo // 2], f"{what}.lower_endpoint")
        t.is_(rng.lower_bound_type, kinds[lo % 2], f"{what}.lower_bound_type")
    if hi == 2 * n:
        t.raises(Exception, lambda: rng.upper_endpoint, f"{what}.upper_endpoint")
        t.raises(Exception, lambda: rng.upper_bound_type, f"{what}.upper_bound_type")
    else:
        t.eq(rng.upper_endpoint, ep[hi // 2], f"{what}.upper_endpoint")
        t.is_(rng.upper_bound_type, kinds[1 - hi % 2], f"{what}.upper_bound_type")
    t.is_(rng.is_empty(), lo == hi, f"{what}.is_empty()")
    for j, v in enumerate(probes):
        t.is_(v in rng, contains(r, j), f"{v!r} in {what}")
