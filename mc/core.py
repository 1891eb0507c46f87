"""What check modules are written with.

A check module defines SPACES, a list of Space objects.  A Space enumerates plain-data
cases (nested tuples of literals), simplest first, and runs each on the real code in lock
step with a reference model.  `run(case, t)` reports a disagreement by raising Violation,
usually through the helpers of the trial object t.
"""
import os
import shutil
import itertools


class Violation(Exception):
    pass


class Space:
    def __init__(self, name, gen, run, bound, tmp=False):
        self.name = name
        self.gen = gen  # tier -> iterable of cases
        self.run = run  # (case, Trial) -> None
        self.bound = bound  # text, or tier -> text
        self.tmp = tmp  # needs a fresh directory per case


def thorough(tier):
    return tier == "thorough"


class _Raised:
    def __init__(self, exc):
        self.exc = exc


class Trial:
    """One execution of one case."""

    def __init__(self, base):
        self.ops = 0
        self.states = set()
        self.outcomes = {}
        self._base = base
        self._n = 0
        self.dir = None

    # --- scratch directory -------------------------------------------------
    def fresh_dir(self):
        self._n += 1
        self.dir = os.path.join(self._base, f"c{self._n}")
        os.mkdir(self.dir)
        return self.dir

    def drop_dir(self):
        if self.dir is not None:
            try:
                os.chdir(os.path.dirname(self._base))
            except OSError:
                os.chdir("/")
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    # --- coverage ----------------------------------------------------------
    def state(self, s):
        self.states.add(hash(s))

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    # --- comparisons -------------------------------------------------------
    def eq(self, actual, expected, what=""):
        self.ops += 1
        if not (actual == expected):
            raise Violation(f"{what}: expected {expected!r}, got {_r(actual)}")

    def same(self, actual, expected, what=""):
        """Equal and of the same type (1 is not True is not 1.0)."""
        self.ops += 1
        if type(actual) is not type(expected) or not (actual == expected):
            raise Violation(f"{what}: expected {expected!r} ({type(expected).__name__}), "
                            f"got {_r(actual)} ({type(actual).__name__})")

    def deep(self, actual, expected, what=""):
        """Equal structure, with identical leaf types; mappings compared as ordered."""
        self.ops += 1
        if not deep_same(actual, expected):
            raise Violation(f"{what}: expected {expected!r}, got {_r(actual)}")

    def is_(self, actual, expected, what=""):
        self.ops += 1
        if actual is not expected:
            raise Violation(f"{what}: expected {expected!r}, got {_r(actual)}")

    def true(self, cond, what=""):
        self.ops += 1
        if not cond:
            raise Violation(f"{what}: is false")

    def false(self, cond, what=""):
        self.ops += 1
        if cond:
            raise Violation(f"{what}: is true")

    def raises(self, types, fn, what="", cause=False):
        """fn must raise one of types (or, with cause, wrap one of them)."""
        self.ops += 1
        try:
            r = fn()
        except types as e:  # noqa
            self.outcome("raised " + type(e).__name__)
            return e
        except Exception as e:
            raise Violation(f"{what}: expected {_tn(types)}, got {type(e).__name__}: {e}")
        raise Violation(f"{what}: expected {_tn(types)}, but it returned {_r(r)}")

    def call(self, fn, what=""):
        """fn must not raise."""
        self.ops += 1
        try:
            return fn()
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__}: {e}")

    def agree(self, fn, expected, what="", errors=()):
        """expected is a value, or an Err(types) instance."""
        if isinstance(expected, Err):
            self.raises(expected.types, fn, what)
        else:
            self.deep(self.call(fn, what), expected, what)

    def fail(self, msg):
        raise Violation(msg)


class Err:
    def __init__(self, *types):
        self.types = types

    def __repr__(self):
        return "Err(%s)" % _tn(self.types)


def _tn(types):
    if isinstance(types, tuple):
        return "/".join(t.__name__ for t in types)
    return types.__name__


def _r(x):
    try:
        s = repr(x)
    except Exception as e:
        s = f"<unprintable: {type(e).__name__}>"
    return s if len(s) < 1500 else s[:1500] + "..."


def deep_same(a, b):
    from collections.abc import Mapping

    if isinstance(b, Mapping):
        return (
            isinstance(a, Mapping)
            and list(a.keys()) == list(b.keys())
            and all(deep_same(a[k], b[k]) for k in b)
        )
    if isinstance(b, (list, tuple)):
        return (
            type(a) is type(b) and len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
        )
    if isinstance(b, float) and b != b:
        return isinstance(a, float) and a != a
    return type(a) is type(b) and a == b


def seqs(alphabet, lo, hi):
    """All sequences over alphabet with length lo..hi, shortest first."""
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def sizes(tier, top=257):
    """Sizes at which batches, pages, digits and powers of two end."""
    out = [8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257]
    if thorough(tier):
        out = sorted({*range(8, 131), *out, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025})
        top *= 4
    return [n for n in out if n <= top]


def subsets(items, lo=0, hi=None):
    items = list(items)
    for n in range(lo, (len(items) if hi is None else hi) + 1):
        yield from itertools.combinations(items, n)
