"""C29 iteration helpers equal their slice definitions, lazily and re-iterably."""
import collections
import itertools

from mc.core import Space, thorough, seqs
from mc import many


class Everything:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class Nothing:
    """Equal to nothing, not even itself."""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    def __hash__(self):
        return 1


class Awkward:
    """Cannot be compared or used as a condition."""

    def __eq__(self, other):
        raise ValueError("the truth value is ambiguous")

    def __ne__(self, other):
        raise ValueError("the truth value is ambiguous")

    def __bool__(self):
        raise ValueError("the truth value is ambiguous")

    __hash__ = None


ELEMENTS = {"a": "a", "none": None, "zero": 0, "empty": "", "list": [], "everything": Everything(), "nothing": Nothing(), "awkward": Awkward(), "false": False}


class Again:
    """An iterable which is neither a sequence nor an iterator."""

    def __init__(self, xs):
        self.xs, self.times = xs, 0

    def __iter__(self):
        self.times += 1
        for x in self.xs:
            yield x


class Counting:
    """An iterator which knows how far it was consumed."""

    def __init__(self, xs):
        self.it, self.taken, self.ended = iter(xs), 0, False

    def __iter__(self):
        return self

    def __next__(self):
        try:
            x = next(self.it)
        except StopIteration:
            self.ended = True
            raise
        self.taken += 1
        return x


ITERABLES = {"list": list, "tuple": tuple, "deque": collections.deque, "iterable": Again}
ITERATORS = {"iterator": iter, "generator": lambda xs: (x for x in xs), "counting": Counting}


def identical(t, got, want, w):
    t.true(isinstance(got, list) and len(got) == len(want) and all(identical_items(g, x) for g, x in zip(got, want)), f"{w}: {len(got)} elements, not {len(want)}, or others")


def identical_items(g, x):
    if isinstance(x, tuple):
        return type(g) is tuple and len(g) == len(x) and all(a is b for a, b in zip(g, x))
    return g is x


def drop_model(xs, n):
    return xs[n:]


def window_model(xs, size, partial):
    if partial:
        out = [tuple(xs[i : i + size]) for i in range(len(xs))]
        # a partial window at the end is a suffix; the first one may be partial, too
        return out
    return [tuple(xs[i : i + size]) for i in range(len(xs) - size + 1)]


def operations(n):
    """(label, function of an iterable, model) for sequences of length n."""
    from vistautils import iter_utils, iterutils

    for k in range(0, n + 3):
        yield f"drop {k}", lambda it, k=k: iter_utils.drop(it, k), lambda xs, k=k: drop_model(xs, k)
    for k in range(1, n + 3):
        yield f"windows of {k}", lambda it, k=k: iter_utils.windowed(it, k), lambda xs, k=k: window_model(xs, k, False)
        yield f"complete windows of {k}", lambda it, k=k: iter_utils.windowed(it, k, partial_windows=False), lambda xs, k=k: window_model(xs, k, False)
        yield f"partial windows of {k}", lambda it, k=k: iter_utils.windowed(it, k, partial_windows=True), lambda xs, k=k: window_model(xs, k, True)
    yield "pairs", iterutils.tile_with_pairs, lambda xs: window_model(xs, 2, False)


def gen_values(tier):
    names = tuple(ELEMENTS)
    for s in seqs(names, 0, 2):
        yield s
    for s in seqs(names[:4] + ("everything", "awkward") if not thorough(tier) else names, 3, 3):
        yield s
    for s in seqs(("a", "none", "everything"), 4, 5 if not thorough(tier) else 6):
        yield s
    for n in (6, 7, 8, 20):
        yield ("a", "none", "zero", "everything", "empty")[: n % 5] + ("a",) * (n - n % 5)


def run_values(case, t):
    from vistautils.iter_utils import non_none

    xs = [ELEMENTS[x] for x in case]
    # distinct where possible, so that identity tells positions apart
    xs = [f"{i}{x}" if isinstance(x, str) and x else x for i, x in enumerate(xs)]
    t.state(case)
    for label, f, model in operations(len(xs)):
        want = model(xs)
        for kind, make in {**ITERABLES, **ITERATORS}.items():
            w = f"{label} of the {kind} {case}"
            r = t.call(lambda: f(make(xs)), w)
            identical(t, t.call(lambda: list(r), w), want, w)
            again = t.call(lambda: list(r), w + " again")
            identical(t, again, want if kind in ITERABLES else [], w + " iterated again")
            if kind in ITERABLES:
                t.false(iter(r) is iter(r), f"{w}: the iterators are one")
            else:
                t.true(iter(r) is r, f"{w} is an iterator")
    for kind, make in {**ITERABLES, **ITERATORS}.items():
        identical(t, t.call(lambda: list(non_none(make(xs))), "non_none"), [x for x in xs if x is not None], f"non_none of the {kind} {case}")
    t.eq(len(xs), len(case), "length of the input")


def gen_only(tier):
    names = tuple(ELEMENTS)
    for s in seqs(names, 0, 3 if not thorough(tier) else 4):
        yield s
    for n in (9, 10, 11, 12, 40):
        yield ("a",) * n


def run_only(case, t):
    from vistautils.collection_utils import get_only
    from vistautils.iter_utils import only

    xs = [ELEMENTS[x] for x in case]
    t.state(case)
    for kind, make in {**ITERABLES, **ITERATORS}.items():
        for name, f in (("only", only), ("get_only", get_only)):
            w = f"{name} of the {kind} {case}"
            if len(xs) == 1:
                t.is_(t.call(lambda: f(make(xs)), w), xs[0], w)
            else:
                t.raises((ValueError, LookupError) if name == "only" else ValueError, lambda: f(make(xs)), w)
    for f in (only, get_only):
        c = Counting(xs)
        try:
            f(c)
        except (ValueError, LookupError):
            pass
        t.true(c.taken <= 2, f"{f.__name__} of {case} consumed {c.taken}")
    t.outcome(f"{min(len(xs), 2)} elements")


def gen_containers(tier):
    for label in ("", "a", "ab", "abc"):
        for kind in ("str", "set", "dict", "frozenset", "range", "bytes", "keys", "map"):
            yield (label, kind)


def run_containers(case, t):
    from vistautils.collection_utils import get_only
    from vistautils.iter_utils import only

    label, kind = case
    t.state(case)
    make = {"str": lambda: label, "set": lambda: set(label), "dict": lambda: {c: 1 for c in label}, "frozenset": lambda: frozenset(label), "range": lambda: range(len(label)), "bytes": lambda: label.encode(),
            "keys": lambda: {c: 1 for c in label}.keys(), "map": lambda: map(str.upper, label)}[kind]
    want = list(make())
    for lab, f, model in operations(len(label)):
        w = f"{lab} of the {kind} of {label!r}"
        t.eq(list(f(make())), model(want), w)
    for f in (only, get_only):
        if len(want) == 1:
            t.eq(f(make()), want[0], f"{f.__name__} of the {kind} of {label!r}")
        else:
            t.raises((ValueError, LookupError) if f is only else ValueError, lambda: f(make()), f"{f.__name__} of the {kind} of {label!r}")


# --- laziness -----------------------------------------------------------------------
def gen_lazy(tier):
    n = 7 if thorough(tier) else 5
    for length in range(0, n + 1):
        for op in ("drop", "windows", "partial", "non_none", "pairs"):
            for k in range(0 if op == "drop" else 1, length + 3):
                if op in ("non_none", "pairs") and k != 2:
                    continue
                yield (length, op, k)


def make_op(op, k):
    from vistautils import iter_utils, iterutils

    return {"drop": lambda it: iter_utils.drop(it, k), "windows": lambda it: iter_utils.windowed(it, k), "partial": lambda it: iter_utils.windowed(it, k, partial_windows=True),
            "non_none": iter_utils.non_none, "pairs": iterutils.tile_with_pairs}[op]


def run_lazy(case, t):
    length, op, k = case
    t.state(case)
    f = make_op(op, k)
    for infinite in (False, True):
        c = Counting(itertools.count() if infinite else range(length))
        r = t.call(lambda: f(c), f"{op} {k}")
        t.eq(c.taken, 0, f"elements consumed by making {op} {k}")
        it = iter(r)
        t.eq(c.taken, 0, f"elements consumed by iter of {op} {k}")
        made = 0
        for _ in range(length + 3):
            try:
                next(it)
            except StopIteration:
                t.true(not infinite, f"{op} {k} of an infinite iterator ended")
                break
            made += 1
            need = {"drop": k + made, "non_none": made, "pairs": made + 1}.get(op, k + made - 1)
            if not infinite:
                need = min(need, length)
            t.true(c.taken <= need, f"{op} {k} consumed {c.taken} elements for {made} results, {need} are enough")
    # an iterable is not touched before it is iterated
    a = Again(list(range(length)))
    r = f(a)
    t.true(a.times == 0 or op == "non_none", f"{op} {k} iterated its input when made")
    # what is left in an iterator of which a part was consumed
    for used in range(length + 1):
        it = iter(range(length))
        for _ in range(used):
            next(it)
        rest = list(range(used, length))
        got = list(f(it))
        want = {"drop": drop_model(rest, k), "windows": window_model(rest, k, False), "partial": window_model(rest, k, True), "non_none": rest, "pairs": window_model(rest, 2, False)}[op]
        t.eq(got, want, f"{op} {k} of an iterator over {length} of which {used} are consumed")


# --- two iterations at once ------------------------------------------------------------
def gen_interleaved(tier):
    n = 5 if thorough(tier) else 4
    for length in range(0, n + 1):
        for op in ("drop", "windows", "partial", "pairs"):
            for k in range(0 if op == "drop" else 1, length + 2):
                if op == "pairs" and k != 2:
                    continue
                for kind in ITERABLES:
                    yield (length, op, k, kind)


def run_interleaved(case, t):
    length, op, k, kind = case
    xs = [f"x{i}" for i in range(length)]
    f = make_op(op, k)
    want = {"drop": drop_model(xs, k), "windows": window_model(xs, k, False), "partial": window_model(xs, k, True), "pairs": window_model(xs, 2, False)}[op]
    steps = len(want) + 1
    r = f(ITERABLES[kind](xs))
    for firsts in itertools.combinations(range(2 * steps), steps):
        its, got = (iter(r), iter(r)), ([], [])
        who = set(firsts)
        for i in range(2 * steps):
            j = 0 if i in who else 1
            got[j].append(next(its[j], "END"))
        t.state((case, firsts))
        t.eq(got, (want + ["END"], want + ["END"]), f"{op} {k} of the {kind} {xs} iterated twice at once, first at {firsts}")


def gen_refused(tier):
    for length in range(0, 4):
        for k in (-1, -2, -100):
            yield ("drop", length, k)
        for k in (0, -1, -5):
            yield ("windows", length, k)
            yield ("partial", length, k)


def run_refused(case, t):
    op, length, k = case
    t.state(case)
    for kind, make in {**ITERABLES, **ITERATORS}.items():
        xs = make(list(range(length)))
        t.raises(ValueError, lambda: make_op(op, k)(xs), f"{op} {k} of a {kind}")
        if kind in ITERATORS:
            t.eq(list(xs), list(range(length)), f"the {kind} after {op} {k} was refused")


# --- iterables which change between being wrapped and being iterated ----------------------------
CHANGES = ("append", "pop", "clear", "insert", "replace")


def gen_changed(tier):
    for length in range(0, 5 if thorough(tier) else 4):
        for op in ("drop", "windows", "partial"):
            for k in range(0 if op == "drop" else 1, length + 2):
                for n in (1, 2):
                    for changes in itertools.product(CHANGES, repeat=n):
                        yield (length, op, k, changes)


def run_changed(case, t):
    length, op, k, changes = case
    t.state(case)
    xs = [f"x{i}" for i in range(length)]
    r = make_op(op, k)(xs)
    w = f"{op} {k} of a list of {length}"
    model = (lambda: drop_model(list(xs), k)) if op == "drop" else (lambda: window_model(list(xs), k, op == "partial"))
    t.eq(list(r), model(), w)
    for c in changes:
        if c == "append":
            xs.append("new")
        elif c == "pop" and xs:
            xs.pop(0)
        elif c == "clear":
            del xs[:]
        elif c == "insert":
            xs.insert(0, "first")
        elif c == "replace" and xs:
            xs[-1] = "other"
        t.eq(list(r), model(), f"{w}, iterated again after changes {changes} of the list")


# --- iterables which fail ------------------------------------------------------------------------

class Broken(Exception):
    pass


class Interrupted(BaseException):
    pass


FAILURES = {"error": Broken, "lookup": IndexError, "interrupt": Interrupted, "key": KeyError, "runtime": RuntimeError}


def gen_failing(tier):
    for length in range(0, 5 if thorough(tier) else 4):
        for op in ("drop", "windows", "partial", "pairs", "only"):
            for k in range(0 if op == "drop" else 1, length + 2) if op not in ("pairs", "only") else (0,):
                for failure in FAILURES:
                    for kind in ("iterator", "iterable"):
                        yield (length, op, k, failure, kind)


def run_failing(case, t):
    from vistautils import iter_utils, iterutils

    length, op, k, failure, kind = case
    t.state(case)
    xs = [f"x{i}" for i in range(length)]

    class Failing:
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i == length:
                raise FAILURES[failure]("on purpose")
            self.i += 1
            return xs[self.i - 1]

    if kind == "iterable":
        class Again:
            def __iter__(self):
                return Failing()

        source = Again()
    else:
        source = Failing()
    w = f"{op} {k} of an {kind} which fails ({failure}) after {length} elements"
    if op == "only":
        if length < 2:
            t.raises(FAILURES[failure], lambda: iter_utils.only(source), w)
        return
    f = iterutils.tile_with_pairs if op == "pairs" else make_op(op, k)
    want = drop_model(xs, k) if op == "drop" else window_model(xs, 2 if op == "pairs" else k, False)
    if op == "partial":
        # the windows which begin a window's length before the failure are whole
        want = window_model(xs, k, False)
    for again in range(2 if kind == "iterable" else 1):
        got = []

        def go():
            for x in f(source):
                got.append(x)

        t.raises(FAILURES[failure], go, w)
        t.eq(got, want, f"what came before the failure in {w}")


SPACES = [
    Space("failing", gen_failing, run_failing, "all helpers on iterators and iterables of up to 3 (thorough 4) elements which then fail in one of 5 ways"),
    Space("changed", gen_changed, run_changed, "lists of up to 3 (thorough 4) elements, every helper which keeps an iterable, all sequences of up to 2 of 5 changes of the list between iterations"),
    Space("values", gen_values, run_values, "all sequences of up to 2 of 9 elements, 3 of 6 (thorough 9), 5 (thorough 6) of 3 x all counts and sizes x 7 kinds of input, iterated twice"),
    Space("only", gen_only, run_only, "all sequences of up to 3 (thorough 4) of 9 elements x 7 kinds of input"),
    Space("containers", gen_containers, run_containers, "8 kinds of containers of up to 3 elements"),
    Space("lazy", gen_lazy, run_lazy, "all operations on iterators of up to 5 (thorough 7) elements and on infinite ones, consumption after every step"),
    Space("interleaved", gen_interleaved, run_interleaved, "all interleavings of two iterations of all operations on sequences of up to 4 (thorough 5)"),
    Space("refused", gen_refused, run_refused, "negative counts and sizes below one"),
]

SPACES += many.BY_CHECK["C29"]
