"""C09 span indices against a scan over all items."""
import itertools

from mc.core import Space, thorough, sizes, Violation
from mc.checks.c08 import spans


class Ident:
    """Compared by identity."""

    def __init__(self, span, label):
        self.span, self.label = span, label

    def __repr__(self):
        return f"{self.label}@{self.span}"


class Labelled(Ident):
    """Compared by label only: the same value may occur on different spans."""

    def __eq__(self, o):
        return isinstance(o, Labelled) and self.label == o.label

    def __hash__(self):
        return hash(self.label)


class Falsy(Ident):
    def __bool__(self):
        return False


class Alike(Ident):
    """Different items which look the same when printed."""

    def __repr__(self):
        return "item"


KINDS = {"ident": Ident, "labelled": Labelled, "falsy": Falsy, "alike": Alike}
FORMS = ("list", "iterator", "tuple", "reversed")


def real(kind, specs):
    from vistautils.span import Span

    return [KINDS[kind](Span(*s), label) for s, label in specs]


def arg(items, form):
    return {"list": lambda: items, "iterator": lambda: iter(items), "tuple": lambda: tuple(items),
            "reversed": lambda: (x for x in reversed(items))}[form]()


QUERIES = spans(range(0, 5)) + [(-3, 0), (-1, 1), (-1, 9), (3, 9), (7, 9)]


def relation(name, s, q):
    return {
        "exactly_matching": s == q,
        "overlapping": max(s[0], q[0]) < min(s[1], q[1]),
        "contained": q[0] <= s[0] and s[1] <= q[1],
        "containing": s[0] <= q[0] and q[1] <= s[1],
    }[name]


RELATIONS = ("exactly_matching", "overlapping", "contained", "containing")


def check_set(t, got, want, kind, w):
    got = list(got)
    if kind == "labelled":
        t.eq(sorted(x.label for x in got), sorted({x.label for x in want}), w)
    else:
        t.eq((len(got), {id(x) for x in got}), (len(want), {id(x) for x in want}), w)


def gen_general(tier):
    ss = spans(range(0, 5))
    for n in (0, 1, 2, 3) if not thorough(tier) else (0, 1, 2, 3, 4):
        for c in itertools.product(ss, repeat=n):
            yield ("ident", tuple((s, i) for i, s in enumerate(c)))
            if n == 2:
                yield ("falsy", tuple((s, i) for i, s in enumerate(c)))
                yield ("alike", tuple((s, i) for i, s in enumerate(c)))
            if n in (2, 3) and (n == 2 or thorough(tier) or c[0] <= c[1]):
                yield ("labelled", tuple((s, i % 2 and 1 or 0) for i, s in enumerate(c)))
                yield ("labelled", tuple((s, 7) for i, s in enumerate(c)))
    # the same object given twice, and long collections
    yield ("twice", (((0, 2), 0), ((0, 2), 0)))
    yield ("ident", tuple(((i % 7, i % 7 + 1 + i % 4), i) for i in range(60)))


def run_general(case, t):
    from vistautils.span import HasSpanIndex, Span

    kind, specs = case
    t.state((kind, specs))
    if kind == "twice":
        one = real("ident", specs[:1])
        ix = HasSpanIndex.index(one * 2)
        for q in QUERIES:
            for rel in RELATIONS:
                check_set(t, getattr(ix, "get_" + rel)(Span(*q)), [x for x in one if relation(rel, specs[0][0], q)],
                          "ident", f"{rel} {q} with an item given twice")
        return
    items = real(kind, specs)
    form = FORMS[sum(s[1] for s, _ in specs) % 4]
    ix = t.call(lambda: HasSpanIndex.index(arg(items, form)), f"index of {specs}")
    for q in QUERIES:
        for rel in RELATIONS:
            want = [x for x in items if relation(rel, (x.span.start, x.span.end), q)]
            check_set(t, getattr(ix, "get_" + rel)(Span(*q)), want, kind, f"get_{rel}({q}) of {specs} given as {form}")
            t.outcome(f"{rel} {min(len(want), 3)}")


def gen_disjoint(tier):
    ss = spans(range(0, 5 if not thorough(tier) else 6))
    for n in (0, 1, 2, 3) if not thorough(tier) else (0, 1, 2, 3, 4):
        for c in itertools.product(ss, repeat=n):
            yield ("ident", tuple((s, i) for i, s in enumerate(c)))
            if n == 2:
                yield ("falsy", tuple((s, i) for i, s in enumerate(c)))
                yield ("alike", tuple((s, i) for i, s in enumerate(c)))
            if len(set(c)) == n and n > 1:
                yield ("labelled", tuple((s, 0) for s in c))
                yield ("labelled", tuple((s, i % 2) for i, s in enumerate(c)))
    yield ("ident", tuple(((3 * i, 3 * i + 1 + i % 3), i) for i in range(20)))


def run_disjoint(case, t):
    from vistautils.span import HasSpanIndex, Span

    kind, specs = case
    t.state((kind, specs))
    ok = not any(relation("overlapping", a[0], b[0]) for a, b in itertools.combinations(specs, 2))
    t.outcome("accepted" if ok else "refused")
    queries = QUERIES if len(specs) < 5 else [(a, b) for a in range(0, 62, 2) for b in range(a + 1, 62, 3)]
    for form in FORMS:
        items = real(kind, specs)
        w = f"disjoint index of {specs} given as {form}"
        if not ok:
            t.raises(ValueError, lambda: HasSpanIndex.index_disjoint(arg(items, form)), w)
            continue
        ix = t.call(lambda: HasSpanIndex.index_disjoint(arg(items, form)), w)
        for q in queries:
            for rel in RELATIONS:
                want = [x for x in items if relation(rel, (x.span.start, x.span.end), q)]
                got = getattr(ix, "get_" + rel)(Span(*q))
                if rel in ("overlapping", "contained"):
                    check_set(t, got, want, kind, f"get_{rel}({q}) of {w}")
                else:
                    t.is_(got, want[0] if want else None, f"get_{rel}({q}) of {w}")


def gen_many(tier):
    for n in sizes(tier, 129):
        for shape in ("spread", "nested", "ladder", "same", "one", "two"):
            yield (n, shape)


def run_many(case, t):
    from vistautils.span import HasSpanIndex, Span

    n, shape = case
    spec = {"spread": lambda i: (3 * i, 3 * i + 1 + i % 3), "nested": lambda i: (i, 2 * n - i), "ladder": lambda i: (i, i + 5),
            "same": lambda i: (i // 4, i // 4 + 2), "one": lambda i: (3, 7), "two": lambda i: (i % 2, i % 2 + 4)}[shape]
    specs = [(spec(i), i) for i in range(n)]
    at = sorted({0, 1, 2, 7, 8, 9, n // 4, n // 2, n - 2, n - 1} & set(range(n)))
    queries = set()
    for i in at:
        (a, b), _ = specs[i]
        queries |= {(a, b), (a, a + 1), (b, b + 1), (a - 1, a), (a - 1, b + 1), (a, b + 1)} | {(a, specs[j][0][1]) for j in at} | {(b, specs[j][0][0]) for j in at}
    queries = sorted((a, b) for a, b in queries if a < b) + [(-5, 4 * n + 5)]
    t.state(case)
    for k, form in enumerate(FORMS):
        items = real("ident", specs if k % 2 else specs[1::2] + specs[::2])
        w = f"index of {n} {shape} items given as {form}"
        ix = t.call(lambda: HasSpanIndex.index(arg(items, form)), w)
        dj = t.call(lambda: HasSpanIndex.index_disjoint(arg(items, form)), "disjoint " + w) if shape == "spread" else None
        for q in queries if k == 0 else queries[::5]:
            for rel in RELATIONS:
                want = [x for x in items if relation(rel, (x.span.start, x.span.end), q)]
                check_set(t, getattr(ix, "get_" + rel)(Span(*q)), want, "ident", f"get_{rel}({q}) of {w}")
                if dj is not None:
                    got = getattr(dj, "get_" + rel)(Span(*q))
                    if rel in ("overlapping", "contained"):
                        check_set(t, got, want, "ident", f"get_{rel}({q}) of disjoint {w}")
                    else:
                        t.is_(got, want[0] if want else None, f"get_{rel}({q}) of disjoint {w}")
        if shape == "spread":
            for i in sorted({0, n // 2, n - 1}):
                more = items + real("ident", [(specs[i][0], "extra")])
                t.raises(ValueError, lambda: HasSpanIndex.index_disjoint(arg(more, form)), f"disjoint {w} and one on {specs[i][0]}")


SPACES = [
    Space("general index", gen_general, run_general,
          lambda tier: "all sequences of up to %d items over 10 spans, all queries" % (4 if thorough(tier) else 3)),
    Space("disjoint index", gen_disjoint, run_disjoint,
          lambda tier: "all sequences of up to %d items over %d spans, accepted or refused, all queries, 4 input forms"
          % ((4, 15) if thorough(tier) else (3, 10))),
    Space("many items", gen_many, run_many,
          lambda tier: "8-%d spread, nested, overlapping or coinciding items, queries around and between 10 of them" % max(sizes(tier, 129))),
]
