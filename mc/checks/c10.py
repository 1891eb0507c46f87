"""C10 annotated text."""
import itertools
import re

from mc.core import Space, thorough, Violation
from mc import many
from mc.checks.c08 import spans

TAG = re.compile(r"<(/?)(q\w*)((?: [\w-]+=\"[^\"]*\")*)>")
ATTR = re.compile(r"([\w-]+)=\"([^\"]*)\"")
ATTRS = ((), (("class", "x"),), (("b", "2"), ("a", "1")))


def laminar(c):
    for (a, b), (x, y) in itertools.combinations(c, 2):
        if a < x < b < y or x < a < y < b:
            return False
    return True


def parse(markup):
    """-> (text, [(label, attrs, start, end)]) or Violation when not well nested."""
    out, stack, els, pos = [], [], [], 0
    n = 0
    for m in TAG.finditer(markup):
        chunk = markup[pos:m.start()]
        out.append(chunk)
        n += len(chunk)
        pos = m.end()
        if m.group(1):
            if not stack or stack[-1][0] != m.group(2) or m.group(3):
                raise Violation(f"end tag {m.group(0)} does not match the open element in {markup!r}")
            label, attrs, start = stack.pop()
            els.append((label, attrs, start, n))
        else:
            stack.append((m.group(2), dict(ATTR.findall(m.group(3))), n))
    out.append(markup[pos:])
    if stack:
        raise Violation(f"elements {stack} are never closed in {markup!r}")
    return "".join(out), els


def check(t, text, anns, offsets, form, what):
    """anns: (label, attrs pairs, (start, end)) relative to the larger text."""
    from immutablecollections import immutabledict
    from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
    from vistautils.span import Span

    def make(a):
        if a[1]:
            return AnnotatedSpan(a[0], Span(*a[2]), immutabledict(a[1]))
        return AnnotatedSpan(a[0], Span(*a[2]))

    real = [make(a) for a in anns]
    coll = {"list": lambda: list(real), "tuple": lambda: tuple(real), "set": lambda: dict.fromkeys(real).keys()}[form]()
    f = HTMLStyleAnnotationFormatter()
    if offsets is None:
        markup = t.call(lambda: f.annotated_text(text, coll), what)
        lo, hi = 0, len(text)
    else:
        markup = t.call(lambda: f.annotated_text(text, coll, text_offsets=Span(*offsets)), what)
        lo, hi = offsets
    plain, els = parse(markup)
    t.eq(plain, text, f"text without the tags in {markup!r} ({what})")
    want = []
    for label, attrs, (a, b) in anns:
        a, b = max(a, lo), min(b, hi)
        if a < b:
            want.append((label, sorted(attrs), a - lo, b - lo))
    if form == "set":
        uniq = list(dict.fromkeys((lb, tuple(sorted(at)), s) for lb, at, s in anns))
        want = [(lb, list(at), max(s[0], lo) - lo, min(s[1], hi) - lo) for lb, at, s in uniq
                if max(s[0], lo) < min(s[1], hi)]
    got = [(label, sorted(attrs.items()), a, b) for label, attrs, a, b in els]
    t.eq(sorted(got), sorted(want), f"elements of {markup!r} ({what})")
    t.outcome(f"{len(want)} elements")


LABELS = (("q0", "q1", "q2", "q3"), ("q0", "q0", "q0", "q0"), ("q0", "q0", "q1", "q0"))


def gen_whole(tier):
    text_lens = (1, 2, 3) if not thorough(tier) else (1, 2, 3, 4)
    for n in text_lens:
        ss = spans(range(0, n + 1))
        for k in (0, 1, 2, 3) if n < 4 or not thorough(tier) else (1, 2, 3):
            for c in itertools.product(ss, repeat=k):
                if laminar(c):
                    for li in range(len(LABELS) if k > 1 else 1):
                        yield (n, c, li)
    for c in itertools.product(spans(range(0, 5)), repeat=3):
        if laminar(c) and not thorough(tier):
            yield (4, c, 0)
    for c in itertools.product(spans(range(0, 3)), repeat=4):
        if laminar(c):
            yield (2, c, 0)


TEXTS = ("abcd", "\u00e9\U0001f600\u4e2d\u0301", "<&>\"", " \n\x00\r", "</b>", "\ufeff\x00\x85\u2028")


def run_whole(case, t):
    n, c, li = case
    t.state((n, c))
    for ti, text in enumerate(TEXTS):
        anns = [(LABELS[li][i], ATTRS[(i + ti + li) % 3], s) for i, s in enumerate(c)]
        form = ("list", "tuple", "set")[(ti + len(c)) % 3]
        check(t, text[:n], anns, None, form, f"{text[:n]!r} with {anns}")


def gen_snip(tier):
    ss = spans(range(0, 6))
    for lo, hi in spans(range(0, 5)):
        for k in (0, 1, 2) if not thorough(tier) else (0, 1, 2, 3):
            for c in itertools.product(ss, repeat=k):
                if laminar(c):
                    yield (lo, hi, c)
    for lo, hi in ((100, 103), (10 ** 6, 10 ** 6 + 2)):
        for c in itertools.product(spans(range(lo - 1, hi + 2)), repeat=2):
            if laminar(c):
                yield (lo, hi, c)
    if not thorough(tier):
        for c in itertools.product(spans(range(0, 5)), repeat=3):
            if laminar(c):
                yield (1, 3, c)


def run_snip(case, t):
    lo, hi, c = case
    t.state(case)
    text = ("uvwxyz" if lo % 2 else "\u00e9<b>&x")[: hi - lo]
    anns = [(LABELS[0][i], ATTRS[(i + lo) % 3], s) for i, s in enumerate(c)]
    check(t, text, anns, (lo, hi), ("list", "tuple", "set")[len(c) % 3], f"{text!r} at {lo}:{hi} with {anns}")


# --- labels and attributes, and the same annotation more than once ------------------------

SETS = ((), (("a", ""),), (("a", "0"),), (("a", " "), ("b", "")), (("b", "x y"), ("a", "\u00e9")), (("data-x", "1"), ("data", "2"), ("d", "")),
        (("class", "q0"), ("id", "/q0")))
NAMES = ("q", "q0", "q_1", "qq", "q\u00e9")


def gen_labels(tier):
    for n1, a1 in itertools.product(range(len(NAMES)), range(len(SETS))):
        for n2, a2 in itertools.product(range(len(NAMES)), range(len(SETS))):
            for second in ((0, 2), (0, 1), (1, 2), (3, 4)) if thorough(tier) or a1 == a2 or n1 == n2 else ((0, 1),):
                yield (((n1, a1, (0, 2)), (n2, a2, second)))
    for k in (2, 3, 4):
        for s in ((0, 1), (0, 4), (1, 3)):
            yield ((1, 4, s),) * k
            yield ((1, 4, (0, 4)),) + ((1, 4, s), (0, 0, s)) * k


def run_labels(case, t):
    from immutablecollections import immutabledict
    from vistautils.annotated_text_utils import AnnotatedSpan, to_end_tag, to_start_tag
    from vistautils.span import Span

    t.state(case)
    anns = [(NAMES[n], SETS[a], s) for n, a, s in case]
    for form in ("list", "tuple"):
        check(t, "a&b<", anns, None, form, f"{anns} given as {form}")
        check(t, "b<", anns, (1, 3), form, f"{anns} given as {form}, for 1:3")
    for label, attrs, s in anns[:1]:
        a = AnnotatedSpan(label, Span(*s), immutabledict(attrs))
        start, end = to_start_tag(a), to_end_tag(a)
        plain, els = parse(start + "x" + end)
        t.eq((plain, els), ("x", [(label, dict(attrs), 0, 1)]), f"{start} and {end}")


def gen_bad(tier):
    for n in range(0, 5):
        for s, e in spans(range(0, 6)):
            if e - s != n:
                for k in (0, 1):
                    yield (n, s, e, k)


def run_bad(case, t):
    from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
    from vistautils.span import Span

    n, s, e, k = case
    t.state(case)
    anns = [AnnotatedSpan("q", Span(s, e))][:k]
    t.raises(ValueError, lambda: HTMLStyleAnnotationFormatter().annotated_text("abcdef"[:n], anns, text_offsets=Span(s, e)),
             f"text of length {n} declared as {s}:{e}")


def gen_empty(tier):
    for k in (0, 1, 2):
        yield k


def run_empty(case, t):
    from vistautils.annotated_text_utils import AnnotatedSpan, HTMLStyleAnnotationFormatter
    from vistautils.span import Span

    t.state(case)
    anns = [AnnotatedSpan("q", Span(0, 1)), AnnotatedSpan("q", Span(3, 4))][:case]
    t.eq(t.call(lambda: HTMLStyleAnnotationFormatter().annotated_text("", anns), "the empty text"), "", "the empty text")


SPACES = [
    Space("whole texts", gen_whole, run_whole,
          "all nested-or-disjoint sequences of up to 3 annotations on texts of up to 4 characters (4 on 2), 6 texts"),
    Space("snippets", gen_snip, run_snip,
          "all snippets of a 6-character text with all nested-or-disjoint sequences of up to 2 (thorough 3) annotations"),
    Space("labels and attributes", gen_labels, run_labels,
          "pairs of annotations with 5 labels and 7 sets of attributes (empty values included), annotations repeated up to 4 times"),
    Space("wrong lengths", gen_bad, run_bad, "all small texts with all declared offsets of another length"),
    Space("empty text", gen_empty, run_empty, "the empty text with 0..2 annotations"),
]

SPACES += many.BY_CHECK["C10"]
