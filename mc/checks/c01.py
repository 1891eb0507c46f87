"""C01 membership, bounds and refusals of a single range."""
from mc.core import Space, thorough
from mc import rangemodel as M

BOUNDED = ("open", "closed", "closed_open", "open_closed")
HALF = ("less_than", "at_most", "greater_than", "at_least")


def gen(tier):
    sizes = (5, 7) if not thorough(tier) else (5, 7, 9, 11, 21)
    for m in sizes:
        for a in M.ALPHABETS:
            yield (a, m, "all", 0, 0)
            for k in HALF:
                for i in range(m):
                    yield (a, m, k, i, i)
            for i in range(m):
                for j in range(m):
                    for k in BOUNDED:
                        yield (a, m, k, i, j)


def run(case, t):
    from vistautils.range import Range, BoundType

    a, m, kind, i, j = case
    v = M.values(a, m)
    f = getattr(Range, kind)
    what = f"Range.{kind}({v[i]!r}, {v[j]!r})"
    if kind == "all":
        rng = t.call(f, what)
        member = lambda p: True
        lower = upper = None
        empty = False
    elif kind in HALF:
        rng = t.call(lambda: f(v[i]), what)
        member = {
            "less_than": lambda p: p < i, "at_most": lambda p: p <= i,
            "greater_than": lambda p: p > i, "at_least": lambda p: p >= i,
        }[kind]
        lower = {"greater_than": "open", "at_least": "closed"}.get(kind)
        upper = {"less_than": "open", "at_most": "closed"}.get(kind)
        empty = False
    else:
        if j < i or (i == j and kind == "open"):
            t.raises(ValueError, lambda: f(v[i], v[j]), what)
            t.state((kind, i, j))
            return
        rng = t.call(lambda: f(v[i], v[j]), what)
        lower = "open" if kind in ("open", "open_closed") else "closed"
        upper = "open" if kind in ("open", "closed_open") else "closed"
        lo_ok = (lambda p: p > i) if lower == "open" else (lambda p: p >= i)
        hi_ok = (lambda p: p < j) if upper == "open" else (lambda p: p <= j)
        member = lambda p: lo_ok(p) and hi_ok(p)
        empty = i == j and kind != "closed"
    t.state((a, kind, i, j))
    for p in range(m):
        t.is_(v[p] in rng, member(p), f"{v[p]!r} in {what}")
    t.outcome("members %d" % sum(member(p) for p in range(m)))
    t.raises(ValueError, lambda: None in rng, f"None in {what}")
    t.is_(rng.is_empty(), empty, f"{what}.is_empty()")
    for side, want, val in (("lower", lower, v[i]), ("upper", upper, v[j])):
        t.is_(getattr(rng, f"has_{side}_bound")(), want is not None, f"{what}.has_{side}_bound()")
        if want is None:
            t.raises(Exception, lambda: getattr(rng, f"{side}_endpoint"), f"{what}.{side}_endpoint")
            t.raises(Exception, lambda: getattr(rng, f"{side}_bound_type"), f"{what}.{side}_bound_type")
        else:
            t.same(getattr(rng, f"{side}_endpoint"), val, f"{what}.{side}_endpoint")
            bt = getattr(rng, f"{side}_bound_type")
            t.is_(bt, getattr(BoundType, want)(), f"{what}.{side}_bound_type")
            t.is_(bt.flip(), BoundType.closed() if want == "open" else BoundType.open(),
                  f"{what}.{side}_bound_type.flip()")


SPACES = [
    Space("construct-and-probe", gen, run,
          lambda tier: "9 kinds x all endpoint pairs from 5 and 7 ordered values"
          + (" (thorough also 9, 11 and 21)" if thorough(tier) else "")
          + " of 12 value types, every value and None probed"),
]
