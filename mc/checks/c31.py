"""C31 memory amounts parse exactly the documented forms to the right amount and unit."""
import itertools

from mc.core import Space, thorough, seqs

UNITS = {"K": "KILOBYTES", "M": "MEGABYTES", "G": "GIGABYTES", "T": "TERABYTES"}


def parse(s):
    """(amount, unit) or None."""
    i = 0
    while i < len(s) and s[i] in "0123456789":
        i += 1
    if i == 0 or int(s[:i]) < 1:
        return None
    rest = s[i:]
    if rest[:1] == " ":
        rest = rest[1:]
    if rest[1:] not in ("", "b", "B"):
        return None
    unit = {"k": "K", "m": "M", "g": "G", "t": "T", "K": "K", "M": "M", "G": "G", "T": "T"}.get(rest[:1])
    return (int(s[:i]), UNITS[unit]) if unit else None


def check(t, s):
    from vistautils.memory_amount import MemoryAmount, MemoryUnit

    want = parse(s)
    if want is None:
        t.raises(Exception, lambda: MemoryAmount.parse(s), f"parse({s!r})")
        return
    m = t.call(lambda: MemoryAmount.parse(s), f"parse({s!r})")
    t.same(m.amount, want[0], f"amount of {s!r}")
    t.is_(m.unit, MemoryUnit[want[1]], f"unit of {s!r}")
    t.true(m == MemoryAmount(want[0], MemoryUnit[want[1]]), f"{s!r} equals the same amount")
    t.outcome("parsed")


CORE = "019 KkMmGgTtBb"
ODD = "1KB \n\t\r+-.,_x\u00a0\u2009\x0b\x00e'/0"


def chunks(alphabet, n):
    """Prefixes standing for all strings of up to n characters."""
    for s in seqs(alphabet, 0, max(0, n - 2)):
        yield "".join(s)


def gen_core(tier):
    yield from (("all", CORE, p) for p in chunks(CORE, 6 if thorough(tier) else 5))


def gen_odd(tier):
    yield from (("all", ODD, p) for p in chunks(ODD, 5 if thorough(tier) else 4))


def run_all(case, t):
    _, alphabet, prefix = case
    t.state(case)
    check(t, prefix)
    for a in alphabet:
        check(t, prefix + a)
        for b in alphabet:
            check(t, prefix + a + b)


def gen_shapes(tier):
    numbers = ("", "0", "00", "1", "9", "10", "007", "42", "1024", "-1", "+1", "1.5", "1,000", "1_000", "1e3", "0x10", "999999999999999999999999", "1" * 60, " 1", "1 1")
    gaps = ("", " ", "  ", "\t", "\n", "\u00a0", "-", "_")
    units = ("", "K", "k", "M", "m", "G", "g", "T", "t", "B", "b", "P", "E", "KI", "Ki", "KM", "\u212a", "kilobytes", "GIGABYTES")
    ends = ("", "B", "b", "BB", "Bytes", "iB", " ", "\n", " B", ".", "s", "/s", "\x00", "b\n", "B ")
    for n in numbers:
        for g in gaps:
            yield (n, g, units, ends)


def run_shapes(case, t):
    n, g, units, ends = case
    t.state((n, g))
    for u in units:
        for e in ends:
            for before in ("", " ", "x", "\n", "~"):
                check(t, before + n + g + u + e)


def gen_units(tier):
    alphabet = [chr(c) for c in range(0, 0x250)] + list("\u212a\uff2b\u1d37\u24a6\u212c\u03a4\u041a\u0422\u041c")
    yield ("", alphabet)
    for a in alphabet:
        yield (a, alphabet if thorough(tier) else alphabet[:128])


def run_units(case, t):
    from vistautils.memory_amount import MemoryUnit

    prefix, alphabet = case
    t.state(prefix)
    for c in [""] + list(alphabet):
        s = prefix + c
        if len(s) == 1 and s in "kKmMgGtT":
            t.is_(t.call(lambda: MemoryUnit.parse(s), f"unit {s!r}"), MemoryUnit[UNITS[s.upper()]], f"unit {s!r}")
            t.outcome("unit")
        else:
            t.raises(Exception, lambda: MemoryUnit.parse(s), f"unit {s!r}")


def gen_amounts(tier):
    for a in (0, -1, -10 ** 30, 1, 2, 7, 10 ** 30, "1", "", None, 1.0, 1.5, 0.5, [1], "K"):
        for u in UNITS.values():
            yield (a, u)


def run_amounts(case, t):
    from vistautils.memory_amount import MemoryAmount, MemoryUnit

    a, u = case
    t.state(repr(case))
    if type(a) is int and a >= 1:
        for make in (lambda: MemoryAmount(a, MemoryUnit[u]), lambda: MemoryAmount(amount=a, unit=MemoryUnit[u])):
            m = t.call(make, f"{a} {u}")
            t.same(m.amount, a, "amount")
            t.is_(m.unit, MemoryUnit[u], "unit")
            t.true(m == make() and hash(m) == hash(make()), f"{a} {u} equals itself")
            for v in UNITS.values():
                t.is_(m == MemoryAmount(a, MemoryUnit[v]), u == v, f"{a} {u} == {a} {v}")
            t.false(m == MemoryAmount(a + 1, MemoryUnit[u]), f"{a} {u} == {a + 1} {u}")
    else:
        t.raises(Exception, lambda: MemoryAmount(a, MemoryUnit[u]), f"an amount of {a!r}")


SPACES = [
    Space("strings", gen_core, run_all, lambda tier: "all strings of up to %d characters over %d digits, units and blank" % (6 if tier == "thorough" else 5, len(CORE))),
    Space("odd strings", gen_odd, run_all, lambda tier: "all strings of up to %d characters over %d characters" % (5 if tier == "thorough" else 4, len(ODD))),
    Space("shapes", gen_shapes, run_shapes, "20 numbers x 8 gaps x 19 units x 15 ends x 5 beginnings"),
    Space("units", gen_units, run_units, "all strings of up to 2 of 600 (the second of 128 in quick) characters as units"),
    Space("amounts", gen_amounts, run_amounts, "15 amounts x 4 units"),
]
