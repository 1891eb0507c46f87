"""C30 checkpoints remember exactly the names set since the last reset, across restarts."""
import importlib.util
import itertools
import linecache
import os
from pathlib import Path

from mc.core import Space, thorough, seqs
from mc import many

NAMES = ("a", "b")
OPS = tuple(("set", h, n) for h in (0, 1) for n in NAMES) + tuple(("reset", h) for h in (0, 1)) + (("open", 1, "Path"), ("open", 0, "str"), ("restart", 1))


CODE = []


def restarted():
    """The module as a new process would see it: loaded again, sharing nothing."""
    if not CODE:
        spec = importlib.util.find_spec("vistautils.checkpoints")
        CODE.append((spec, spec.loader.get_code("vistautils.checkpoints")))
    spec, code = CODE[0]
    m = importlib.util.module_from_spec(spec)
    exec(code, m.__dict__)  # the module in sys.modules stays what it is
    for k in [k for k in linecache.cache if k.startswith("<attrs generated")]:
        del linecache.cache[k]  # attrs looks through these for an unused name
    return m.Checkpoints


def outside():
    return sorted((os.path.relpath(os.path.join(r, x), "."), (Path(r, x).read_bytes() if x in fs else None)) for r, ds, fs in os.walk(".") for x in ds + fs if not os.path.relpath(os.path.join(r, x), ".").startswith(("w/d/cp",)))


def surroundings():
    os.makedirs("w/other")
    for p in ("w/a", "w/other/a", "b", "a"):
        Path(p).write_text(p)


def gen_histories(tier):
    for s in seqs(OPS, 1, 5 if thorough(tier) else 4):
        yield s
    if thorough(tier):
        for s in seqs(tuple(o for o in OPS if o[0] in ("set", "reset") or o[1] == 1), 6, 6):
            yield s
    else:
        for s in seqs((OPS[0], OPS[3], OPS[4], OPS[8]), 5, 6):
            yield s


def run_histories(case, t):
    from vistautils.checkpoints import Checkpoints

    directory = "w/d/cp"
    surroundings()
    cls = Checkpoints
    handles = [cls.from_directory(directory), cls.from_directory(Path(directory))]
    before = outside()
    done = set()
    for i, op in enumerate(case):
        if op[0] == "set":
            t.call(lambda: handles[op[1]].set(op[2]), f"set {op[2]}")
            done.add(op[2])
        elif op[0] == "reset":
            t.call(lambda: handles[op[1]].reset_all(), "reset_all")
            done.clear()
        elif op[0] == "open":
            handles[op[1]] = t.call(lambda: Checkpoints.from_directory(Path(directory) if op[2] == "Path" else os.path.abspath(directory)), "opening again")
        else:
            handles[op[1]] = t.call(lambda: restarted().from_directory(directory), "opening after a restart")
        t.state((tuple(sorted(done)), op))
        for h, c in enumerate(handles):
            for n in NAMES + ("c", ""):
                t.is_(t.call(lambda: n in c, "in"), n in done, f"{n!r} done according to object {h} after {case[: i + 1]}")
    fresh = restarted().from_directory(directory)
    for n in NAMES + ("c",):
        t.is_(n in fresh, n in done, f"{n!r} done after a restart after {case}")
    t.true(outside() == before, f"files outside the directory after {case}")


AWKWARD = ("a", "A", "a b", ".a", "a.", "..a", "a.txt", "-r", "~", "%s", "%2F", "a\nb", "\t", " ", "\u00e9", "e\u0301", "\u4e2d\u6587", "\U0001F600", "*", "?", "'", '"', "$HOME", "`a`", "&", "|", ";", "#", "\\", "a\\b", "x" * 255, "CON", "None", "0", "__init__.py", "lost+found", "tmp", ".lock", "a~", "a.tmp", "checkpoint")


def gen_names(tier):
    for a, b in itertools.product(AWKWARD, repeat=2):
        yield (a, b)


def run_names(case, t):
    from vistautils.checkpoints import Checkpoints

    a, b = case
    t.state(case)
    c = Checkpoints.from_directory("cp")

    def expect(names, when):
        for x in (c, Checkpoints.from_directory("cp")):
            for n in AWKWARD:
                t.is_(n in x, n in names, f"{n!r} done {when}")

    expect((), "at first")
    c.set(a)
    expect((a,), f"after setting {a!r}")
    Checkpoints.from_directory(Path("cp")).set(b)
    expect((a, b), f"after setting {a!r} and {b!r}")
    c.set(a)
    expect((a, b), f"after setting {a!r} and {b!r} and {a!r} again")
    c.reset_all()
    expect((), f"after setting {a!r} and {b!r} and resetting")
    c.set(b)
    expect((b,), f"after resetting and setting {b!r}")


PLACES = ("cp", "./cp", "x/y/z", "with space/\u00e9", "x/../cp", "abs", "link", "link/below", "trailing/", "dangling")
BAD = ((5,), (None,), (b"a",), ("Path",), (["a"],), (("a",),), (True,), (1.5,))


def gen_places(tier):
    for place in PLACES:
        for form in ("str", "Path"):
            for op in ("set", "reset", "set reset", "set reset set", "bad"):
                yield (place, form, op)
    for what in ("file", "below a file"):
        for form in ("str", "Path"):
            yield (what, form, "refused")


def run_places(case, t):
    from vistautils.checkpoints import Checkpoints

    place, form, ops = case
    t.state(case)
    surroundings()
    os.makedirs("real")
    Path("keep").write_text("kept")
    os.symlink("real", "link")
    if place == "x/../cp":
        os.mkdir("x")
    path = {"abs": os.path.abspath("p/q/abs"), "file": "keep", "below a file": "keep/cp", "dangling": "x/dangling"}.get(place, place)
    arg = path if form == "str" else Path(path)
    if ops == "refused":
        t.raises(Exception, lambda: Checkpoints.from_directory(arg), f"checkpoints in {place}")
        t.eq(Path("keep").read_text(), "kept", "the file")
        return
    c = t.call(lambda: Checkpoints.from_directory(arg), f"checkpoints in {place}")
    t.true(os.path.isdir(path), f"the directory {path}")
    done = set()
    if ops == "bad":
        from pathlib import Path as P

        for (bad,) in BAD:
            bad = P("a") if bad == "Path" else bad
            t.raises(TypeError, lambda: c.set(bad), f"set({bad!r})")
            t.raises(TypeError, lambda: bad in c, f"{bad!r} in the checkpoints")
        t.is_("a" in c, False, "done after names were refused")
        t.is_("5" in c, False, "done after names were refused")
        return
    for op in ops.split():
        if op == "set":
            t.call(lambda: c.set("a"), f"set in {place}")
            done = {"a"}
        else:
            t.call(lambda: c.reset_all(), f"reset_all in {place}")
            done = set()
        for x in (c, Checkpoints.from_directory(arg), Checkpoints.from_directory(str(arg))):
            t.is_("a" in x, "a" in done, f"a is done after {ops} in {place}")
        t.true(os.path.isdir(path), f"the directory {path} after {op}")
    t.true(os.path.islink("link") and os.path.isdir("real"), "the link")
    t.eq([Path(p).read_text() for p in ("w/a", "w/other/a", "b", "a", "keep")], ["w/a", "w/other/a", "b", "a", "kept"], f"files around {place}")


def gen_two(tier):
    for a, b in (("p", "q"), ("p", "p/q"), ("p", "pq"), ("x/p", "x")):
        for s in seqs((("set", 0, "a"), ("set", 1, "a"), ("set", 0, "z"), ("set", 1, "z"), ("reset", 1), ("reset", 0)), 1, 4):
            yield (a, b, s)


def run_two(case, t):
    from vistautils.checkpoints import Checkpoints

    a, b, ops = case
    nested = {("p", "p/q"): 0, ("x/p", "x"): 1}.get((a, b))
    cs = [Checkpoints.from_directory(a), Checkpoints.from_directory(b)]
    done = [set(), set()]
    for op in ops:
        if op[0] == "set":
            cs[op[1]].set(op[2])
            done[op[1]].add(op[2])
        else:
            if op[1] == nested:
                return  # the directory inside is deleted with the outer one
            cs[op[1]].reset_all()
            done[op[1]].clear()
        t.state((a, b, tuple(sorted(done[0])), tuple(sorted(done[1]))))
        for i in (0, 1):
            for n in ("a", "z"):
                t.is_(n in cs[i], n in done[i], f"{n} done in {(a, b)[i]} after {ops}")


SPACES = [
    Space("histories", gen_histories, run_histories, lambda tier: "all histories of up to %s on one directory through two objects, restarts included" % ("5 of 9 operations and of 6 of 8" if tier == "thorough" else "4 of 9 operations and of 6 of 4"), tmp=True),
    Space("names", gen_names, run_names, "all pairs of %d awkward names" % len(AWKWARD), tmp=True),
    Space("places", gen_places, run_places, "%d places, by path and string, with names which are no strings" % len(PLACES), tmp=True),
    Space("two", gen_two, run_two, "all histories of up to 4 operations on two directories, beside and inside each other", tmp=True),
]

SPACES += many.BY_CHECK["C30"]
