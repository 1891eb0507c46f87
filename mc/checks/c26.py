"""C26 path accessors create, require and delete only what they are allowed to."""
import itertools
import os
import stat

from mc.core import Space, thorough

# --- initial states of a path: what is put at (and around) top/target --------------------
STATES = {
    "absent": [],
    "file": [("file", "top/target", "content")],
    "empty file": [("file", "top/target", "")],
    "empty directory": [("dir", "top/target")],
    "directory with a file": [("file", "top/target/x", "1")],
    "directory with a hidden file": [("file", "top/target/.x", "")],
    "directory with an empty directory": [("dir", "top/target/d")],
    "directory with everything": [("file", "top/target/d/e/x", "1"), ("file", "top/target/d/y", "2"), ("link", "top/target/out", "../sibling"), ("link", "top/target/outfile", "../../outside"), ("link", "top/target/gone", "nowhere")],
    "directory with a link to a directory": [("link", "top/target/out", "../sibling")],
    "directory with a dangling link": [("link", "top/target/gone", "nowhere")],
    "link to a file": [("link", "top/target", "sibling/s")],
    "link to an empty directory": [("dir", "top/empty"), ("link", "top/target", "empty")],
    "link to a full directory": [("file", "elsewhere/x", "1"), ("link", "top/target", "../elsewhere")],
    "dangling link": [("link", "top/target", "not/yet")],
    "link to a link": [("link", "top/l", "sibling"), ("link", "top/target", "l")],
    "pipe": [("pipe", "top/target")],
    "similar names": [("file", "top/targe", "1"), ("file", "top/target2/x", "2"), ("file", "top/Target", "3"), ("file", "top/target.txt", "4")],
}
ACCESSORS = ("existing_file", "existing_directory", "creatable_directory", "creatable_empty_directory", "creatable_empty_directory delete", "creatable_file")


def populate(entries):
    for d in ("top/sibling", "top/quiet"):
        os.makedirs(d)
    for f, c in (("top/sibling/s", "S"), ("outside", "O"), ("top/near", "N")):
        with open(f, "w") as out:
            out.write(c)
    for e in entries:
        kind, path = e[:2]
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        if kind == "dir":
            os.makedirs(path, exist_ok=True)
        elif kind == "file":
            with open(path, "w") as out:
                out.write(e[2])
        elif kind == "link":
            os.symlink(e[2], path)
        else:
            os.mkfifo(path)


def snapshot():
    """Everything below the working directory."""
    out = {}
    top = os.getcwd()

    def walk(d):
        for e in os.scandir(d):
            rel = os.path.relpath(e.path, top)
            st = e.stat(follow_symlinks=False)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(e.path))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir",)
                walk(e.path)
            elif stat.S_ISREG(st.st_mode):
                with open(e.path) as f:
                    out[rel] = ("file", f.read(), st.st_ino, st.st_mtime_ns)
            else:
                out[rel] = ("pipe", st.st_ino)

    walk(top)
    return out


ERROR = "error"
PARAMETER_ERROR = "parameter error"


def model(accessor, path, fs, top):
    """(error or None, resulting file system); fs maps paths relative to top to entries."""
    real = os.path.relpath(os.path.realpath(path), top)
    entry = ("dir",) if real == "." else fs.get(real)
    kind = entry[0] if entry else None
    full = any(k.startswith(real + "/") or real == "." for k in fs)
    out = dict(fs)

    def make(d):
        """Creates the directory d and those above it; whether it could."""
        parts = [] if d in ("", ".") else d.split("/")
        for i in range(len(parts)):
            p = "/".join(parts[: i + 1])
            if p not in out:
                out[p] = ("dir",)
            elif out[p][0] != "dir":
                return False
        return True

    if accessor == "existing_file":
        return (None if kind == "file" else PARAMETER_ERROR), fs
    if accessor == "existing_directory":
        return (None if kind == "dir" else PARAMETER_ERROR), fs
    if accessor == "creatable_file":
        if kind == "dir":
            return PARAMETER_ERROR, fs
        if kind == "pipe":
            return None, fs
        return (None, out) if make(os.path.dirname(real)) else (ERROR, fs)
    if accessor == "creatable_directory":
        return (None, out) if make(real) else (ERROR, fs)
    if kind == "dir" and full:
        if accessor.endswith("delete"):
            return None, {k: v for k, v in fs.items() if not k.startswith(real + "/")}
        return PARAMETER_ERROR, fs
    if kind is not None and kind != "dir":
        return PARAMETER_ERROR, fs
    return (None, out) if make(real) else (ERROR, fs)


def invoke(p, accessor, name, optional):
    method, _, delete = accessor.partition(" ")
    f = getattr(p, ("optional_" if optional else "") + method)
    return f(name, delete=True) if delete else f(name)


def step(t, accessor, path, optional, nested=False):
    from pathlib import Path
    from vistautils.io_utils import is_empty_directory
    from vistautils.parameters import ParameterError, Parameters

    top = os.getcwd()
    fs = snapshot()
    error, want = model(accessor, path, fs, top)
    real = os.path.realpath(path)
    for q in (path, os.path.dirname(path) or "."):
        t.is_(is_empty_directory(Path(q)), os.path.isdir(q) and not os.listdir(q), f"is_empty_directory({q.replace(top, '<top>')!r})")
    t.true(snapshot() == fs, "a change by is_empty_directory")
    p, name = Parameters.from_mapping({"p": path, "q": "outside"}), "p"
    if nested:
        p, name = Parameters.from_mapping({"n": {"m": {"p": path}}, "p": "outside"}), "n.m.p"
    shown = sorted((k, v[:2]) for k, v in fs.items())
    w = f"{'optional_' if optional else ''}{accessor} of {path.replace(top, '<top>')!r} given {shown}"
    if error:
        t.raises(ParameterError if error == PARAMETER_ERROR else Exception, lambda: invoke(p, accessor, name, optional), w)
    else:
        got = t.call(lambda: invoke(p, accessor, name, optional), w)
        t.true(isinstance(got, Path) and str(got) == real, f"{w}: {got!r}, not {real!r}")
    now = snapshot()
    t.true(now == want, f"{w} afterwards: changed {sorted(k for k in set(now) | set(want) if now.get(k) != want.get(k))}: {sorted((k, v[:2]) for k, v in now.items())}")
    t.eq(os.getcwd(), top, "the working directory")
    t.outcome(error or "ok")


def spellings(top):
    yield "relative", lambda p: p
    yield "absolute", lambda p: os.path.join(top, p)
    yield "dotted", lambda p: "./" + p
    yield "up and down", lambda p: "top/quiet/../../" + p
    yield "through a link", lambda p: "top/sibling/../../" + p
    yield "trailing slash", lambda p: p + "/"
    yield "double slash", lambda p: p.replace("/", "//")


PLACES = ("top/target", "top/target/below", "top/target/below/deeper", "top/new/target", "top", "top/near/x", "with space/\u00e9")


ODD = ("~", "~/x", " pad", "pad ", "top/ x /y ", "$HOME", "%TEMP%/x", "a\nb", "*", "top/t[a]rget", "file:up", "-p", "..x", "None", "top/Cap", "'q'", "a#b", "top/a\\b")


def tidier(place):
    return "/".join(x.strip().strip("'").lower().replace("file:", "").replace("\\", "/") for x in place.split("/"))


def gen_single(tier):
    for state in STATES:
        for place in PLACES:
            for accessor in ACCESSORS:
                for spelling in ("relative", "absolute", "dotted", "up and down", "through a link", "trailing slash", "double slash"):
                    for optional in (False, True):
                        yield (state, place, accessor, spelling, optional)
    for state in ("absent", "file", "directory with a file"):
        for place in ODD:
            for accessor in ACCESSORS:
                for spelling in ("relative", "absolute"):
                    for optional in (False, True):
                        yield (state, place, accessor, spelling, optional)
    for state in ("file with this name", "directory with this name", "full directory with this name", "file with a tidier name", "directory with a tidier name"):
        for place in ODD:
            if state.endswith("tidier name") and tidier(place) == place:
                continue
            for accessor in ACCESSORS:
                for spelling in ("relative", "absolute"):
                    yield (state, place, accessor, spelling, spelling == "absolute")
    for state in ("absent", "file", "directory with a file"):
        # the empty path is the working directory
        for accessor in ACCESSORS:
            if not accessor.endswith("delete"):
                for optional in (False, True):
                    yield (state, "", accessor, "relative", optional)


def run_single(case, t):
    state, place, accessor, spelling, optional = case
    if state in STATES:
        populate(STATES[state])
    else:
        at = tidier(place) if state.endswith("tidier name") else place
        populate([("dir", at)] if state.startswith("directory") else [("file", at + "/x", "1")] if state.startswith("full") else [("file", at, "content")])
    t.state((state, place))
    path = dict(spellings(os.getcwd()))[spelling](place)
    step(t, accessor, path, optional, nested=spelling == "dotted")


def gen_pairs(tier):
    states = list(STATES)
    places = ("top/target", "top/target/below", "top/new", "top")
    ops = list(itertools.product(ACCESSORS, places))
    n = 3 if thorough(tier) else 2
    chosen = states if not thorough(tier) else ("absent", "file", "directory with everything", "link to a full directory", "dangling link", "link to an empty directory")
    for state in chosen:
        for seq in itertools.product(ops, repeat=n):
            yield (state, seq)


def run_pairs(case, t):
    state, seq = case
    populate(STATES[state])
    t.state(case)
    for i, (accessor, place) in enumerate(seq):
        step(t, accessor, place, optional=i % 2 == 1)


def gen_absent(tier):
    for kind in ("absent", "absent nested", "through a leaf", "number", "list", "namespace", "true"):
        for accessor in ACCESSORS:
            for state in ("absent", "file", "directory with a file"):
                yield (kind, accessor, state)


def run_absent(case, t):
    from vistautils.parameters import ParameterError, Parameters

    kind, accessor, state = case
    populate(STATES[state])
    t.state(case)
    before = snapshot()
    values = {"number": 5, "list": ["top/target"], "namespace": {"p": "top/target"}, "true": True}
    name = "p"
    if kind in values:
        p = Parameters.from_mapping({"p": values[kind], "q": "top/target"})
    else:
        p = Parameters.from_mapping({"q": "top/target", "n": {"q": "top/target"}})
        name = {"absent": "p", "absent nested": "n.p", "through a leaf": "q.p"}[kind]
    w = f"{accessor} of a parameter which is {kind}"
    t.raises(ParameterError, lambda: invoke(p, accessor, name, False), w)
    if kind in values:
        t.raises(ParameterError, lambda: invoke(p, accessor, name, True), "optional_" + w)
    else:
        t.is_(t.call(lambda: invoke(p, accessor, name, True), "optional_" + w), None, "optional_" + w)
    t.true(snapshot() == before, f"the file system after {w}")


# --- directories the process may not change ------------------------------------------------
LOCKED = ("top", "top/target", "top/target/d", "top/target/d/e")


def gen_locked(tier):
    for locked in LOCKED:
        for mode in (0o555, 0o000, 0o333):
            for state in ("absent", "file", "empty directory", "directory with everything", "directory with an empty directory", "dangling link", "link to a full directory"):
                for place in ("top/target", "top/target/d", "top/new/x", "top/target/d/e/new"):
                    for accessor in ACCESSORS:
                        yield (locked, mode, state, place, accessor)


def run_locked(case, t):
    from vistautils.parameters import Parameters

    locked, mode, state, place, accessor = case
    populate(STATES[state])
    t.state(case)
    if os.path.islink(locked) or not os.path.isdir(locked):
        t.outcome("nothing to lock")
        return
    top = os.getcwd()
    before = snapshot()
    real = os.path.relpath(os.path.realpath(place), top)
    was = stat.S_IMODE(os.stat(locked).st_mode)
    os.chmod(locked, mode)
    try:
        failed, got = None, None
        try:
            got = invoke(Parameters.from_mapping({"p": place}), accessor, "p", False)
        except Exception as e:  # pylint:disable=broad-except
            failed = e
    finally:
        if os.path.exists(locked):
            os.chmod(locked, was)
    w = f"{accessor} of {place} in state {state!r} with {locked} of mode {mode:o}"
    now = snapshot()
    t.outcome("failed" if failed else "ok")
    if not failed:
        t.eq(os.path.relpath(str(got), top), real, w)
        if accessor == "existing_file":
            t.true(os.path.isfile(real), f"{w}: returned what is no file")
        elif accessor == "creatable_file":
            t.true(os.path.isdir(os.path.dirname(real)) and not os.path.isdir(real), f"{w}: returned a file which cannot be created")
        else:
            t.true(os.path.isdir(real), f"{w}: returned what is no directory")
            if "empty" in accessor:
                t.eq(os.listdir(real), [], f"{w}: the contents of the empty directory returned")
    # whether or not it failed, nothing is lost but what it was asked to delete
    kept = {k: v for k, v in before.items() if not (accessor.endswith("delete") and (k == real or k.startswith(real + "/")))}
    t.eq({k: now.get(k) for k in kept}, kept, f"what there was before {w}")
    new = {k: v for k, v in now.items() if k not in before}
    t.true(all(v == ("dir",) and (k == real or real.startswith(k + "/")) for k, v in new.items()), f"{w} created {sorted(new)}")


SPACES = [
    Space("single", gen_single, run_single, "%d states of the path x %d places x 6 accessors x 7 spellings x plain/optional; %d odd names (~, blanks, wildcards) in 8 states, and the empty path" % (len(STATES), len(PLACES), len(ODD)), tmp=True),
    Space("sequences", gen_pairs, run_pairs, lambda tier: "all sequences of %s accessors on 4 paths from %d states" % (("three", 6) if tier == "thorough" else ("two", len(STATES))), tmp=True),
    Space("locked", gen_locked, run_locked, "4 directories made unwritable, unreadable or both x 7 states x 4 places x 6 accessors", tmp=True),
    Space("absent", gen_absent, run_absent, "absent parameters and parameters which are no strings", tmp=True),
]
