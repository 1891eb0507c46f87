"""C18 converting tar archives to zip files."""
import contextlib
import io
import itertools
import os
import sys
import tarfile
import zipfile
from pathlib import Path

from mc.core import Space, thorough, subsets
from mc import many

# (name, type, content)
MEMBERS = (
    ("a.txt", "file", b"alpha"),
    ("d", "dir", b""),
    ("d/b.bin", "file", bytes(range(256)) + b"\r\n"),
    ("empty", "file", b""),
    ("link", "symlink", b""),
    ("d/e/f/deep.txt", "file", b"deep"),
    ("./dot.txt", "file", b"dot"),
    ("\u4e2d \u00e9.txt", "file", b"unicode"),
    ("old.txt", "file", b"from before 1980"),
    ("x" * 110 + "/long", "file", b"0" * 70000),
    ("__keys", "file", b"a.txt\n"),
    ("hard", "hardlink", b""),
)


def write_tar(path, members, mode):
    with tarfile.open(path, mode) as tar:
        for name, typ, content in members:
            info = tarfile.TarInfo(name)
            info.mtime = 0 if name == "old.txt" else 1_500_000_000
            if typ == "dir":
                info.type = tarfile.DIRTYPE
                info.mode = 0o755
                tar.addfile(info)
            elif typ == "symlink":
                info.type = tarfile.SYMTYPE
                info.linkname = "a.txt"
                tar.addfile(info)
            elif typ == "hardlink":
                info.type = tarfile.LNKTYPE
                info.linkname = "a.txt"
                tar.addfile(info)
            else:
                info.size = len(content)
                tar.addfile(info, io.BytesIO(content))


def convert(t, args, what):
    from vistautils.scripts import tar_gz_to_zip as m

    old = sys.argv
    sys.argv = ["tar_gz_to_zip"] + args
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            t.call(lambda: m.main(), what)
    except SystemExit as e:
        t.fail(f"{what}: exited with {e.code}")
    finally:
        sys.argv = old


def read_zip(t, path, what):
    t.true(os.path.isfile(path), f"{path} was written by {what}; there is {sorted(os.listdir(os.path.dirname(path) or '.'))}")
    with zipfile.ZipFile(path) as z:
        infos = [i for i in z.infolist()]
        t.eq(len(set(i.filename for i in infos)), len(infos), f"repeated names in the result of {what}")
        return {i.filename: z.read(i) for i in infos}


def gen_archives(tier):
    n = len(MEMBERS)
    combos = [c for k in (0, 1, 2) for c in itertools.permutations(range(n), k)]
    combos += list(itertools.combinations(range(n), 3)) + [tuple(range(n)), tuple(reversed(range(n - 1)))]
    if thorough(tier):
        combos += list(itertools.permutations(range(n), 3))
        combos += list(itertools.combinations(range(n), 4))
    for i, c in enumerate(combos):
        if "hard" in [MEMBERS[x][0] for x in c] and (0 not in c or c.index(0) > c.index(n - 1)):
            continue  # a hard link without its target cannot be unpacked
        for dont in (False, True):
            for gz in (False, True) if len(c) < 3 else (i % 2 == 0,):
                yield (c, dont, gz)


def run_archives(case, t):
    c, dont, gz = case
    t.state(case)
    members = [MEMBERS[i] for i in c]
    d = Path(t.dir)
    tar = d / "in" / ("x.tar.gz" if gz else "x.tar")
    tar.parent.mkdir()
    (d / "work").mkdir()
    os.chdir(d / "work")
    write_tar(tar, members, "w:gz" if gz else "w")
    before = tar.read_bytes()
    args = [str(tar)] + (["--dont-stream"] if dont else [])
    w = f"converting {[m[0] for m in members]} {' '.join(args[1:])}"
    # what is in the way of the result is replaced
    if len(c) % 2:
        with zipfile.ZipFile(tar.parent / "x.zip", "w") as z:
            z.writestr("stale", b"stale")
    convert(t, args, w)
    want = {name: content for name, typ, content in members if typ == "file"}
    t.eq(read_zip(t, str(tar.parent / "x.zip"), w), want, f"the result of {w}")
    t.eq(tar.read_bytes(), before, f"the archive after {w}")
    t.eq(sorted(os.listdir(tar.parent)), sorted([tar.name, "x.zip"]), f"files beside the archive after {w}")
    t.outcome(f"{len(want)} files")


NAMES = (
    ("x.tar", "x.zip"), ("x.tar.gz", "x.zip"), ("x.tgz", "x.zip"), ("a.b.tar.gz", "a.b.zip"), ("a.tar.tgz", "a.tar.zip"),
    ("a.tgz.tar", "a.tgz.zip"), ("tar.tar", "tar.zip"), ("xtar.gz", "xtar.gz.zip"), ("x", "x.zip"), ("xtgz", "xtgz.zip"), ("x.TAR", "x.TAR.zip"), ("x.Tgz", "x.Tgz.zip"), (".tar", ".zip"), ("a.gz", "a.gz.zip"),
    ("x.tar.bz2", "x.tar.bz2.zip"), ("sp ace.tar.gz", "sp ace.zip"), ("\u00e9.tgz", "\u00e9.zip"), ("x.tar.tar", "x.tar.zip"), ("x.tar.gz.tar.gz", "x.tar.gz.zip"),
)


def gen_names(tier):
    for name, zipname in NAMES:
        for where in ("", "sub/", "sub.tar/"):
            for mode in ("w", "w:gz"):
                for rel in (True, False):
                    for dont in (False, True):
                        yield (name, zipname, where, mode, rel, dont)


def run_names(case, t):
    name, zipname, where, mode, rel, dont = case
    t.state(case)
    d = Path(t.dir)
    (d / "sub").mkdir()
    (d / "sub.tar").mkdir()
    os.chdir(d)
    write_tar(d / (where + name), MEMBERS[:1] + MEMBERS[5:6], mode)
    args = [where + name if rel else str(d / (where + name))] + (["--dont-stream"] if dont else [])
    convert(t, args, f"converting {args}")
    t.eq(read_zip(t, str(d / (where + zipname)), f"converting {args}"), {"a.txt": b"alpha", "d/e/f/deep.txt": b"deep"}, f"the result of converting {args}")
    t.eq(sorted(p.name for p in d.rglob("*") if p.is_file()), sorted([name, zipname]), f"files after converting {args}")


SIZES = (0, 1, 999, 1000, 1001, 5000)


def gen_omit(tier):
    # sizes around the cutoff, in both directions, given as the fraction of a gigabyte it is
    for cutoff in (0, 0.5, 1000, 1000.5, 999.5, 4999.5, 5000.5, 1e9):
        for omit in (True, False):
            for dont in (False, True):
                for order in (0, 1):
                    yield (cutoff, omit, dont, order)
    for dont in (False, True):
        yield (None, True, dont, 0)  # two gigabytes
        for sizes in subsets(SIZES, 1, 3 if thorough(tier) else 2):
            for cutoff in (0.5, 999.5, 1000.5):
                yield (cutoff, True, dont, sizes)


def run_omit(case, t):
    cutoff, omit, dont, order = case
    t.state(case)
    sizes = order if isinstance(order, tuple) else SIZES if not order else SIZES[::-1]
    d = Path(t.dir)
    members = [(f"f{n}", "file", b"x" * n) for n in sizes] + [("dir", "dir", b"")]
    write_tar(d / "x.tgz", members, "w:gz")
    args = [str(d / "x.tgz")]
    if omit:
        args.append("--omit-large-files")
    if dont:
        args.insert(0, "--dont-stream")
    if cutoff is not None:
        args += ["--large-file-cutoff", repr(cutoff / 1e9)]
        if (cutoff / 1e9) * 1e9 != cutoff:
            t.outcome("cutoff not representable")
            return
    w = f"converting files of {sizes} bytes with {args[1:] if not dont else args}"
    convert(t, args, w)
    limit = 2e9 if cutoff is None else cutoff
    want = {n: c for n, typ, c in members if typ == "file" and not (omit and len(c) > limit)}
    got = read_zip(t, str(d / "x.zip"), w)
    t.eq(sorted(got), sorted(want), f"files in the result of {w}")
    t.eq(got, want, f"the result of {w}")


# --- archives whose members are awkward to unpack ---------------------------------------------
# (name, type, content or link target, mode); <here> is the scratch directory
AWKWARD = (
    ("a", "file", "A", 0o644),
    ("a", "file", "again", 0o644),
    ("secret", "file", "S", 0),
    ("shut", "dir", "", 0),
    ("shut/in", "file", "I", 0o600),
    ("../escape", "file", "E", 0o644),
    ("d/../../../up", "file", "U", 0o644),
    ("<here>/out/abs", "file", "B", 0o644),
    ("out", "symlink", "<here>/out", 0o777),
    ("out/through", "file", "T", 0o644),
    ("target", "symlink", "<here>/out/there", 0o777),
    ("target", "file", "over", 0o644),
    ("loop", "symlink", "loop", 0o777),
    ("nowhere", "hardlink", "not there", 0o644),
    ("pipe", "fifo", "", 0o644),
    ("device", "chr", "", 0o644),
    ("a/below", "file", "L", 0o644),
    ("a", "dir", "", 0o755),
    ("exec", "file", "X", 0o7777),
)
TYPES = {"file": tarfile.REGTYPE, "dir": tarfile.DIRTYPE, "symlink": tarfile.SYMTYPE, "hardlink": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE, "chr": tarfile.CHRTYPE}


def gen_awkward(tier):
    n = len(AWKWARD)
    combos = [c for k in (1, 2) for c in itertools.permutations(range(n), k)] + [tuple(range(n)), tuple(reversed(range(n)))]
    combos += [(1, 0, 16), (8, 9, 5), (3, 4, 2)]
    if thorough(tier):
        combos += list(itertools.permutations(range(n), 3))
    for c in combos:
        for dont in (False, True):
            yield (c, dont)


def run_awkward(case, t):
    import tempfile

    c, dont = case
    t.state(case)
    here = t.dir
    d = Path(here)
    for x in ("in", "work", "out", "tmp"):
        (d / x).mkdir()
    (d / "out" / "there").write_text("THERE")
    os.chdir(d / "work")
    members = []
    with tarfile.open(d / "in" / "x.tgz", "w:gz") as tar:
        for i in c:
            name, typ, content, mode = AWKWARD[i]
            name, content = name.replace("<here>", here), content.replace("<here>", here)
            info = tarfile.TarInfo(name)
            info.type, info.mode, info.mtime = TYPES[typ], mode, 1_500_000_000
            if typ == "file":
                info.size = len(content)
                tar.addfile(info, io.BytesIO(content.encode()))
                members.append((name, content.encode()))
            else:
                info.linkname = content
                tar.addfile(info)
    old = tempfile.tempdir
    tempfile.tempdir = str(d / "tmp")
    w = f"converting an archive of {[AWKWARD[i] for i in c]}{' --dont-stream' if dont else ''}"
    try:
        convert(t, [str(d / "in" / "x.tgz")] + (["--dont-stream"] if dont else []), w)
    finally:
        tempfile.tempdir = old
    with zipfile.ZipFile(d / "in" / "x.zip") as z:
        # a name which is repeated stands for its last member, as in the archive
        got = {i.filename: z.read(i.filename) for i in z.infolist()}
    # a zip file has no absolute names
    want = {zipfile.ZipInfo(name).filename: content for name, content in members}
    t.eq(got, want, f"the result of {w}")
    t.eq(sorted(str(p.relative_to(d)) for p in d.rglob("*")), ["in", "in/x.tgz", "in/x.zip", "out", "out/there", "tmp", "work"], f"files after {w}")
    t.eq((d / "out" / "there").read_text(), "THERE", f"a file not in the archive after {w}")
    t.outcome(f"{len(want)} files")


SPACES = [
    Space("archives", gen_archives, run_archives, "every order of 0-2 and choice of 3 members of 12 kinds, streamed or not, gzipped or not", tmp=True),
    Space("names", gen_names, run_names, "16 names of archives x directories x relative or absolute x streamed or not", tmp=True),
    Space("awkward archives", gen_awkward, run_awkward, "every order of 1-2 of 19 members with unsafe names, links, devices, repeated names or no permissions, streamed or not", tmp=True),
    Space("large files", gen_omit, run_omit, "cutoffs around every size x switches", tmp=True),
]

SPACES += many.BY_CHECK["C18"]
