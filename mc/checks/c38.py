"""C38 jobs that prepare their files and directories at the same time."""
import itertools
import os
import shutil

from mc import sched
from mc.core import Space, thorough

sched.control_locks()

from vistautils.checkpoints import Checkpoints  # noqa: E402
from vistautils.io_utils import ByteSink, CharSink  # noqa: E402
from vistautils.parameters import Parameters  # noqa: E402

STARTS = (
    (),
    (("n", None),),
    (("n", "file"),),
    (("n", None), ("n/m", None)),
    (("n", None), ("n/m", "file")),
    (("n", None), ("n/m", None), ("n/m/f", "file")),
)

ACCESSORS = ("creatable_directory", "creatable_file", "creatable_empty_directory", "optional_creatable_directory", "optional_creatable_file",
             "optional_creatable_empty_directory", "existing_directory", "existing_file", "optional_existing_directory", "optional_existing_file")
WRITERS = ("char sink", "byte sink", "open sink")


def build(root, start):
    os.mkdir(root)
    for path, content in start:
        p = os.path.join(root, path)
        if content is None:
            os.mkdir(p)
        else:
            with open(p, "w") as f:
                f.write(content)


def tree(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for x in dirs:
            out.append((os.path.relpath(os.path.join(d, x), root), None))
        for x in files:
            with open(os.path.join(d, x), encoding="utf-8") as f:
                out.append((os.path.relpath(os.path.join(d, x), root), f.read()))
    return sorted(out)


def job(op, root, me):
    kind, path = op
    full = os.path.join(root, path)

    def go():
        if kind in ACCESSORS:
            r = getattr(Parameters.from_mapping({"a": {"p": full}}), kind)("a.p")
            return os.path.relpath(str(r), os.path.realpath(root))
        if kind == "char sink":
            CharSink.to_file(full).write(f"written by {me}")
        elif kind == "byte sink":
            ByteSink.to_file(full).write(f"written by {me}".encode())
        elif kind == "open sink":
            with CharSink.to_file(full).open() as out:
                out.write("written ")
                out.write(f"by {me}")
        elif kind == "checkpoints":
            Checkpoints.from_directory(full)
        else:
            raise ValueError(kind)
        return None

    return go


def clean(results):
    """What the jobs returned, and which of them failed."""
    return tuple(r if r[0] == "returned" else ("raised",) for r in results)


def run_jobs(case, t):
    start, ops, bound = case
    start, ops = STARTS[start], tuple(tuple(o) for o in ops)
    t.state(case)
    n = itertools.count()

    def fresh():
        root = os.path.join(t.dir, f"r{next(n)}")
        build(root, start)
        return root

    # each order of the whole jobs, one after the other
    serial = {}
    for order in itertools.permutations(range(len(ops))):
        root = fresh()
        results = [None] * len(ops)
        for i in order:
            try:
                results[i] = ("returned", job(ops[i], root, i)())
            except Exception:
                results[i] = ("raised",)
        serial[(clean(results), tuple(tree(root)))] = order
        shutil.rmtree(root)

    def make():
        root = fresh()
        return [job(op, root, i) for i, op in enumerate(ops)], root

    def check(results, root, choices):
        got = (clean(results), tuple(tree(root)))
        shutil.rmtree(root)
        t.outcome("/".join(r[0] for r in results))
        if got not in serial:
            t.fail(f"jobs {ops} starting from {start}, interleaved as {choices}: {results} leaving {list(got[1])}, "
                   f"but one after the other they give {sorted(serial, key=repr)}")

    with sched.FileSystemPoints(os.path.join(t.dir, "r")):
        runs, points, lost = sched.explore(make, check, bound)
    t.ops += runs
    if lost:
        t.outcome("schedules that could not be repeated")


PATHS = ("n", "n/m", "n/m/k")


def gen_pairs(tier):
    ops = [(k, p) for k in ACCESSORS[:3] + ("existing_directory", "existing_file", "checkpoints", "char sink") for p in PATHS]
    for start in range(len(STARTS)):
        for a, b in itertools.combinations_with_replacement(ops, 2):
            if a[0] in WRITERS and b[0] in WRITERS and a[1] == b[1]:
                continue
            if a[0].startswith("existing") and b[0].startswith("existing"):
                continue
            yield (start, (a, b), 1 if not thorough(tier) else 2)


def gen_deep(tier):
    for k in ACCESSORS[:6] + ("checkpoints",) + WRITERS:
        for k2 in ACCESSORS[:6] + ("checkpoints",) + WRITERS:
            for p, p2 in (("n/m/k", "n/m/k"), ("n/m/k", "n/m/l"), ("n/m/k", "n/m")):
                if p == p2 and k in WRITERS and k2 in WRITERS:
                    continue
                yield (0, ((k, p), (k2, p2)), 2 if not thorough(tier) else 4)


def gen_three(tier):
    kinds = ACCESSORS[:3] + ("char sink",)
    for start in (0, 1):
        for ks in itertools.combinations_with_replacement(kinds, 3):
            for ps in (("n/m", "n/m", "n/m"), ("n/m/a", "n/m/b", "n/m")):
                used = [p for k, p in zip(ks, ps) if k in WRITERS]
                if len(set(used)) < len(used):
                    continue
                yield (start, tuple(zip(ks, ps)), 1 if not thorough(tier) else 2)


SPACES = [
    Space("pairs of jobs", gen_pairs, run_jobs,
          lambda tier: f"every two jobs over 3 nested paths from 6 trees; every interleaving of their file-system calls with at most {2 if thorough(tier) else 1} preemption(s)", tmp=True),
    Space("pairs of jobs, deeper", gen_deep, run_jobs,
          lambda tier: f"every two preparing jobs on the same or neighbouring paths of an empty tree; every interleaving with at most {4 if thorough(tier) else 2} preemptions", tmp=True),
    Space("three jobs", gen_three, run_jobs,
          lambda tier: f"three preparing jobs; every interleaving with at most {2 if thorough(tier) else 1} preemption(s)", tmp=True),
]
