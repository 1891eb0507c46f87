"""C40 work that was cut short can be done again."""
import gc
import io
import itertools
from pathlib import Path

from mc.core import Space, thorough
from mc import faults, jobs

PARTS = 4
JOBS = tuple(n for n, j in jobs.jobs().items() if j[3])
TWICE = 60  # jobs with at most so many effects are cut short twice


def effects(t, base, job, name, expected, buffer):
    jobs.prepared(base / "counted", job[0])
    with faults.Disk(faults.WRITING, buffer=buffer) as disk:
        job[1](base / "counted")()
    t.eq(job[2](base / "counted"), expected, f"{name}, counting its effects")
    return disk.count


def again(t, d, job, expected, before, op, what):
    """op does the work once more, undisturbed."""
    t.call(op, f"{what}; done again, it")
    try:
        got = job[2](d)
    except Exception as e:
        t.fail(f"{what}; done again, what it was to write cannot be read: {type(e).__name__}: {e}")
    t.eq(got, expected, f"{what}; done again, it wrote")
    jobs.untouched(t, d, before, what)


def allowed(name, d, job):
    """The checkpoints which may be set after a job was killed at any point: None if not judged."""
    if name in ("set a checkpoint",):
        return [[], ["n"]]
    if name == "set checkpoints":
        return [["a", "b"], ["a", "b", "n"], ["a", "b", "n", "o"]]
    if name in ("reset checkpoints", "reset and set checkpoints"):
        return [["a", "b"], ["a"], ["b"], []] + ([["n"]] if name != "reset checkpoints" else [])
    return None


def gen_killed(tier):
    for buffer in (io.DEFAULT_BUFFER_SIZE, 16):
        for name in JOBS:
            for part in range(PARTS):
                yield (name, buffer, part)


def run_killed(case, t):
    name, buffer, part = case
    job = jobs.jobs()[name]
    base = Path(t.dir)
    expected = jobs.clean(t, base / "clean", job, name)
    n = effects(t, base, job, name, expected, buffer)
    for at in range(part, n, PARTS):
        t.state((name, buffer, at))
        d = base / str(at)
        before = jobs.prepared(d, job[0])
        what = f"{name}: killed at effect {at} of {n}, buffers of {buffer} bytes"
        kill(t, d, job, at, buffer)
        jobs.untouched(t, d, before, what)
        names = allowed(name, d, job)
        if names is not None:
            t.true(job[2](d) in names, f"{what}: the checkpoints {job[2](d)} are among {names}")
        again(t, d, job, expected, before, lambda: job[1](d)(), what)


def kill(t, d, job, at, buffer=16):
    def body():
        with faults.Disk(faults.WRITING, at, "dies", buffer=buffer):
            job[1](d)()

    code = faults.in_child(body)
    t.outcome({faults.KILLED: "killed", 0: "finished first"}.get(code, "raised"))


def gen_failed(tier):
    for buffer in (io.DEFAULT_BUFFER_SIZE, 16):
        for name in JOBS:
            for mode in ("stays", "once"):
                for part in range(PARTS):
                    yield (name, mode, buffer, part)


def run_failed(case, t):
    """Through the objects that failed, once the disk works again."""
    name, mode, buffer, part = case
    job = jobs.jobs()[name]
    base = Path(t.dir)
    expected = jobs.clean(t, base / "clean", job, name)
    n = effects(t, base, job, name, expected, buffer)
    for at in range(part, n, PARTS):
        t.state((name, mode, buffer, at))
        d = base / str(at)
        before = jobs.prepared(d, job[0])
        op = None
        with faults.Disk(faults.WRITING, at, mode, buffer=buffer):
            try:
                op = job[1](d)
                op()
            except (Exception, SystemExit) as e:
                t.outcome("raised " + type(e).__name__)
            gc.collect(0)
        again(t, d, job, expected, before, op or (lambda: job[1](d)()), f"{name}: effect {at} of {n} failed, buffers of {buffer} bytes")


def gen_twice(tier):
    for name in JOBS:
        for part in range(PARTS * 4):
            yield (name, part)


def run_twice(case, t):
    """Killed, killed again while it is done again, and done once more."""
    name, part = case
    job = jobs.jobs()[name]
    base = Path(t.dir)
    expected = jobs.clean(t, base / "clean", job, name)
    n = effects(t, base, job, name, expected, 16)
    if n > TWICE:
        t.outcome("more effects than are cut short twice")
        return
    for i, (at, then) in enumerate(itertools.product(range(n), repeat=2)):
        if i % (PARTS * 4) != part:
            continue
        t.state((name, at, then))
        d = base / f"{at}-{then}"
        before = jobs.prepared(d, job[0])
        kill(t, d, job, at)
        kill(t, d, job, then)
        what = f"{name}: killed at effect {at} of {n}, done again and killed at its effect {then}"
        jobs.untouched(t, d, before, what)
        again(t, d, job, expected, before, lambda: job[1](d)(), what)


SPACES = [
    Space("killed", gen_killed, run_killed, f"{len(JOBS)} calls that write x the process killed at every byte written and before every creating, changing or removing call, with buffers of 8192 and of 16 bytes", tmp=True),
    Space("failed", gen_failed, run_failed, f"{len(JOBS)} calls that write x every effect failing once or from then on, then repeated through the same objects", tmp=True),
    Space("killed twice", lambda tier: gen_twice(tier) if thorough(tier) else (), run_twice,
          f"thorough: {len(JOBS)} calls x every pair of points at which the process and then its repetition are killed, for calls of up to {TWICE} effects", tmp=True),
]
