"""C39 a write which fails is never taken for a success."""
import gc
import io
import itertools
import os
from pathlib import Path

from mc.core import Space, thorough
from mc import faults, jobs

PARTS = 4  # each job's fault points are spread over this many cases
JOBS = tuple(jobs.jobs())


def gen(tier):
    for buffer in (io.DEFAULT_BUFFER_SIZE, 16):
        for name in JOBS:
            for mode in ("stays", "once"):
                for part in range(PARTS):
                    yield (name, mode, buffer, part)


def attempt(op, t):
    """What the caller sees: True if the call returned."""
    try:
        op()
    except (Exception, SystemExit) as e:
        t.outcome("raised " + type(e).__name__)
        return False
    t.outcome("returned")
    return True


def judge(t, d, job, expected, before, returned, what):
    t.ops += 1
    if returned:
        try:
            got = job[2](d)
        except Exception as e:
            t.fail(f"{what}: the call returned, but what it was to write cannot be read: {type(e).__name__}: {e}")
        t.eq(got, expected, f"{what}: the call returned, and wrote")
    jobs.untouched(t, d, before, what)


def effects(t, base, job, name, expected, buffer):
    jobs.prepared(base / "counted", job[0])
    with faults.Disk(faults.WRITING, buffer=buffer) as disk:
        job[1](base / "counted")()
    t.eq(job[2](base / "counted"), expected, f"{name}, counting its effects")
    return disk.count


def run(case, t):
    name, mode, buffer, part = case
    job = jobs.jobs()[name]
    base = Path(t.dir)
    expected = jobs.clean(t, base / "clean", job, name)
    n = effects(t, base, job, name, expected, buffer)
    for at in range(part, n, PARTS):
        t.state((name, mode, buffer, at))
        d = base / str(at)
        before = jobs.prepared(d, job[0])
        with faults.Disk(faults.WRITING, at, mode, buffer=buffer):
            returned = attempt(lambda: job[1](d)(), t)
            gc.collect(0)
        judge(t, d, job, expected, before, returned, f"{name}: effect {at} of {n} fails, the disk {'stays full' if mode == 'stays' else 'recovers'}, buffers of {buffer} bytes")


TWICE = 60  # calls with at most so many effects fail twice


def gen_twice(tier):
    for buffer in (io.DEFAULT_BUFFER_SIZE, 16):
        for name in JOBS:
            for part in range(PARTS):
                yield (name, buffer, part)


def run_twice(case, t):
    name, buffer, part = case
    job = jobs.jobs()[name]
    base = Path(t.dir)
    expected = jobs.clean(t, base / "clean", job, name)
    n = effects(t, base, job, name, expected, buffer)
    if n > TWICE:
        t.outcome("more effects than fail twice")
        return
    # after the first failure there can be other effects than in the undisturbed run
    for i, (at, then) in enumerate(itertools.combinations_with_replacement(range(n + 20), 2)):
        if i % PARTS != part:
            continue
        t.state((name, buffer, at, then))
        d = base / f"{at}-{then}"
        before = jobs.prepared(d, job[0])
        with faults.Disk(faults.WRITING, (at, then), "once", buffer=buffer):
            returned = attempt(lambda: job[1](d)(), t)
            gc.collect(0)
        judge(t, d, job, expected, before, returned, f"{name}: effects {at} and {then} of {n} fail, buffers of {buffer} bytes")


def gen_limit(tier):
    for name in JOBS:
        for part in range(PARTS):
            yield (name, part)


def run_limit(case, t):
    name, part = case
    job = jobs.jobs()[name]
    base = Path(t.dir)
    expected = jobs.clean(t, base / "clean", job, name)
    biggest = max(len(c) for c in jobs.tree(base / "clean" / "out").values() if c is not None)
    for at in itertools.count(part, PARTS):
        if at > biggest:
            break
        t.state((name, at))
        d = base / str(at)
        before = jobs.prepared(d, job[0])
        with faults.limit(at):
            returned = attempt(lambda: job[1](d)(), t)
            gc.collect(0)
        judge(t, d, job, expected, before, returned, f"{name}: no file can grow beyond {at} bytes")


SPACES = [
    Space("every effect fails", gen, run,
          f"{len(JOBS)} calls that write x every byte written and every creating, changing or removing call failing, the disk staying full or recovering, with buffers of 8192 and of 16 bytes", tmp=True),
    Space("every size limit", gen_limit, run_limit,
          f"{len(JOBS)} calls that write x every limit on the size of a file, enforced by the kernel", tmp=True),
    Space("two effects fail", lambda tier: gen_twice(tier) if thorough(tier) else (), run_twice,
          f"thorough: {len(JOBS)} calls that write x every pair of effects failing, for calls of up to {TWICE} effects", tmp=True),
]
