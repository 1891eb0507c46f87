"""A disk that fails, or a process that dies, at any chosen point of what the code does to files.

Every byte written and every call that creates, changes or removes something counts as one
effect; every byte read, every opening and every listing counts as one access.  `Disk(at=n)`
lets the first n of them happen and strikes at the next: a write is then torn after exactly
the bytes that still fitted.  Enumerating n over all effects enumerates every fault point.

The real files are used: `open` hands out real buffered and text files over a FileIO that
counts, and the functions of `os` are wrapped.  `limit(n)` asks the kernel for the same
(no file may grow beyond n bytes), which also reaches writes made without Python's files.
"""
import builtins
import contextlib
import errno
import io
import os
import resource
import signal

WRITING = "writing"
READING = "reading"

CHANGES = ("mkdir", "rmdir", "unlink", "remove", "rename", "replace", "link", "symlink", "utime", "chmod", "truncate", "ftruncate")
LISTINGS = ("listdir", "scandir")
# ways of copying that would bypass the counting: refused as on a file system without them
FAST = ("sendfile", "copy_file_range", "splice")

KILLED = 77


class Disk:
    """kind: WRITING or READING.  at: None just counts.  mode: 'stays' (the disk stays bad),
    'once' (only one call fails), 'dies' (the process is killed).  With 'once', at may be
    several points.  buffer: the size of the buffers of files, so that small files, too,
    are written and read in several steps."""

    def __init__(self, kind, at=None, mode="stays", error=None, buffer=io.DEFAULT_BUFFER_SIZE):
        self.kind = kind
        self.at, *self.then = at if isinstance(at, tuple) else (at,)
        self.mode = mode
        self.buffer = buffer
        self.count = 0
        self.struck = False
        self.torn = False
        self.failed = set()  # the names of the calls which failed
        self.error = error or (errno.ENOSPC if kind == WRITING else errno.EIO)

    # --- the decision ---------------------------------------------------------
    def _strike(self, what):
        self.failed.add(str(what))
        if self.mode == "dies":
            os._exit(KILLED)
        if self.then:
            self.at = self.then.pop(0)
        else:
            self.struck = True
        raise OSError(self.error, os.strerror(self.error) + " (injected)", str(what))

    def step(self, what):
        if self.at is not None:
            if self.torn or (self.struck and self.mode == "stays"):
                self.torn = False
                self._strike(what)
            if not self.struck and self.count >= self.at:
                self._strike(what)
        self.count += 1

    def some(self, n, what):
        """How many of n bytes may pass."""
        if n == 0:
            return 0
        if self.at is not None:
            if self.torn or (self.struck and self.mode == "stays"):
                self.torn = False
                self._strike(what)
            if not self.struck and self.count + n > self.at:
                n = self.at - self.count
                if n == 0:
                    self._strike(what)
                self.torn = True
                # the bytes which fitted; the next attempt fails
        self.count += n
        return n

    # --- the wrapped calls ----------------------------------------------------
    def __enter__(self):
        self.saved = []
        disk = self
        real_open = io.open

        class Raw(io.FileIO):
            def write(self, b):
                with memoryview(b) as v:
                    v = v.cast("B")
                    n = disk.some(len(v), "write") if disk.kind == WRITING else len(v)
                    if n:
                        done = super().write(v[:n])
                        if done != n:
                            raise RuntimeError("the real disk is full")
                    if n < len(v) and disk.mode == "dies":
                        os._exit(KILLED)
                    return n

            def truncate(self, size=None):
                if disk.kind == WRITING:
                    disk.step("truncate")
                return super().truncate(size)

            def readinto(self, b):
                if disk.kind != READING:
                    return super().readinto(b)
                with memoryview(b) as v:
                    v = v.cast("B")
                    at = self.tell() if self.seekable() else None
                    n = super().readinto(v)
                    if not n:
                        return n
                    k = disk.some(n, "read")
                    if k < n:
                        if at is None:
                            raise RuntimeError("cannot tear a read of a pipe")
                        self.seek(at + k)
                    return k

            def read(self, size=-1):
                if disk.kind != READING:
                    return super().read(size)
                if size is None or size < 0:
                    return self.readall()
                b = bytearray(size)
                n = self.readinto(b)
                return bytes(b[:n])

            def readall(self):
                if disk.kind != READING:
                    return super().readall()
                out = b""
                while True:
                    b = self.read(65536)
                    if not b:
                        return out
                    out += b

        def counting_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            writes = any(c in mode for c in "wax+") if isinstance(mode, str) else False
            if isinstance(mode, str) and not isinstance(file, int):
                if disk.kind == WRITING and any(c in mode for c in "wax"):
                    disk.step("open")
                elif disk.kind == READING and not any(c in mode for c in "wax"):
                    disk.step("open")
            if not isinstance(mode, str) or (disk.kind == WRITING and not writes) or (disk.kind == READING and writes and "+" not in mode):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            # let the real one complain about wrong arguments, with nothing opened yet
            binary = "b" in mode
            rawmode = mode.replace("b", "").replace("t", "")
            if (binary and (encoding is not None or errors is not None or newline is not None)) or (buffering == 0 and not binary):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = Raw(file, rawmode, closefd, opener)
            try:
                line_buffering = buffering == 1 and not binary
                if buffering == 0:
                    return raw
                size = disk.buffer if buffering in (-1, 1) else buffering
                if "+" in mode:
                    f = io.BufferedRandom(raw, size)
                elif writes:
                    f = io.BufferedWriter(raw, size)
                else:
                    f = io.BufferedReader(raw, size)
                if binary:
                    return f
                f = io.TextIOWrapper(f, encoding, errors, newline, line_buffering)
                f._CHUNK_SIZE = size
                f.mode = mode
                return f
            except BaseException:
                raw.close()
                raise

        def wrap(f, name):
            def g(*args, **kwargs):
                disk.step(name)
                return f(*args, **kwargs)

            return g

        def os_open(path, flags, *args, **kwargs):
            if disk.kind == WRITING:
                if flags & (os.O_CREAT | os.O_TRUNC):
                    disk.step("os.open")
            elif not flags & (os.O_WRONLY | os.O_CREAT):
                disk.step("os.open")
            return real["open"](path, flags, *args, **kwargs)

        def os_write(fd, data):
            with memoryview(data) as v:
                v = v.cast("B")
                n = disk.some(len(v), "os.write")
                if n:
                    done = real["write"](fd, v[:n])
                    if done != n:
                        raise RuntimeError("the real disk is full")
                if n < len(v) and disk.mode == "dies":
                    os._exit(KILLED)
                return n

        def os_read(fd, n):
            data = real["read"](fd, n)
            if not data:
                return data
            k = disk.some(len(data), "os.read")
            if k < len(data):
                os.lseek(fd, k - len(data), os.SEEK_CUR)
            return data[:k]

        def refuse(*args, **kwargs):
            raise OSError(errno.ENOTSOCK, "not here")

        real = {n: getattr(os, n) for n in ("open", "write", "read")}
        self._set(builtins, "open", counting_open)
        self._set(io, "open", counting_open)
        self._set(os, "open", os_open)
        if self.kind == WRITING:
            self._set(os, "write", os_write)
            names = CHANGES
        else:
            self._set(os, "read", os_read)
            names = LISTINGS
        for n in names:
            self._set(os, n, wrap(getattr(os, n), n))
        for n in FAST:
            if hasattr(os, n):
                self._set(os, n, refuse)
        return self

    def _set(self, module, name, value):
        self.saved.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    def __exit__(self, *_):
        for module, name, value in reversed(self.saved):
            setattr(module, name, value)
        return False


@contextlib.contextmanager
def limit(n):
    """No file may grow beyond n bytes; the write that would is torn there, the next fails."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, handler)


def in_child(fn):
    """Runs fn in a forked process; True if the process was killed by the injected fault.

    fn's own exceptions end the child silently: what it left behind is what is judged.
    """
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            fn()
            os._exit(0)
        except BaseException:  # pylint:disable=broad-except
            os._exit(1)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)
