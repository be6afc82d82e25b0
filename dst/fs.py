"""
Disk seam. Real files in a scratch directory, behind wrappers around `open`, `io.open`, and the `os.*` calls, so the
simulator can: yield at each operation, shuffle directory enumeration, shorten reads and writes, fail any operation
with an errno, kill the process at any operation (torn writes included), work out what a power loss would leave, and
refuse (and record) any mutation outside the scratch directory.
"""

from __future__ import annotations

import errno
import fnmatch
import io
import os
import random
import stat as stat_mod

from dst import core

REAL = {}
_REAL_OPEN = io.open

MUTATING = {
    "open-w", "write", "fsync", "mkdir", "rmdir", "unlink", "rename", "link", "symlink", "chmod", "chown", "utime",
    "truncate", "close-w", "mknod",
}
READING = {"open-r", "read", "scandir"}
ERRNOS = {
    "enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE, "erofs": errno.EROFS,
    "edquot": errno.EDQUOT, "enoent": errno.ENOENT, "eperm": errno.EPERM,
}


def _oserror(kind: str, path: str) -> OSError:
    num = ERRNOS[kind]
    return OSError(num, os.strerror(num), path)


class FS:
    """Per-run state of the simulated disk."""

    def __init__(self, sim: core.Sim, root: str, allowed=()):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.allowed = [self.root] + [os.path.realpath(p) for p in allowed]
        self.faults = [dict(f) for f in sim.plan.get("disk", [])]
        for f in self.faults:
            f["seen"] = 0
            f["fired"] = 0
        self.dirorder = sim.plan.get("dirorder")
        self.short = sim.plan.get("short_io")  # seed => random short reads/writes everywhere
        self.short_rng = random.Random(f"short:{self.short}")
        self.escapes: list[str] = []
        self.mut_count = 0
        self.mut_log: list[str] = []
        self.fdpath: dict[int, str] = {}
        self.on_open = None
        self.enabled = True
        self.quiet = 0
        self.frozen = False
        # power-loss model
        self.ino_durable: dict[int, bytes | None] = {}
        self.ino_last: dict[int, bytes] = {}
        self.dirops: list[tuple] = []
        self.base_entries: dict[str, int] = {}
        self.track = bool(sim.plan.get("power"))
        if self.track:
            self._snapshot()

    # -- helpers
    def rel(self, path: str) -> str:
        return os.path.relpath(path, self.root) if path.startswith(self.root) else path

    def resolve(self, path, dir_fd=None, follow_last: bool = True) -> str:
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None and not os.path.isabs(path):
            base = REAL["readlink"](f"/proc/self/fd/{dir_fd}")
            path = os.path.join(base, path)
        ap = os.path.abspath(path)
        if follow_last:
            return os.path.realpath(ap)
        return os.path.join(os.path.realpath(os.path.dirname(ap)), os.path.basename(ap))

    def inside(self, real: str) -> bool:
        return any(real == a or real.startswith(a + "/") for a in self.allowed)

    def in_root(self, real: str) -> bool:
        return real == self.root or real.startswith(self.root + "/")

    def guard(self, op: str, real: str) -> None:
        if self.inside(real) or real in ("/dev/null", "/dev/tty"):
            return
        self.escapes.append(f"{op} {real}")
        self.sim.log("ESCAPE", f"{op} {real}")
        raise PermissionError(errno.EACCES, "simulated disk: outside the scratch directory", real)

    # -- fault engine
    def check(self, op: str, real: str, size: int = 0):
        """Called before each operation. :returns: None, or ("short", n) for partial transfers."""
        sim = self.sim
        if not self.enabled or sim.me() is None:
            return None
        if self.frozen or sim.crashed:
            raise core.SimCrash()
        rel = self.rel(real)
        if self.quiet:
            return None
        mut = op in MUTATING
        if mut:
            self.mut_count += 1
            self.mut_log.append(f"{op} {rel}")
        if op != "read" or size:
            sim.point(op, rel)
        for f in self.faults:
            want = f["op"]
            if want == "*mut":
                if not mut:
                    continue
            elif want == "*read":
                if op not in READING:
                    continue
            elif want != op:
                continue
            if not fnmatch.fnmatch(rel, f.get("glob", "*")):
                continue
            if f.get("only") is not None and sim.me().tid != f["only"]:
                continue
            f["seen"] += 1
            nth = f.get("nth", 1)
            if f["seen"] < nth or (f["seen"] > nth and not f.get("sticky")):
                continue
            f["fired"] += 1
            kind = f["kind"]
            sim.fault(f"disk-{kind}-{op}")
            sim.log("FAULT", f"{kind} {op} {rel}")
            if kind == "crash":
                return ("crash", f.get("frac", 0.5))
            if kind == "crash-after":
                return ("crash-after", 1.0)
            if kind == "intr":
                raise KeyboardInterrupt()
            if kind == "short":
                if op not in ("read", "write") or size < 2:
                    return None
                frac = f.get("frac", 0.5)
                return ("short", max(1, int(size * (max(frac, 0.5) if f.get("sticky") else frac))))
            if op == "write" and size > 1 and f.get("frac"):
                return ("partial-error", kind, int(size * f["frac"]))
            raise _oserror(kind, real)
        if self.short is not None and op in ("read", "write") and size > 1 and self.short_rng.random() < 0.7:
            sim.fault(f"disk-short-{op}")
            return ("short", self.short_rng.randrange(1 + size // 3 if size > 64 else 1, size))
        return None

    def act(self, op: str, real: str, fn):
        """Runs a non-transfer operation under the fault engine."""
        a = self.check(op, real)
        if a is not None and a[0] == "crash":
            self.freeze()
        if self.frozen or self.sim.crashed:
            raise core.SimCrash()
        r = fn()
        if a is not None and a[0] == "crash-after":
            self.freeze()
        if op == "open-r" and self.on_open is not None and self.enabled:
            self.on_open(real)
        return r

    def freeze(self):
        self.frozen = True
        self.sim.crash()

    # -- power-loss model (only when plan["power"])
    def _snapshot(self):
        for d, _, files in _walk_real(self.root):
            for f in files:
                p = os.path.join(d, f)
                try:
                    st = REAL["lstat"](p)
                    if stat_mod.S_ISREG(st.st_mode):
                        self.base_entries[p] = st.st_ino
                        with _REAL_OPEN(p, "rb") as fp:
                            self.ino_durable[st.st_ino] = fp.read()
                except OSError:
                    pass

    def _content(self, path: str):
        try:
            with _REAL_OPEN(path, "rb") as fp:
                return fp.read()
        except OSError:
            return None

    def note_fsync(self, fd: int) -> None:
        if self.track:
            st = REAL["fstat"](fd)
            p = REAL["readlink"](f"/proc/self/fd/{fd}")
            c = self._content(p)
            if c is not None and stat_mod.S_ISREG(st.st_mode):
                self.ino_durable[st.st_ino] = c

    def note_create(self, path: str) -> None:
        if self.track:
            st = REAL["lstat"](path)
            if path not in self.base_entries and not any(o[0] == "create" and o[1] == path for o in self.dirops):
                self.dirops.append(("create", path, st.st_ino))
                self.ino_durable.setdefault(st.st_ino, None)

    def note_gone(self, path: str) -> None:
        if self.track:
            try:
                st = REAL["lstat"](path)
            except OSError:
                return
            c = self._content(path)
            if c is not None:
                self.ino_last[st.st_ino] = c

    def power_outcomes(self, path: str) -> list[bytes | None]:
        """Every content `path` may have after a power loss right now (None: no such file)."""
        path = os.path.realpath(path)
        live: dict[int, bytes] = dict(self.ino_last)
        for d, _, files in _walk_real(self.root):
            for f in files:
                p = os.path.join(d, f)
                c = self._content(p)
                if c is not None:
                    live[REAL["lstat"](p).st_ino] = c

        def contents(ino):
            dur, cur = self.ino_durable.get(ino), live.get(ino, b"")
            if dur == cur:
                return [cur]
            res = [cur, cur[: len(cur) // 2], b""]
            if dur is not None:
                res.append(dur)
            return res

        out: list[bytes | None] = []
        entries = dict(self.base_entries)
        for k in range(len(self.dirops) + 1):
            if k:
                o = self.dirops[k - 1]
                if o[0] == "create":
                    entries[o[1]] = o[2]
                elif o[0] == "unlink":
                    entries.pop(o[1], None)
                elif o[0] == "rename":
                    entries[o[2]] = o[3]
                    entries.pop(o[1], None)
            ino = entries.get(path)
            out.extend([None] if ino is None else contents(ino))
        uniq: list[bytes | None] = []
        for c in out:
            if c not in uniq:
                uniq.append(c)
        return uniq


def _walk_real(root: str):
    with REAL["scandir"](root) as it:
        ents = sorted(it, key=lambda e: os.fsencode(e.name))
    dirs = [e.name for e in ents if e.is_dir(follow_symlinks=False)]
    yield root, dirs, [e.name for e in ents if not e.is_dir(follow_symlinks=False)]
    for d in dirs:
        yield from _walk_real(os.path.join(root, d))


def _fs() -> FS | None:
    sim = core.ACTIVE
    if sim is None:
        return None
    fs = getattr(sim, "fs", None)
    if fs is None or not fs.enabled:
        return None
    return fs


class SimFileIO(io.FileIO):
    """Raw file whose transfers go through the fault engine."""

    def __init__(self, fs: FS, real: str, *a, **k):
        self._fs = fs
        self._real = real
        super().__init__(*a, **k)

    def write(self, b):
        data = bytes(b)
        act = self._fs.check("write", self._real, len(data))
        if act is None:
            return super().write(data)
        if act[0] == "short":
            return super().write(data[: act[1]])
        if act[0] == "partial-error":
            super().write(data[: act[2]])
            raise _oserror(act[1], self._real)
        if act[0] == "crash":
            super().write(data[: int(len(data) * act[1])])
            self._fs.freeze()
        if act[0] == "crash-after":
            super().write(data)
            self._fs.freeze()
        return super().write(data)

    def _limit(self, n):
        act = self._fs.check("read", self._real, n)
        if act is None:
            return n
        if act[0] == "short":
            return act[1]
        if act[0] in ("crash", "crash-after"):
            self._fs.freeze()
        return n

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        n = self._limit(len(mv))
        if n >= len(mv):
            return super().readinto(b)
        return super().readinto(mv[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._limit(size))

    def readall(self):
        chunks = []
        while True:
            n = self._limit(1 << 16)
            c = super().read(n)
            if not c:
                return b"".join(chunks)
            chunks.append(c)

    def truncate(self, size=None):
        return self._fs.act("truncate", self._real, lambda: super(SimFileIO, self).truncate(size))

    def close(self):
        if not self.closed:
            fs = self._fs
            try:
                fd = self.fileno()
            except ValueError:
                fd = -1
            fs.fdpath.pop(fd, None)
            if any(f["op"] == "close-w" for f in fs.faults) and self.writable() and not fs.frozen:
                try:
                    fs.check("close-w", self._real)
                finally:
                    super().close()
                return
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = _fs()
    if fs is None or fs.sim.me() is None:
        return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        real = fs.fdpath.get(file)
        if real is None:
            return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        real = fs.resolve(file)
        if not fs.in_root(real):
            if writing:
                fs.guard("open-w", real)
            return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError(f"invalid mode: {mode!r}")
    binary = "b" in mode
    raw_mode = "".join(c for c in mode if c in "rwax+") or "r"
    if binary and (encoding is not None or errors is not None or newline is not None):
        return _REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)

    def _mk():
        # FileIO calls the C open() directly; a custom opener would hide the path from the engine.
        existed = isinstance(file, int) or REAL["path_exists"](real)
        raw = SimFileIO(fs, real, file, raw_mode, closefd, opener)
        fs.fdpath[raw.fileno()] = real
        if writing and not existed:
            fs.note_create(real)
        return raw

    if isinstance(file, int):
        raw = _mk()
    else:
        raw = fs.act("open-w" if writing else "open-r", real, _mk)
    if isinstance(raw, SimFileIO) and stat_mod.S_ISDIR(REAL["fstat"](raw.fileno()).st_mode):
        raw.close()
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    line = False
    if buffering == 1 or buffering < 0 and raw.isatty():
        buffering, line = -1, True
    if buffering < 0:
        buffering = io.DEFAULT_BUFFER_SIZE
    if buffering == 0:
        if binary:
            return raw
        raise ValueError("can't have unbuffered text I/O")
    if "+" in mode:
        buf = io.BufferedRandom(raw, buffering)
    elif writing:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line)
    text.mode = mode
    return text


class _Scan:
    def __init__(self, entries, real):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def install() -> None:
    """Installs the wrappers (once per interpreter, before the code under test is imported)."""
    import builtins

    for n in (
        "open mkdir rmdir unlink remove rename replace link symlink chmod chown lchown utime truncate ftruncate fsync "
        "fdatasync scandir listdir readlink lstat fstat stat write walk mkfifo mknod close"
    ).split():
        REAL[n] = getattr(os, n)
    REAL["path_exists"] = os.path.lexists

    builtins.open = sim_open
    io.open = sim_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = _fs()
        if fs is None or fs.sim.me() is None:
            return REAL["open"](path, flags, mode, dir_fd=dir_fd)
        real = fs.resolve(path, dir_fd)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if not fs.in_root(real):
            if writing:
                fs.guard("open-w", real)
            return REAL["open"](path, flags, mode, dir_fd=dir_fd)

        def go():
            existed = os.path.lexists(real)
            fd = REAL["open"](path, flags, mode, dir_fd=dir_fd)
            fs.fdpath[fd] = real
            if writing and not existed:
                fs.note_create(real)
            return fd

        if not writing:
            return go()
        return fs.act("open-w", real, go)

    def os_write(fd, data):
        fs = _fs()
        real = fs.fdpath.get(fd) if fs is not None else None
        if real is None or fs.sim.me() is None:
            return REAL["write"](fd, data)
        data = bytes(data)
        act = fs.check("write", real, len(data))
        if act is None:
            return REAL["write"](fd, data)
        if act[0] == "short":
            return REAL["write"](fd, data[: act[1]])
        if act[0] == "partial-error":
            REAL["write"](fd, data[: act[2]])
            raise _oserror(act[1], real)
        REAL["write"](fd, data[: int(len(data) * act[1])])
        fs.freeze()

    def one(name, op, follow=False, gone=False):
        real_fn = REAL[name]

        def w(path, *a, dir_fd=None, **k):
            fs = _fs()
            kw = dict(k)
            if dir_fd is not None:
                kw["dir_fd"] = dir_fd
            if fs is None or fs.sim.me() is None or isinstance(path, int):
                return real_fn(path, *a, **kw)
            real = fs.resolve(path, dir_fd, follow and k.get("follow_symlinks", True))
            fs.guard(op, real)
            if not fs.in_root(real):
                return real_fn(path, *a, **kw)

            def go():
                if gone:
                    fs.note_gone(real)
                r = real_fn(path, *a, **kw)
                if gone and fs.track:
                    fs.dirops.append(("unlink", real))
                return r

            return fs.act(op, real, go)

        w.__name__ = name
        return w

    def two(name, op):
        real_fn = REAL[name]

        def w(src, dst, *a, src_dir_fd=None, dst_dir_fd=None, **k):
            fs = _fs()
            kw = dict(k)
            if src_dir_fd is not None:
                kw["src_dir_fd"] = src_dir_fd
            if dst_dir_fd is not None:
                kw["dst_dir_fd"] = dst_dir_fd
            if fs is None or fs.sim.me() is None:
                return real_fn(src, dst, *a, **kw)
            rs = fs.resolve(src, src_dir_fd, False)
            rd = fs.resolve(dst, dst_dir_fd, False)
            if op == "rename":
                fs.guard(op, rs)
            fs.guard(op, rd)
            if not fs.in_root(rd):
                return real_fn(src, dst, *a, **kw)

            def go():
                ino = None
                if fs.track:
                    fs.note_gone(rd)
                    try:
                        ino = REAL["lstat"](rs).st_ino
                    except OSError:
                        pass
                r = real_fn(src, dst, *a, **kw)
                if fs.track and ino is not None and op == "rename":
                    fs.dirops.append(("rename", rs, rd, ino))
                return r

            return fs.act(op, rd, go)

        w.__name__ = name
        return w

    def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
        fs = _fs()
        if fs is None or fs.sim.me() is None:
            return REAL["symlink"](src, dst, target_is_directory, dir_fd=dir_fd)
        rd = fs.resolve(dst, dir_fd, False)
        fs.guard("symlink", rd)
        return fs.act("symlink", rd, lambda: REAL["symlink"](src, dst, target_is_directory, dir_fd=dir_fd))

    def fsyncish(name):
        def w(fd):
            fs = _fs()
            fdn = fd if isinstance(fd, int) else fd.fileno()
            real = fs.fdpath.get(fdn) if fs is not None else None
            if real is None or fs.sim.me() is None:
                return REAL[name](fd)

            def go():
                # tmpfs: a real fsync is a no-op; the model records what became durable
                fs.note_fsync(fdn)

            return fs.act("fsync", real, go)

        return w

    def scandir(path="."):
        fs = _fs()
        if fs is None or fs.sim.me() is None:
            return REAL["scandir"](path)
        if isinstance(path, int):
            with REAL["scandir"](path) as it:
                ents = sorted(it, key=lambda e: e.name)
            return _Scan(ents, "")
        real = fs.resolve(path)
        if not fs.in_root(real):
            return REAL["scandir"](path)
        fs.check("scandir", real)
        with REAL["scandir"](path) as it:
            ents = sorted(it, key=lambda e: os.fsencode(e.name))
        if fs.dirorder is not None:
            random.Random(f"dir:{fs.dirorder}:{fs.rel(real)}").shuffle(ents)
        return _Scan(ents, real)

    def listdir(path="."):
        fs = _fs()
        if fs is None or fs.sim.me() is None or isinstance(path, int):
            return REAL["listdir"](path)
        real = fs.resolve(path)
        names = sorted(REAL["listdir"](path))
        if fs.in_root(real):
            fs.check("scandir", real)
            if fs.dirorder is not None:
                random.Random(f"dir:{fs.dirorder}:{fs.rel(real)}").shuffle(names)
        return names

    os.open = os_open
    os.write = os_write
    for name, op, follow, gone in (
        ("mkdir", "mkdir", False, False),
        ("rmdir", "rmdir", False, False),
        ("unlink", "unlink", False, True),
        ("remove", "unlink", False, True),
        ("chmod", "chmod", True, False),
        ("chown", "chown", True, False),
        ("lchown", "chown", False, False),
        ("utime", "utime", True, False),
        ("truncate", "truncate", True, False),
        ("mkfifo", "mknod", False, False),
        ("mknod", "mknod", False, False),
    ):
        w = one(name, op, follow, gone)
        setattr(os, name, w)
    for name in ("rename", "replace"):
        setattr(os, name, two(name, "rename"))
    os.link = two("link", "link")
    os.symlink = symlink
    os.fsync = fsyncish("fsync")
    os.fdatasync = fsyncish("fdatasync")
    os.scandir = scandir
    os.listdir = listdir
    # keep the capability sets truthful for the wrapped callables (shutil, tempfile consult them)
    for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
        for n in list(REAL):
            if n in REAL and REAL[n] in s:
                s.add(getattr(os, n, REAL[n]))
