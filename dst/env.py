"""What a scenario sees: the scratch directory, the CLI driver, file helpers and the assertion helper."""

from __future__ import annotations

import gc
import io
import logging
import os
import sys

from dst import core, fs as fsmod, net as netmod


class CliResult:
    def __init__(self, code, out, err, exc, crashed):
        self.code = code
        self.out = out
        self.err = err
        self.exc = exc
        self.crashed = crashed

    @property
    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None

    def tail(self) -> str:
        t = self.err.strip().splitlines()[-3:]
        return " / ".join(t) + (f" [{self.exc_name}: {self.exc}]" if self.exc is not None else "")


class _Stdin(io.StringIO):
    """Scripted stdin. A line equal to the INTR marker raises KeyboardInterrupt."""

    INTR = "\x03\n"

    def readline(self, size=-1):
        sim = core.ACTIVE
        if sim is not None:
            sim.point("stdin", log=False)
        line = super().readline(size)
        if line == self.INTR:
            raise KeyboardInterrupt()
        return line

    def fileno(self):
        raise OSError("no fileno")


class Env:
    def __init__(self, sim: core.Sim, scratch: str, fixtures: str | None):
        self.sim = sim
        self.root = os.path.realpath(scratch)
        self.fixtures = fixtures
        self.plan = sim.plan
        self.outcome: list[str] = []
        self.nontrivial = True
        self.sample = None

    # -- assertion
    def check(self, cond, key: str, msg: str) -> None:
        if not cond:
            raise core.Violation(key, msg)

    # -- harness-side file access (never faulted, never logged)
    def put(self, rel: str, data, mode: int | None = None) -> str:
        p = os.path.join(self.root, rel)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            _mkdirs(d)
        if isinstance(data, str):
            data = data.encode("utf-8")
        with fsmod._REAL_OPEN(p, "wb") as f:
            f.write(data)
        if mode is not None:
            fsmod.REAL["chmod"](p, mode)
        return p

    def get(self, rel: str) -> bytes | None:
        try:
            with fsmod._REAL_OPEN(os.path.join(self.root, rel), "rb") as f:
                return f.read()
        except OSError:
            return None

    def mkdir(self, rel: str) -> None:
        _mkdirs(os.path.join(self.root, rel))

    def tree(self, rel: str = ".") -> dict[str, bytes | str]:
        """Every file below `rel`: relative path -> content (symlinks as '-> target', directories as '/')."""
        base = os.path.join(self.root, rel)
        out: dict[str, bytes | str] = {}
        for d, dirs, files in _walk(base):
            for n in sorted(dirs):
                p = os.path.join(d, n)
                if os.path.islink(p):
                    out[os.path.relpath(p, base)] = "-> " + fsmod.REAL["readlink"](p)
                else:
                    out[os.path.relpath(p, base) + "/"] = "/"
            for n in sorted(files):
                p = os.path.join(d, n)
                r = os.path.relpath(p, base)
                if os.path.islink(p):
                    out[r] = "-> " + fsmod.REAL["readlink"](p)
                else:
                    try:
                        with fsmod._REAL_OPEN(p, "rb") as f:
                            out[r] = f.read()
                    except OSError as e:
                        out[r] = f"!{e.errno}"
        return out

    # -- seams
    def disk(self, allowed=()) -> fsmod.FS:
        self.sim.fs = fsmod.FS(self.sim, self.root, allowed)
        return self.sim.fs

    def network(self, table, blobs) -> netmod.Net:
        self.sim.net = netmod.Net(self.sim, table, blobs)
        return self.sim.net

    # -- running the command line in-process
    def cli(self, args: list[str], stdin: str | None = None) -> CliResult:
        from conda_recipe_manager.commands.conda_recipe_manager import conda_recipe_manager as group

        return self.call_cli(group, args, stdin, "crm")

    def call_cli(self, command, args, stdin=None, prog="crm") -> CliResult:
        sim = self.sim
        out, err = io.StringIO(), io.StringIO()
        saved = sys.stdout, sys.stderr, sys.stdin
        for h in list(logging.root.handlers):
            logging.root.removeHandler(h)
        sys.stdout, sys.stderr, sys.stdin = out, err, _Stdin(stdin or "")
        code, exc, crashed = None, None, False
        sim.log("cli", " ".join(args))
        try:
            command.main(args=list(args), prog_name=prog, standalone_mode=True)
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            code = int(code)
        except core.SimCrash:
            crashed = True
        except core.SimAbort:
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
            code = 1
        finally:
            sys.stdout, sys.stderr, sys.stdin = saved
        sim.log("cli-exit", f"{code} {type(exc).__name__ if exc else ''} {'crash' if crashed else ''}")
        res = CliResult(code, out.getvalue(), err.getvalue(), exc, crashed)
        return res

    def quiesce(self) -> None:
        """What an interpreter does to temporaries that fell out of scope, and at a clean exit."""
        import concurrent.futures.thread as cft
        import weakref

        if not self.sim.crashed:
            cft._python_exit()
            cft._shutdown = False
            for t in list(self.sim.order):
                if t is not self.sim.current and not t.done:
                    self.sim.join(t)
        gc.collect()
        weakref.finalize._exitfunc()
        gc.collect()

    def reboot(self) -> None:
        """The machine comes back after a crash: same disk, new process, no more faults."""
        self.sim.crashed = False
        fs = getattr(self.sim, "fs", None)
        if fs is not None:
            fs.frozen = False
            fs.faults = []
            fs.short = None

    def note(self, *parts) -> None:
        self.outcome.append("|".join(str(p) for p in parts))


def _mkdirs(d: str) -> None:
    if not os.path.isdir(d):
        parent = os.path.dirname(d)
        if parent and not os.path.isdir(parent):
            _mkdirs(parent)
        try:
            fsmod.REAL["mkdir"](d, 0o755)
        except FileExistsError:
            pass


def _walk(base):
    try:
        with fsmod.REAL["scandir"](base) as it:
            ents = sorted(it, key=lambda e: os.fsencode(e.name))
    except OSError:
        return
    dirs = [e.name for e in ents if e.is_dir(follow_symlinks=False)]
    files = [e.name for e in ents if not e.is_dir(follow_symlinks=False)]
    yield base, dirs, files
    for d in dirs:
        yield from _walk(os.path.join(base, d))
