"""
Child-process seam: `subprocess.Popen` for programs the simulator models (rattler-build) becomes a simulated process
with a duration on the simulated clock, an exit status and output bytes. `subprocess.run` and its timeout/kill logic
above it are the real ones. Programs in `sim.real_programs` (git) pass through to the real Popen.
"""

from __future__ import annotations

import io
import os
import shlex
import subprocess

from dst import core

_META = set("*?[]~$`;&|<>(){}!\n")


def sh_words(cmd: str):
    """
    Words `/bin/sh -c cmd` would pass to the program. :returns: (words, clean) where clean is False if the line holds
    unquoted characters the shell would act on (so the words are not what the caller wrote).
    """
    clean = True
    i, n = 0, len(cmd)
    q = None
    while i < n:
        c = cmd[i]
        if q is None:
            if c == "\\":
                i += 2
                continue
            if c in "'\"":
                q = c
            elif c in _META or (c == "#" and (i == 0 or cmd[i - 1].isspace())):
                clean = False
        elif q == "'":
            if c == "'":
                q = None
        else:
            if c == "\\":
                i += 2
                continue
            if c == '"':
                q = None
            elif c in "$`":
                clean = False
        i += 1
    try:
        words = shlex.split(cmd, comments=False, posix=True)
    except ValueError:
        return [cmd], False
    return words, clean


class _Pipe:
    """Reading end of a pipe to a simulated process; end of file is only seen once the process has ended."""

    def __init__(self, proc, kind):
        self.proc, self.kind, self.buf, self.closed = proc, kind, None, False

    def _b(self):
        if self.buf is None:
            self.proc.wait()
            data = self.proc._decode(self.proc._output()[self.kind])
            self.buf = io.StringIO(data) if isinstance(data, str) else io.BytesIO(data)
        return self.buf

    def read(self, *a):
        return self._b().read(*a)

    def readline(self, *a):
        return self._b().readline(*a)

    def readlines(self, *a):
        return self._b().readlines(*a)

    def __iter__(self):
        return iter(self._b())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True


class SimPopen:
    """Simulated child process."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        sim = core.ACTIVE
        self.sim = sim
        self.args = args
        self.encoding = encoding
        self.errors = errors
        self.text = bool(encoding or errors or text or universal_newlines)
        self._out_pipe = stdout == subprocess.PIPE
        self._err_pipe = stderr == subprocess.PIPE
        self._merge = stderr == subprocess.STDOUT
        self.returncode = None
        self.stdin = None
        self.stdout = _Pipe(self, "out") if self._out_pipe else None
        self.stderr = _Pipe(self, "err") if self._err_pipe else None
        self._files = [(f, kind) for f, kind in ((stdout, "out"), (stderr, "err"))
                       if f is not None and f not in (subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL)]
        if shell:
            line = args if isinstance(args, str) else " ".join(map(str, args))
            words, clean = sh_words(line)
        else:
            words, clean = ([args] if isinstance(args, str) else [str(a) for a in args]), True
        self.words = words
        self.pid = 9000 + sim.next_seq()
        beh = sim.programs(words, clean, shell, cwd)
        if beh.get("missing"):
            if shell:
                beh = {"code": 127, "err": f"/bin/sh: 1: {words[0]}: not found\n".encode(), "duration": 0.0}
            else:
                raise FileNotFoundError(2, "No such file or directory", words[0])
        self.beh = beh
        self.started = sim.now_us / 1e6
        d = beh.get("duration", 0.0)
        self.ends = None if d is None else self.started + d
        self.killed = False
        sim.log("proc", " ".join(words))
        sim.point("proc-start", log=False)

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, tb):
        self.wait()

    def _decode(self, data: bytes):
        if not self.text:
            return data
        enc = self.encoding or "utf-8"
        return data.decode(enc, self.errors or "strict").replace("\r\n", "\n").replace("\r", "\n")

    def _finish(self):
        if self.returncode is None:
            self.returncode = -9 if self.killed else int(self.beh.get("code", 0))
            self.sim.log("proc-exit", f"{self.returncode}")
            for f, kind in self._files:
                fd = f if isinstance(f, int) else f.fileno()
                os.write(fd, self._output()[kind])

    def poll(self):
        if self.returncode is None and (self.killed or (self.ends is not None and self.sim.now_us / 1e6 >= self.ends)):
            self._finish()
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is not None:
            return self.returncode
        if self.killed:
            self._finish()
            return self.returncode
        now = self.sim.now_us / 1e6
        if timeout is not None and (self.ends is None or self.ends > now + timeout):
            self.sim.advance(timeout)
            if self.poll() is None:
                raise subprocess.TimeoutExpired(self.args, timeout)
            return self.returncode
        if self.ends is None:
            self.sim._dead("unbounded-wait", "waiting without a timeout for a child process that never exits")
        if self.ends > now:
            self.sim.advance(self.ends - now)
        else:
            self.sim.point("proc-wait", log=False)
        self._finish()
        return self.returncode

    def _output(self):
        out, err = self.beh.get("out", b""), self.beh.get("err", b"")
        if self._merge:
            out, err = out + err, b""
        if self.killed:
            frac = self.beh.get("partial", 0.5)
            out, err = out[: int(len(out) * frac)], err[: int(len(err) * frac)]
        return {"out": out, "err": err}

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        data = self._output()
        return (
            self._decode(data["out"]) if self._out_pipe else None,
            self._decode(data["err"]) if self._err_pipe else None,
        )

    def kill(self):
        self.sim.log("proc-kill")
        self.killed = True

    terminate = kill

    def send_signal(self, sig):
        self.kill()


class GitFaults:
    """
    Faults of the real `git` program. A fault is {"cmd": clone|checkout|any, "nth": n, "how": ...} with how one of
    spawn (fork fails), missing (no git binary), fail (exits 128 at once), killed (does its work partly, then dies).
    """

    def __init__(self, sim):
        self.sim = sim
        self.faults: list[dict] = []
        self.fired = 0

    def command(self, args):
        words = [str(x) for x in args] if not isinstance(args, str) else [args]
        sub = next((w for w in words[1:] if not w.startswith("-")), "")
        self.sim.log("git", " ".join(words[1:]))
        self.sim.point("git", log=False)
        for f in self.faults:
            if f["cmd"] not in (sub, "any"):
                continue
            f["seen"] = f.get("seen", 0) + 1
            if f["seen"] != f.get("nth", 1):
                continue
            self.fired += 1
            self.sim.fault(f"git-{f['how']}-{sub}")
            if f["how"] == "spawn":
                raise OSError(11, "Resource temporarily unavailable")
            if f["how"] == "missing":
                raise FileNotFoundError(2, "No such file or directory", words[0])
            if f["how"] == "killed":
                if sub == "clone":
                    # the clone got as far as creating the work tree and some objects
                    return ["/bin/sh", "-c", '"$@" >/dev/null 2>&1; for last; do :; done; rm -rf "$last/.git/refs" "$last/.git/packed-refs"; '
                            'echo "fatal: early EOF" >&2; exit 128', "git", *words]
                return ["/bin/sh", "-c", '"$@" >/dev/null 2>&1; for f in *; do [ -f "$f" ] && rm -f "$f" && break; done; exit 137', "git", *words]
            return ["/bin/sh", "-c", 'echo "fatal: simulated failure" >&2; exit 128']
        return args


def install() -> None:
    real = subprocess.Popen

    class PopenMeta(type):
        def __instancecheck__(cls, inst):
            return isinstance(inst, (real, SimPopen))

        def __getattr__(cls, name):
            return getattr(real, name)

    class Popen(metaclass=PopenMeta):
        def __new__(cls, args, *a, **k):
            sim = core.ACTIVE
            if sim is None or getattr(sim, "programs", None) is None:
                git = getattr(sim, "git", None)
                if git is not None and sim.me() is not None:
                    args = git.command(args)
                return real(args, *a, **k)
            return SimPopen(args, *a, **k)

        def __class_getitem__(cls, item):
            return cls

    Popen._real = real
    subprocess.Popen = Popen
