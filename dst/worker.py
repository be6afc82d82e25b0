"""
Zygote: imports the code under test once behind the seams, then forks one child per simulated run. The child drops root,
works in its own scratch directory and reports one JSON line.

Protocol (stdin/stdout): 4-byte big-endian length + JSON.
"""

from __future__ import annotations

import gc
import importlib
import json
import os
import select
import shutil
import signal
import struct
import sys
import time
import traceback

CPU_LIMIT_S = 40
WALL_LIMIT_S = 150


def _read_exact(fd: int, n: int) -> bytes | None:
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def _recv(fd: int):
    h = _read_exact(fd, 4)
    if h is None:
        return None
    return json.loads(_read_exact(fd, struct.unpack(">I", h)[0]))


def _send(fd: int, obj) -> None:
    data = json.dumps(obj).encode()
    data = struct.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data) :]


def run_child(req: dict, scratch: str, out_fd: int, fixtures: str | None, drop: bool) -> None:
    from dst import core, seams
    from dst.env import Env

    plan = req["plan"]
    scen = importlib.import_module(f"dst.scenarios.{req['scenario']}")
    sim = core.Sim(plan, max_steps=getattr(scen, "MAX_STEPS", 200_000))
    sim.scratch = os.path.realpath(scratch)
    done = []

    def finish(status: str, key: str = "", msg: str = "", env: Env | None = None) -> None:
        if done:
            os._exit(0)
        done.append(1)
        res = {
            "status": status,
            "key": key,
            "msg": msg.replace(sim.scratch, "$S")[:4000],
            "steps": sim.steps,
            "events": sim.n_events,
            "switches": sim.switches,
            "sim_s": sim.now_us / 1e6,
            "faults": sim.faults,
            "probes": sim.probes,
            "digest": sim.digest(),
            "inter": sim.interleaving(),
            "tape": sim.decider.rec,
            "outcome": env.outcome if env else [],
            "nontrivial": bool(env.nontrivial) if env else False,
            "sample": env.sample if env else None,
        }
        if req.get("trace"):
            res["trace"] = sim.events
        data = json.dumps(res).encode()
        while data:
            data = data[os.write(out_fd, data) :]
        os._exit(0)

    env = None

    def dead(key: str, msg: str) -> None:
        finish("violation", key, msg, env)

    sim.on_dead = dead

    def on_cpu(_s, _f):
        finish("violation", "hang", f"the run consumed {CPU_LIMIT_S} s of CPU without finishing", env)

    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S)
    try:
        import tempfile

        os.chdir(scratch)
        os.mkdir("tmp", 0o777)
        if drop:
            os.chown(scratch, 65534, 65534)
            os.chown("tmp", 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        os.umask(0o022)
        os.environ["HOME"] = scratch
        os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
        tempfile.tempdir = os.path.join(os.path.realpath(scratch), "tmp")
        core.activate(sim)
        seams.prepare_child(sim)
        env = Env(sim, scratch, fixtures)
        sys.stderr.flush()
        scen.run(plan, sim, env)
    except core.Violation as v:
        finish("violation", v.key, v.msg, env)
    except core.SimAbort as e:
        finish("error", "abort", str(e), env)
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if any("conda_recipe_manager/" in f.filename or "/repo/scripts/" in f.filename for f in traceback.extract_tb(e.__traceback__)) \
                and isinstance(e, Exception):
            # the code under test raised where the scenario expects it never to
            finish("violation", "unexpected-exception", f"{type(e).__name__}: {e}\n{tb[-1500:]}", env)
        finish("error", type(e).__name__, tb[-3000:], env)
    finish("ok", env=env)


def main() -> None:
    base, idx = sys.argv[1], int(sys.argv[2])
    fixtures = sys.argv[3] if len(sys.argv) > 3 and sys.argv[3] != "-" else None
    in_fd, out_fd = os.dup(0), os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(2, 1)
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["MPLCONFIGDIR"] = os.path.join(base, "mpl")
    from dst import seams

    seams.install()
    stub = seams.conda_stub()
    try:
        from dst import target

        target.load()
    except BaseException:  # noqa: BLE001
        _send(out_fd, {"hello": False, "error": traceback.format_exc()[-3000:]})
        return
    _send(out_fd, {"hello": True, "conda_stub": stub, "hashseed": os.environ.get("PYTHONHASHSEED")})
    drop = os.geteuid() == 0
    gc.collect()
    gc.freeze()
    gc.disable()
    wdir = os.path.join(base, f"w{idx}")
    os.makedirs(wdir, 0o755, exist_ok=True)
    n = 0
    while True:
        req = _recv(in_fd)
        if req is None:
            break
        n += 1
        scratch = os.path.join(wdir, "s")
        if os.path.lexists(scratch):
            shutil.rmtree(scratch, ignore_errors=True)
        os.mkdir(scratch, 0o755)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(in_fd)
                os.close(out_fd)
                run_child(req, scratch, w, fixtures, drop)
            finally:
                os._exit(3)
        os.close(w)
        buf = b""
        deadline = time._dst_real[2]() + WALL_LIMIT_S
        timed_out = False
        while True:
            left = deadline - time._dst_real[2]()
            if left <= 0:
                timed_out = True
                break
            rl, _, _ = select.select([r], [], [], min(left, 5))
            if rl:
                c = os.read(r, 1 << 16)
                if not c:
                    break
                buf += c
        os.close(r)
        try:
            if timed_out:
                os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        try:
            res = json.loads(buf)
        except ValueError:
            res = {"status": "error", "key": "wall-timeout" if timed_out else "no-result", "msg": repr(buf[-500:])}
        res["id"] = req.get("id")
        shutil.rmtree(scratch, ignore_errors=True)
        _send(out_fd, res)


if __name__ == "__main__":
    main()
