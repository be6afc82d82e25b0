"""Installs every seam. Must be called once per interpreter before the code under test is imported."""

from __future__ import annotations

import os
import random
import sys
import threading
import time
import types

from dst import core, fs, net

_installed = False


def _install_time() -> None:
    real_sleep, real_time, real_mono, real_perf = time.sleep, time.time, time.monotonic, time.perf_counter

    def sim_of():
        s = core.ACTIVE
        return s if s is not None and s.me() is not None else None

    def sleep(seconds):
        s = sim_of()
        if s is None:
            return real_sleep(seconds)
        return s.sleep(seconds)

    def now():
        s = sim_of()
        return real_time() if s is None else s.time()

    def mono():
        s = sim_of()
        return real_mono() if s is None else s.monotonic()

    def perf():
        s = sim_of()
        return real_perf() if s is None else s.monotonic()

    time.sleep, time.time, time.monotonic, time.perf_counter = sleep, now, mono, perf
    time.time_ns = lambda: int(now() * 1e9)
    time.monotonic_ns = lambda: int(mono() * 1e9)
    time._dst_real = (real_sleep, real_time, real_mono, real_perf)
    # The logging module stamps records through time.time(); asctime goes through localtime(given) which is pure.
    threading._time = mono


def _install_threads() -> None:
    import concurrent.futures._base as cfb
    import concurrent.futures.thread as cft
    import queue

    real_pyr = threading._PyRLock
    real_rlock = threading.RLock

    threading._allocate_lock = core.make_lock
    threading.Lock = core.make_lock

    def rlock(*a, **k):
        if core.ACTIVE is not None or core.from_target():
            return real_pyr()
        return real_rlock()

    threading.RLock = rlock

    real_start_new = threading._start_new_thread

    def start_new(func, args=(), kwargs=None):
        sim = core.ACTIVE
        if sim is None or sim.me() is None:
            return real_start_new(func, args, kwargs or {})
        owner = getattr(func, "__self__", None)
        t = sim.spawn(func, args, name=f"T{len(sim.threads)}")
        if owner is not None:
            owner._sim_thread = t
        return 0

    threading._start_new_thread = start_new

    real_join = threading.Thread.join
    real_alive = threading.Thread.is_alive

    def join(self, timeout=None):
        sim = core.ACTIVE
        st = getattr(self, "_sim_thread", None)
        if sim is None or st is None or sim.me() is None:
            return real_join(self, timeout)
        sim.join(st, timeout)

    def is_alive(self):
        st = getattr(self, "_sim_thread", None)
        if st is None:
            return real_alive(self)
        return not st.done

    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
    # simulated threads have no tstate lock
    real_set = threading.Thread._set_tstate_lock

    def set_tstate(self):
        if getattr(self, "_sim_thread", None) is not None:
            return
        real_set(self)

    threading.Thread._set_tstate_lock = set_tstate

    # Threads are kept in sets ordered by address (executors join them in that order): give them a seeded hash too.
    real_tinit = threading.Thread.__init__

    def tinit(self, *a, **k):
        sim = core.ACTIVE
        if sim is not None:
            self.__dict__["_sim_hash"] = random.Random(f"thr:{sim.plan.get('seed', 0)}:{sim.next_seq()}").getrandbits(40)
        real_tinit(self, *a, **k)

    threading.Thread.__init__ = tinit
    threading.Thread.__hash__ = lambda self: self.__dict__.get("_sim_hash") or object.__hash__(self)

    # `queue.SimpleQueue` is C code with its own blocking; the pure-Python one uses the primitives above.
    c_sq = queue.SimpleQueue

    def simple_queue():
        if core.ACTIVE is not None or core.from_target():
            return queue._PySimpleQueue()
        return c_sq()

    queue.SimpleQueue = simple_queue

    class GlobalLock:
        """Dispatching replacement for module-level locks created at import time."""

        def __init__(self, real):
            self.real = real
            self.sim = None
            self.owner = None

        def _cur(self):
            if core.ACTIVE is None:
                return self.real
            if self.owner is not core.ACTIVE:
                self.owner = core.ACTIVE
                self.sim = core.SimLock()
            return self.sim

        def acquire(self, *a, **k):
            return self._cur().acquire(*a, **k)

        def release(self):
            self._cur().release()

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    cft._global_shutdown_lock = GlobalLock(cft._global_shutdown_lock)

    # Futures are kept in sets ordered by address; give them a seeded, reproducible hash and lock order instead.
    real_init = cfb.Future.__init__

    def finit(self):
        sim = core.ACTIVE
        if sim is not None:
            self._sim_seq = sim.next_seq()
            self._sim_hash = random.Random(f"fut:{sim.plan.get('seed', 0)}:{self._sim_seq}").getrandbits(40)
        else:
            self._sim_seq = id(self)
            self._sim_hash = id(self) >> 4
        real_init(self)

    cfb.Future.__init__ = finit
    cfb.Future.__hash__ = lambda self: self._sim_hash

    def acq_init(self, futures):
        self.futures = sorted(futures, key=lambda f: f._sim_seq)

    cfb._AcquireFutures.__init__ = acq_init


def _install_os() -> None:
    real_pid, real_cpu, real_urandom = os.getpid, os.cpu_count, os.urandom

    def getpid():
        s = core.ACTIVE
        if s is None or s.me() is None:
            return real_pid()
        return getattr(s, "pids", {}).get(s.me().tid, s.pid)

    def cpu_count():
        s = core.ACTIVE
        return real_cpu() if s is None else s.cpu_count

    def urandom(n):
        s = core.ACTIVE
        if s is None or s.me() is None:
            return real_urandom(n)
        return s.rng.randbytes(n)

    os.getpid, os.cpu_count, os.urandom = getpid, cpu_count, urandom


class _Names:
    def __init__(self, rng):
        self.rng = rng

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


def prepare_child(sim: core.Sim) -> None:
    """Per-run seeding inside the forked child."""
    import tempfile

    tempfile._name_sequence = _Names(random.Random(f"tmp:{sim.plan.get('seed', 0)}"))
    random.seed(sim.plan.get("seed", 0))


def install() -> None:
    global _installed
    if _installed:
        return
    _installed = True
    _install_time()
    _install_threads()
    _install_os()
    import shutil
    import tarfile
    import tempfile  # noqa: F401
    import zipfile  # noqa: F401

    fs.install()
    tarfile.bltn_open = fs.sim_open
    from dst import pool, proc

    pool.install()
    proc.install()
    net.install()
    if hasattr(shutil, "_USE_CP_SENDFILE"):
        shutil._USE_CP_SENDFILE = False  # file copies go through the seam instead of sendfile(2)


def conda_stub() -> bool:
    """Puts the stand-in for `conda` on the path when the real package is absent. :returns: True if stubbed."""
    import importlib.util

    try:
        if importlib.util.find_spec("conda") is not None and importlib.util.find_spec("conda.models") is not None:
            return False
    except (ImportError, ValueError):
        pass
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(here, "stubs"))
    return True


__all__ = ["install", "prepare_child", "conda_stub", "types"]
