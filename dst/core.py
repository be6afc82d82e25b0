"""
Deterministic simulator core: one process, one seeded PRNG, one simulated clock, and a baton scheduler over real OS
threads that are parked and released one at a time. Everything the code under test can observe that is not a pure
function of its input (thread order, time, locks, files, network, child processes, pools, set order of futures) is
decided here or in the seams built on top of this module.

A run is a pure function of (plan, code): the schedule is drawn from `plan["sched"]` (a seed plus an optional explicit
tape of choices), so a plan with its tape is the replay file.
"""

from __future__ import annotations

import _thread
import hashlib
import os
import random
import sys

# The active simulation of this process (None => every seam passes straight through).
ACTIVE: "Sim | None" = None

_real_allocate = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_get_ident = _thread.get_ident


class SimAbort(BaseException):
    """Raised inside the simulation to stop a run that already has its verdict (deadlock, step limit, crash)."""


class SimCrash(BaseException):
    """The simulated process died here. Nothing after this point may touch the simulated disk."""


class Violation(Exception):
    """A property was observed to be broken."""

    def __init__(self, key: str, msg: str):
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class HarnessError(Exception):
    """The harness itself cannot decide."""


class SimThread:
    __slots__ = ("tid", "name", "gate", "state", "wake", "done", "ident", "timed_out", "waiters")

    def __init__(self, tid: int, name: str):
        self.tid = tid
        self.name = name
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = "run"  # run | block | done
        self.wake = None
        self.done = False
        self.ident = None
        self.timed_out = False
        self.waiters = []


class Decider:
    """Source of scheduling choices: explicit tape first, then the seeded generator (or 0 when `tape_only`)."""

    def __init__(self, sched: dict):
        self.rng = random.Random(f"sched:{sched.get('seed', 0)}")
        self.tape = sched.get("tape")
        self.mode = sched.get("mode", "random")
        self.stick = float(sched.get("stick", 0.0))
        self.pos = 0
        self.rec: list[int] = []
        self.prio: dict[int, float] = {}

    def choose(self, tids: list[int], current: int) -> int:
        """:returns: index into tids"""
        n = len(tids)
        if self.tape is not None:
            c = self.tape[self.pos] if self.pos < len(self.tape) else 0
            self.pos += 1
            c = c % n
        elif self.mode == "fifo":
            c = 0
        elif self.mode == "lifo":
            c = n - 1
        elif self.mode == "prio":
            # PCT-flavoured: random thread priorities with occasional priority changes.
            best = None
            for i, t in enumerate(tids):
                p = self.prio.get(t)
                if p is None:
                    p = self.prio[t] = self.rng.random()
                if best is None or p > self.prio[tids[best]]:
                    best = i
            c = best
            if self.rng.random() < 0.1:
                self.prio[tids[c]] = self.rng.random() * 0.5
        else:
            if current in tids and self.stick and self.rng.random() < self.stick:
                c = tids.index(current)
            else:
                c = self.rng.randrange(n)
        self.rec.append(c)
        return c


class Sim:
    """One simulated execution."""

    def __init__(self, plan: dict, max_steps: int = 200_000):
        self.plan = plan
        self.now_us = 0
        self.wall_base = 1_700_000_000.0
        self.wall_skew = 0.0
        self.clock_jumps = sorted(plan.get("clock_jumps", []))  # [[at_seconds, delta_seconds], ...]
        self.decider = Decider(plan.get("sched", {}))
        self.rng = random.Random(f"sim:{plan.get('seed', 0)}")
        self.threads: dict[int, SimThread] = {}
        self.by_ident: dict[int, SimThread] = {}
        self.order: list[SimThread] = []
        self.current: SimThread | None = None
        self.steps = 0
        self.max_steps = max_steps
        self.events: list[str] = []
        self.n_events = 0
        self._h = hashlib.sha256()
        self._ih = hashlib.sha256()
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.scratch = ""
        self.on_dead = None  # callback(key, msg): must not return
        self.crashed = False
        self.switches = 0
        self.seq = 0
        self.pid = 4242
        self.cpu_count = int(plan.get("cpus", 4))
        # Ctrl-C: the n-th time the main thread waits or touches the disk while armed, it gets KeyboardInterrupt.
        self.intr_at = None
        self.intr_seen = 0
        main = SimThread(0, "main")
        main.ident = _get_ident()
        self.threads[0] = main
        self.by_ident[main.ident] = main
        self.order.append(main)
        self.current = main

    # ---- bookkeeping -------------------------------------------------------------------------------------------
    def log(self, kind: str, detail: str = "") -> None:
        tid = self.current.tid if self.current else -1
        if self.scratch and self.scratch in detail:
            detail = detail.replace(self.scratch, "$S")
        line = f"{self.now_us}|{tid}|{kind}|{detail}"
        self._h.update(line.encode("utf-8", "backslashreplace"))
        self._ih.update(f"{tid}|{kind};".encode())
        self.n_events += 1
        if len(self.events) < 4000:
            self.events.append(line)

    def fault(self, kind: str) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, name: str) -> None:
        self.probes[name] = self.probes.get(name, 0) + 1

    def digest(self) -> str:
        return self._h.hexdigest()[:24]

    def interleaving(self) -> str:
        return self._ih.hexdigest()[:24]

    def next_seq(self) -> int:
        self.seq += 1
        return self.seq

    # ---- clock --------------------------------------------------------------------------------------------------
    def monotonic(self) -> float:
        return 1000.0 + self.now_us / 1e6

    def time(self) -> float:
        now = self.now_us / 1e6
        skew = sum(d for at, d in self.clock_jumps if at <= now)
        return self.wall_base + now + skew

    # ---- scheduling ---------------------------------------------------------------------------------------------
    def me(self) -> SimThread | None:
        return self.by_ident.get(_get_ident())

    def _runnable(self) -> list[SimThread]:
        return [t for t in self.order if t.state == "run"]

    def _dead(self, key: str, msg: str) -> None:
        if self.on_dead is not None:
            self.on_dead(key, msg)
        raise SimAbort(f"{key}: {msg}")

    def _pick(self, cur: SimThread) -> SimThread:
        while True:
            run = self._runnable()
            if run:
                break
            timers = [t for t in self.order if t.state == "block" and t.wake is not None]
            if not timers:
                states = ", ".join(f"{t.name}:{t.state}" for t in self.order if t.state != "done")
                self._dead("deadlock", f"every simulated thread is blocked and no timer is pending ({states})")
            nxt = min(t.wake for t in timers)
            if nxt > self.now_us:
                self.now_us = nxt
            for t in timers:
                if t.wake <= self.now_us:
                    t.wake = None
                    t.timed_out = True
                    t.state = "run"
        if len(run) == 1:
            return run[0]
        ids = [t.tid for t in run]
        return run[self.decider.choose(ids, cur.tid)]

    def _switch(self, cur: SimThread) -> None:
        self.steps += 1
        if self.steps > self.max_steps:
            self._dead("no-progress", f"the run did not finish within {self.max_steps} scheduling steps")
        nxt = self._pick(cur)
        if nxt is cur:
            return
        self.switches += 1
        self.current = nxt
        nxt.gate.release()
        if not cur.done:
            cur.gate.acquire()

    def crash(self) -> None:
        """The simulated process dies now: every thread unwinds with SimCrash at its next interaction."""
        self.log("CRASH")
        self.crashed = True
        for t in self.order:
            if t.state == "block":
                t.state = "run"
                t.wake = None
                t.timed_out = True
        raise SimCrash()

    def point(self, kind: str, detail: str = "", log: bool = True) -> None:
        """A scheduling point: the event is logged and any runnable thread may run next."""
        cur = self.me()
        if cur is None or cur is not self.current:
            return
        if self.crashed:
            raise SimCrash()
        if log:
            self.log(kind, detail)
        if log and self.intr_at is not None and kind not in ("rmdir", "unlink", "chmod"):
            self._maybe_intr(cur)
        if len(self.order) > 1:
            self._switch(cur)
            if self.crashed:
                raise SimCrash()
        else:
            self.steps += 1
            if self.steps > self.max_steps:
                self._dead("no-progress", f"the run did not finish within {self.max_steps} scheduling steps")

    def _maybe_intr(self, cur: SimThread) -> None:
        if cur.tid != 0:
            return
        self.intr_seen += 1
        if self.intr_seen == self.intr_at:
            self.log("INTR")
            self.fault("keyboard-interrupt")
            raise KeyboardInterrupt()

    def block(self, timeout: float | None = None) -> bool:
        """Park the calling thread until `wake()` or the simulated timeout. :returns: False on timeout."""
        cur = self.me()
        if self.crashed:
            raise SimCrash()
        if self.intr_at is not None:
            self._maybe_intr(cur)
        cur.timed_out = False
        cur.state = "block"
        cur.wake = None if timeout is None else self.now_us + max(0, int(round(timeout * 1e6)))
        self._switch(cur)
        if self.crashed:
            raise SimCrash()
        return not cur.timed_out

    def wake(self, t: SimThread) -> None:
        if t.state == "block":
            t.state = "run"
            t.wake = None
            t.timed_out = False

    def sleep(self, seconds: float) -> None:
        self.log("sleep", f"{seconds:.6f}")
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        self.block(seconds)

    def advance(self, seconds: float, kind: str = "io") -> None:
        """The calling thread spends simulated time (others may run meanwhile)."""
        if seconds > 0:
            self.block(seconds)
        else:
            self.point(kind, log=False)

    def spawn(self, func, args=(), name: str = "") -> SimThread:
        tid = len(self.threads)
        t = SimThread(tid, name or f"t{tid}")
        self.threads[tid] = t
        self.order.append(t)
        self.log("spawn", t.name)

        def boot():
            t.gate.acquire()
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            try:
                func(*args)
            except SystemExit:
                pass
            except (SimAbort, SimCrash):
                pass
            except BaseException as e:  # noqa: BLE001
                self.log("thread-exc", type(e).__name__)
            finally:
                self._finish(t)

        _real_start_new_thread(boot, ())
        return t

    def _finish(self, t: SimThread) -> None:
        self.log("exit", t.name)
        t.done = True
        t.state = "done"
        for w in t.waiters:
            self.wake(w)
        t.waiters = []
        self.order.remove(t)
        self.by_ident.pop(t.ident, None)
        try:
            self._switch(t)
        except SimAbort:
            pass

    def join(self, t: SimThread, timeout: float | None = None) -> bool:
        cur = self.me()
        deadline = None if timeout is None else self.now_us / 1e6 + timeout
        while not t.done:
            t.waiters.append(cur)
            left = None if deadline is None else deadline - self.now_us / 1e6
            if not self.block(left):
                if cur in t.waiters:
                    t.waiters.remove(cur)
                return False
        return True


# ---- synchronisation primitives ------------------------------------------------------------------------------------


class SimLock:
    """Drop-in for `_thread.lock` whose blocking is decided by the scheduler."""

    def __init__(self):
        self._locked = False
        self._waiters: list[SimThread] = []

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        sim = ACTIVE
        cur = sim.me() if sim is not None else None
        if cur is None:
            # Outside the simulation there is only one thread left.
            if self._locked:
                return False
            self._locked = True
            return True
        sim.point("lock", log=False)
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else sim.now_us / 1e6 + timeout
        while self._locked:
            self._waiters.append(cur)
            left = None if deadline is None else max(0.0, deadline - sim.now_us / 1e6)
            ok = sim.block(left)
            if cur in self._waiters:
                self._waiters.remove(cur)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def release(self) -> None:
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = ACTIVE
        if sim is not None and self._waiters:
            for w in self._waiters:
                sim.wake(w)

    def locked(self) -> bool:
        return self._locked

    def _at_fork_reinit(self) -> None:
        self._locked = False
        self._waiters = []

    __enter__ = acquire

    def __exit__(self, *a) -> None:
        self.release()


def from_target() -> bool:
    """True if the primitive is being created by module-level code of the package under test, before any run starts."""
    f = sys._getframe(2)
    for _ in range(8):
        if f is None:
            return False
        name = f.f_globals.get("__name__", "")
        if name.startswith("importlib"):
            return False
        if name.startswith("conda_recipe_manager") or name in TARGET_SCRIPTS:
            return True
        f = f.f_back
    return False


TARGET_SCRIPTS = {"randomly_select_recipes", "parse_ci_output"}


def make_lock(*_a, **_k):
    if ACTIVE is not None or from_target():
        return SimLock()
    return _real_allocate()


def activate(sim: Sim | None) -> None:
    global ACTIVE
    ACTIVE = sim


def hard_exit(code: int = 0) -> None:
    sys.stdout.flush()
    os._exit(code)
