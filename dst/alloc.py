"""
Failing allocations (and interrupts) at an arbitrary executed line of the package: the seam is the interpreter's own trace
function, switched on only for the thread and the stretch of execution the plan names.
"""

from __future__ import annotations

import sys

from dst import core

EXC = {"alloc": MemoryError, "intr-line": KeyboardInterrupt}


class Trap:
    """Raises at the `nth` line executed in files of the package whose path ends with one of `files`."""

    def __init__(self, sim, nth: int, kind: str = "alloc", files: tuple[str, ...] = (".py",), package: str = "/conda_recipe_manager/"):
        self.sim, self.left, self.kind, self.files, self.package = sim, nth, kind, tuple(files), package
        self.where: str | None = None
        self.lines = 0
        self.tid = None

    @property
    def fired(self) -> bool:
        return self.where is not None

    def arm(self) -> None:
        self.tid = self.sim.me().tid
        sys.settrace(self._trace)

    def disarm(self) -> None:
        sys.settrace(None)

    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self._local if self.package in f and f.endswith(self.files) else None

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.lines += 1
            self.left -= 1
            if self.left <= 0:
                self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                self.sim.fault(self.kind)
                self.sim.log("fault", f"{self.kind} in {frame.f_code.co_name}")
                sys.settrace(None)
                raise EXC[self.kind](f"injected in {frame.f_code.co_name}")
        return self._local
