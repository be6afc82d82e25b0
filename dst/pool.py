"""
Process-pool seam: `multiprocessing.Pool` becomes simulated worker "processes" (simulator threads with their own pid),
with a real pickle round trip of the callable, each argument tuple and each result, chunking like CPython's pool, and a
seeded assignment of chunks to workers.
"""

from __future__ import annotations

import pickle

from dst import core


class _RemoteError(Exception):
    pass


class SimAsyncResult:
    def __init__(self, pool):
        self.pool = pool
        self.done = False
        self.value = None
        self.ok = True

    def get(self, timeout=None):
        self.pool._drain()
        if self.ok:
            return self.value
        raise self.value

    def wait(self, timeout=None):
        self.pool._drain()

    def ready(self):
        return self.done

    def successful(self):
        return self.ok


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        sim = core.ACTIVE
        self.sim = sim
        self.n = processes if processes is not None else (sim.cpu_count or 1)
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.closed = False
        self.initializer = initializer
        self.initargs = initargs
        sim.log("pool", str(self.n))
        sim.probe("pool-created")

    # context manager: exit == terminate()
    def __enter__(self):
        if self.closed:
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()

    def terminate(self):
        self.closed = True

    def close(self):
        self.closed = True

    def join(self):
        pass

    def _run(self, func, tasks: list[tuple], chunksize=None, star=True):
        """:returns: list of (ok, value) per task; a failing task aborts the rest of its chunk, as in CPython."""
        sim = self.sim
        if self.closed:
            raise ValueError("Pool not running")
        if chunksize is None:
            chunksize, extra = divmod(len(tasks), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        blob_f = pickle.dumps(func)
        chunks = [list(range(i, min(i + chunksize, len(tasks)))) for i in range(0, len(tasks), chunksize)]
        blobs = [pickle.dumps([tasks[i] for i in ch]) for ch in chunks]
        results: list = [None] * len(tasks)
        first_error: list = []
        todo = list(range(len(chunks)))
        if not hasattr(sim, "pids"):
            sim.pids = {}

        def worker():
            me = sim.me()
            sim.pids[me.tid] = sim.pid + 1 + me.tid
            if self.initializer is not None:
                self.initializer(*self.initargs)
            while todo:
                sim.point("pool-take", log=False)
                if not todo:
                    break
                c = todo.pop(0)
                sim.log("pool-task", str(c))
                f = pickle.loads(blob_f)
                args = pickle.loads(blobs[c])
                for i, a in zip(chunks[c], args):
                    try:
                        r = f(*a) if star else f(a[0])
                        results[i] = (True, pickle.dumps(r))
                    except (core.SimCrash, core.SimAbort):
                        raise
                    except SystemExit:
                        # a worker that exits loses its task and a real pool waits for it forever
                        sim._dead("pool-hang", "a pool worker exited without delivering its result")
                    except BaseException as e:  # noqa: BLE001
                        if not isinstance(e, Exception):
                            raise
                        try:
                            results[i] = (False, pickle.loads(pickle.dumps(e)))
                        except Exception:  # noqa: BLE001
                            results[i] = (False, _RemoteError(repr(e)))
                        if not first_error:
                            first_error.append(results[i][1])
                        break

        width = min(self.n, len(chunks))
        ths = [sim.spawn(worker, name=f"P{k}") for k in range(width)]
        for t in ths:
            sim.join(t)
        out = []
        if first_error:
            raise first_error[0]
        for r in results:
            out.append(pickle.loads(r[1]))
        return out

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, [tuple(x) for x in iterable], chunksize)

    def map(self, func, iterable, chunksize=None):
        return self._run(func, [(x,) for x in iterable], chunksize, star=False)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, [(x,) for x in iterable], chunksize, star=False))

    def imap_unordered(self, func, iterable, chunksize=1):
        out = self._run(func, [(x,) for x in iterable], chunksize, star=False)
        self.sim.rng.shuffle(out)
        return iter(out)

    def apply(self, func, args=(), kwds=None):
        import functools

        return self._run(functools.partial(func, **(kwds or {})), [tuple(args)])[0]

    def _async(self, fn, callback, error_callback):
        r = SimAsyncResult(self)
        r.done = True
        try:
            r.value = fn()
            if callback:
                callback(r.value)
        except Exception as e:  # noqa: BLE001
            r.ok = False
            r.value = e
            if error_callback:
                error_callback(e)
        return r

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._async(lambda: self.apply(func, args, kwds), callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(func, iterable, chunksize), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(func, iterable, chunksize), callback, error_callback)

    def _drain(self):
        pass


class SimProcessPoolExecutor:
    """`concurrent.futures.ProcessPoolExecutor` on the same simulated workers (map/submit)."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **_k):
        self.pool = SimPool(max_workers or core.ACTIVE.cpu_count, initializer, initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.pool.terminate()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.pool.terminate()

    def submit(self, fn, /, *args, **kwargs):
        from concurrent.futures import Future

        f = Future()
        f.set_running_or_notify_cancel()
        try:
            f.set_result(self.pool.apply(fn, args, kwargs))
        except Exception as e:  # noqa: BLE001
            f.set_exception(e)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return iter(self.pool._run(fn, list(zip(*iterables)), chunksize))


def install() -> None:
    import concurrent.futures as cf
    import multiprocessing as mp
    import multiprocessing.context as ctx
    import multiprocessing.pool as mpp

    real_pool = mp.Pool

    def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if core.ACTIVE is None:
            return real_pool(processes, initializer, initargs, maxtasksperchild)
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    mp.Pool = Pool
    real_ctx_pool = ctx.BaseContext.Pool

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if core.ACTIVE is None:
            return real_ctx_pool(self, processes, initializer, initargs, maxtasksperchild)
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    ctx.BaseContext.Pool = ctx_pool
    real_cls = mpp.Pool

    class PoolMeta(type):
        def __instancecheck__(cls, inst):
            return isinstance(inst, (real_cls, SimPool))

    class PoolProxy(metaclass=PoolMeta):
        def __new__(cls, *a, **k):
            if core.ACTIVE is None:
                return real_cls(*a, **k)
            return SimPool(*a, **k)

    mpp.Pool = PoolProxy
    real_ppe = cf.ProcessPoolExecutor

    class PPE:
        def __new__(cls, *a, **k):
            if core.ACTIVE is None:
                return real_ppe(*a, **k)
            return SimProcessPoolExecutor(*a, **k)

    cf.ProcessPoolExecutor = PPE
