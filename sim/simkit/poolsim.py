"""pathos.multiprocessing on simulated processes."""
import sys
import types

import dill

from . import core

CPU_COUNT = 3


def cpu_count():
    return CPU_COUNT


class _Shared:
    """State of one pool: lives outside any one process, like the pipes do."""

    def __init__(self, sim, n):
        self.sim = sim
        self.queue = []  # [job id, pickled function, pickled args]
        self.results = {}  # job -> ("ok"|"err", pickled)
        self.order = []
        self.closed = False
        self.n = n
        self.jobs = 0


class ProcessPool:
    def __init__(self, *args, **kwargs):
        n = kwargs.get("nodes", kwargs.get("ncpus"))
        for a in args:
            if isinstance(a, int):
                n = a
        self.sim = core.current()
        if self.sim is None:
            raise core.SimAbort("process pool outside a simulated task")
        self.ncpus = self.nodes = n or cpu_count()
        self.driver = self.sim.cur.proc
        self.sh = _Shared(self.sim, self.nodes)
        self.sim.point("pool.fork")
        for i in range(self.nodes):
            _start_worker(self.sim, self.sh, self.driver)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __reduce__(self):
        raise TypeError("pool objects cannot be passed between processes")

    # -- submission
    def _submit(self, f, iterables):
        ids = []
        pf = dill.dumps(f)
        for args in zip(*iterables):
            self.sh.jobs += 1
            self.sh.queue.append((self.sh.jobs, pf, dill.dumps(args)))
            ids.append(self.sh.jobs)
        self.sim.point("pool.submit")
        return ids

    def _take(self, job):
        st, payload = self.sh.results.pop(job)
        value = dill.loads(payload)
        if st == "err":
            raise value
        return value

    def imap(self, f, *its, **k):
        ids = self._submit(f, its)

        def gen():
            for j in ids:
                self.sim.block(lambda: j in self.sh.results, "imap")
                yield self._take(j)

        return gen()

    def uimap(self, f, *its, **k):
        ids = self._submit(f, its)
        left = set(ids)

        def ready():
            return any(j in left for j in self.sh.order)

        def gen():
            while left:
                self.sim.block(ready, "uimap")
                j = next(j for j in self.sh.order if j in left)
                self.sh.order.remove(j)
                left.discard(j)
                yield self._take(j)

        return gen()

    def map(self, f, *its, **k):
        ids = self._submit(f, its)
        self.sim.block(lambda: all(j in self.sh.results for j in ids), "map")
        return [self._take(j) for j in ids]

    def amap(self, f, *its, **k):
        ids = self._submit(f, its)
        pool = self

        class Result:
            def ready(self):
                return all(j in pool.sh.results for j in ids)

            def wait(self, timeout=None):
                pool.sim.block(self.ready, "amap")

            def get(self, timeout=None):
                self.wait()
                return [pool._take(j) for j in ids]

        return Result()

    def pipe(self, f, *args, **k):
        return self.map(f, *[[a] for a in args])[0]

    def apipe(self, f, *args, **k):
        r = self.amap(f, *[[a] for a in args])
        get = r.get
        r.get = lambda timeout=None: get()[0]
        return r

    # -- life cycle
    def close(self):
        self.sh.closed = True

    def join(self):
        self.sim.block(lambda: not self.sh.queue, "join")

    def terminate(self):
        self.sh.closed = True
        for p in self.sim.procs:
            if p.parent is self.driver:
                self.sim.kill(p, "terminate")

    def clear(self):
        self.terminate()

    def restart(self, force=False):
        self.sh.closed = False
        for i in range(self.nodes):
            _start_worker(self.sim, self.sh, self.driver)


def _start_worker(sim, sh, driver):
    w = sim.new_proc("worker", driver.run, driver, driver.salt + 1, driver.cwd)
    # fork: the child starts with its parent's generators
    import numpy as np
    import random

    if sim.active_proc is driver:
        w.np_state = np.random.get_state(legacy=False)
        w.py_state = random.getstate()
    sim.spawn(w, lambda: _worker(sim, sh, w, driver), "worker")
    return w


def _worker(sim, sh, w, driver):
    from . import world

    world.boot(w)

    def ready():
        if driver.dead:
            return True
        return bool(sh.queue) or sh.closed

    while True:
        sim.block(ready, "queue")
        if driver.dead:
            # Orphan: goes on with what the pipe still holds, then waits forever.
            if not w.orphan_quota or not sh.queue:
                return
            w.orphan_quota -= 1
        if not sh.queue:
            return
        job, pf, pargs = sh.queue.pop(0)
        sim.log("job", str(job))
        try:
            try:
                f = dill.loads(pf)
                value = ("ok", dill.dumps(f(*dill.loads(pargs))))
            except core.SimKilled:
                raise
            except Exception as e:
                try:
                    p = dill.dumps(e)
                    dill.loads(p)
                except core.SimKilled:
                    raise
                except Exception:
                    p = dill.dumps(RuntimeError(repr(e)))
                value = ("err", p)
        except core.SimKilled:
            # The job dies with its worker; the pool replaces the worker.
            if not driver.dead:
                _start_worker(sim, sh, driver)
            raise
        sim.point("pool.result")
        sh.results[job] = value
        sh.order.append(job)


def install():
    m = types.ModuleType("pathos.multiprocessing")
    m.ProcessPool = ProcessPool
    m.ProcessingPool = ProcessPool
    m.Pool = m._ProcessPool = ProcessPool
    m.cpu_count = cpu_count
    pk = types.ModuleType("pathos")
    pk.multiprocessing = m
    pk.__path__ = []
    pools = types.ModuleType("pathos.pools")
    pools.ProcessPool = ProcessPool
    pk.pools = pools
    sys.modules["pathos"] = pk
    sys.modules["pathos.multiprocessing"] = m
    sys.modules["pathos.pools"] = pools
