"""Ambient nondeterminism of the interpreter, put under the simulator's control."""
import builtins
import importlib.abc
import importlib.machinery
import os
import random
import sys
import time
import types

from . import core, gcs, vfs

SRC = os.environ.get("VERIF_SRC", "/repo/src")

_real = {}


# -- the package under test, imported afresh by every simulated process ---------
class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        sim = core.current()
        t = sim.cur if sim is not None else None
        if t is not None:
            t.no_switch += 1
        try:
            self._exec(module)
        finally:
            if t is not None:
                t.no_switch -= 1

    def _exec(self, module):
        exec(_code(self.path), module.__dict__)


_codes = {}


def _code(path):
    c = _codes.get(path)
    if c is None:
        with vfs._real.get("open", open)(path, "rb") as f:
            c = _codes[path] = compile(f.read(), path, "exec", dont_inherit=True)
    return c


_finder_cache = {}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != core.PKG and not name.startswith(core.PKG + "."):
            return None
        hit = _finder_cache.get(name)
        if hit is None:
            rel = name.split(".")[1:]
            base = os.path.join(SRC, *rel)
            stat = vfs._real.get("os.stat", os.stat)

            def isfile(p):
                try:
                    stat(p)
                    return True
                except OSError:
                    return False

            if isfile(os.path.join(base, "__init__.py")):
                hit = (os.path.join(base, "__init__.py"), base)
            elif isfile(base + ".py"):
                hit = (base + ".py", None)
            else:
                hit = (None, None)
            _finder_cache[name] = hit
        fname, pkgdir = hit
        if fname is None:
            return None
        spec = importlib.machinery.ModuleSpec(
            name, _Loader(fname), origin=fname, is_package=pkgdir is not None
        )
        if pkgdir is not None:
            spec.submodule_search_locations = [pkgdir]
        spec.has_location = True
        return spec


# -- clock, identity, randomness ----------------------------------------------
def _time():
    s = core.current()
    return s.clock if s is not None else _real["time"]()


def _time_ns():
    s = core.current()
    return int(s.clock * 1e9) if s is not None else _real["time_ns"]()


def _monotonic():
    s = core.current()
    return s.step * 0.002 if s is not None else _real["monotonic"]()


def _sleep(d):
    s = core.current()
    if s is None:
        return _real["sleep"](d)
    s.clock += max(0.0, float(d))
    s.point("sleep")


def _getpid():
    s = core.current()
    return s.cur.proc.pid if s is not None else _real["getpid"]()


def _urandom(n):
    s = core.current()
    if s is None:
        return _real["urandom"](n)
    r = s.cur.proc.urandom
    return bytes(r.getrandbits(8) for _ in range(n))


_FIXED_HASH = (int, float, bool, type(None), complex)


def _hash(x):
    s = core.current()
    if s is None or isinstance(x, _FIXED_HASH):
        return _real["hash"](x)
    f = sys._getframe(1)
    if f.f_code.co_filename.startswith(core.SRC_PREFIX) and isinstance(
        x, (str, bytes, tuple, frozenset)
    ):
        # What hash randomisation does to str and bytes, and objects made of them.
        return _real["hash"]((s.cur.proc.salt, repr(x)))
    return _real["hash"](x)


def _in_package():
    """Whether the code under test is what asks (through the threading module)."""
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        name = f.f_code.co_filename
        if name.startswith(core.SRC_PREFIX):
            return True
        if not name.endswith(("threading.py", "queue.py")):
            return False
        f = f.f_back
    return False


def _Lock():
    if core.current() is not None and _in_package():
        return core.SimLock()
    return _real["Lock"]()


def _RLock(*a, **k):
    if core.current() is not None and _in_package():
        return core.SimLock(True)
    return _real["RLock"](*a, **k)


class _Tqdm:
    def __init__(self, iterable=None, *a, **k):
        self._it = iterable

    def __iter__(self):
        return iter(self._it)

    def update(self, n=1):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def install():
    if _real:
        return
    import numpy as np

    core.SRC_PREFIX = SRC.rstrip("/") + "/"
    vfs.install()
    gcs.install()
    _real.update(
        time=time.time,
        time_ns=time.time_ns,
        monotonic=time.monotonic,
        sleep=time.sleep,
        getpid=os.getpid,
        urandom=os.urandom,
        hash=builtins.hash,
    )
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.perf_counter = _monotonic
    time.sleep = _sleep
    os.getpid = _getpid
    os.urandom = _urandom
    random._urandom = _urandom
    builtins.hash = _hash

    import threading

    _real.update(Lock=threading.Lock, RLock=threading.RLock)
    threading.Lock = _Lock
    threading.RLock = _RLock

    # Unseeded generators take their entropy from the simulated process.
    real_default_rng = np.random.default_rng

    def default_rng(seed=None):
        s = core.current()
        if seed is None and s is not None:
            seed = s.cur.proc.urandom.getrandbits(64)
        return real_default_rng(seed)

    np.random.default_rng = default_rng

    real_seed = np.random.seed

    def seed(seed=None):
        s = core.current()
        if seed is None and s is not None:
            seed = s.cur.proc.urandom.getrandbits(32)
        return real_seed(seed)

    np.random.seed = seed
    RS = np.random.RandomState

    class RandomState(RS):
        def __init__(self, seed=None):
            s = core.current()
            if seed is None and s is not None:
                seed = s.cur.proc.urandom.getrandbits(32)
            RS.__init__(self, seed)

    RandomState.__name__ = RandomState.__qualname__ = "RandomState"
    RandomState.__module__ = RS.__module__
    np.random.RandomState = RandomState

    real_rseed = random.Random.seed

    def rseed(self, a=None, version=2):
        s = core.current()
        if a is None and s is not None:
            a = s.cur.proc.urandom.getrandbits(128)
        return real_rseed(self, a, version)

    random.Random.seed = rseed

    t = types.ModuleType("tqdm")
    t.tqdm = _Tqdm
    t.trange = lambda *a, **k: _Tqdm(range(*a))
    sys.modules["tqdm"] = t
    auto = types.ModuleType("tqdm.auto")
    auto.tqdm = _Tqdm
    sys.modules["tqdm.auto"] = auto

    from . import poolsim

    poolsim.install()
    sys.meta_path.insert(0, _Finder())
