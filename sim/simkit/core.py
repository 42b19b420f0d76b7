"""The simulator core: simulated processes and tasks, one baton, one seed.

Every task is a real thread, but exactly one runs at a time and only the simulator
decides which: control changes hands at `point()` calls (every file, object-store and
queue operation and every call into the stand-ins) and, where a run asks for it, at
source lines of the code under test.  All decisions come from one seeded generator
and are recorded, so that a run is a pure function of (code, scenario).
"""
import errno
import hashlib
import random
import sys
import threading
import traceback

PKG = "wfa_planning_evaluation_framework"
# Modules that belong to a simulated process, besides the package under test.
PROC_MODULES = ("experiment_generator", "data_design_generator")

SIM = None  # the running simulation, if any
_ident = threading.get_ident


class SimKilled(BaseException):
    """Unwinds a task whose simulated process is dead."""


class SimAbort(Exception):
    """The harness itself cannot continue (never a property violation)."""


class StepLimit(Exception):
    pass


def current():
    """The simulation, if the calling thread is the task that holds the baton."""
    s = SIM
    if s is not None and s.cur is not None and s.cur.ident == _ident():
        return s
    return None


class Proc:
    """A simulated operating-system process."""

    def __init__(self, sim, role, run, parent=None, salt=0, cwd="/simfs"):
        self.sim = sim
        self.id = len(sim.procs)
        sim.procs.append(self)
        self.role = role
        self.run = run
        self.parent = parent
        self.salt = salt
        self.cwd = cwd
        self.pid = 4000 + (salt * 7919 + 131 * self.id) % 20000
        self.dead = False
        self.modules = {}
        self.started = sim.step
        self.np_state = None
        self.py_state = None
        self.gs_default = None
        self.urandom = random.Random("urandom:%s:%s" % (salt, self.id))
        self.fds = {}
        self.orphan_quota = None
        self.booted = False

    def __repr__(self):
        return "p%d(%s)" % (self.id, self.role)


class Task:
    def __init__(self, sim, proc, fn, name):
        self.sim, self.proc, self.fn, self.name = sim, proc, fn, name
        self.index = len(sim.tasks)
        sim.tasks.append(self)
        self.go = threading.Lock()
        self.go.acquire()
        self.state = "ready"
        self.cond = None
        self.result = None
        self.exc = None
        self.tb = None
        self.killed = False
        self.ctx = None  # trial being fitted, set by the recording strategies
        self.ident = None
        self.pending_exc = None
        self.trace_lines = False
        self.fault_hits = 0  # faults met by this task
        self.main = False  # main thread of a driver process
        self.no_switch = 0  # >0 while it holds an interpreter lock (importing)
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _main(self):
        self.ident = _ident()
        self.go.acquire()
        try:
            if self.proc.dead:
                raise SimKilled()
            if self.trace_lines:
                sys.settrace(self.sim._tracer)
            self.result = self.fn()
        except SimKilled:
            self.killed = True
        except BaseException as e:
            if self.proc.dead:
                self.killed = True
            else:
                self.exc = e
                self.tb = traceback.format_exc()
        sys.settrace(None)
        self.state = "done"
        self.fn = None
        self.sim.log("done", self.name)
        self.sim.back.release()


class Fault:
    """One injected fault: the nth operation that matches (op, cls, role), and the
    `count - 1` matching ones after it, meet `action`."""

    def __init__(self, spec):
        self.spec = spec
        self.op = spec.get("op", "*")
        self.cls = spec.get("cls", "*")
        self.role = spec.get("role", "*")
        self.nth = int(spec.get("nth", 1))
        self.count = int(spec.get("count", 1))
        self.action = spec["action"]
        self.seen = 0
        self.fired = 0

    def hit(self, kind, cls, role):
        if self.op != "*" and self.op != kind and kind not in self.op.split("|"):
            return False
        if self.cls != "*" and self.cls != cls and cls not in self.cls.split("|"):
            return False
        if self.role != "*" and self.role != role:
            return False
        self.seen += 1
        if self.seen < self.nth or self.fired >= self.count:
            return False
        self.fired += 1
        return True


ERRNOS = {
    "eio": errno.EIO,
    "enospc": errno.ENOSPC,
    "emfile": errno.EMFILE,
    "eacces": errno.EACCES,
    "erofs": errno.EROFS,
    "estale": errno.ESTALE,
    "edquot": errno.EDQUOT,
}


class Sim:
    def __init__(self, seed, classify=None, max_steps=400000):
        self.seed = seed
        self.rng = random.Random("sim:%s" % (seed,))
        self.step = 0
        self.lines = 0
        self.clock = 1.6e9
        self.clock_rate = 1.0
        self.procs = []
        self.tasks = []
        self.cur = None
        self.active_proc = None
        self.back = threading.Lock()
        self.back.acquire()
        self.max_steps = max_steps
        self.faults = []
        self.fired = {}
        self.classify = classify or (lambda p: "other")
        self.digest = hashlib.blake2b(digest_size=16)
        self.sched_digest = hashlib.blake2b(digest_size=8)
        self.tail = []
        self.opcount = {}
        self.switches = 0
        # schedule
        self.preempt_p = 0.0
        self.line_mean = 0
        self.line_next = None
        self.replay = None  # dict: key -> task index
        self.choices = []  # recorded [key, task index]
        self.limit_hit = False
        self.on_step = None
        self.vfs = None
        self.gcs = None
        self.hung = False

    # -- logging -------------------------------------------------------------
    def log(self, kind, what=""):
        t = self.cur
        self.digest.update(
            (
                "%d|%s|%s|%s\n" % (self.step, t.name if t else "-", kind, what)
            ).encode("utf-8", "surrogatepass")
        )
        self.tail.append((self.step, t.name if t else "-", kind, what))
        if len(self.tail) > 400:
            del self.tail[:200]

    # -- processes and tasks -------------------------------------------------
    def new_proc(self, role, run, parent=None, salt=0, cwd="/simfs"):
        return Proc(self, role, run, parent, salt, cwd)

    def spawn(self, proc, fn, name, trace_lines=False):
        t = Task(self, proc, fn, "%s#%d" % (name, len(self.tasks)))
        t.trace_lines = trace_lines
        while t.ident is None:  # wait for the thread to park; no decision is made here
            threading.Event().wait(0.0001)
        return t

    def _activate(self, proc):
        a = self.active_proc
        if a is proc:
            return
        import numpy as np
        from cloudpathlib import GSClient

        mods = sys.modules
        if a is not None:
            a.modules = {
                k: mods[k]
                for k in list(mods)
                if k == PKG or k.startswith(PKG + ".") or k in PROC_MODULES
            }
            a.np_state = np.random.get_state(legacy=False)
            a.py_state = random.getstate()
            a.gs_default = GSClient.__dict__.get("_default_client")
        for k in list(mods):
            if k == PKG or k.startswith(PKG + ".") or k in PROC_MODULES:
                del mods[k]
        self.active_proc = proc
        if proc is not None:
            mods.update(proc.modules)
            if proc.np_state is None:
                np.random.seed((proc.salt * 1000003 + proc.id * 97 + 5) % (2**32))
                random.seed("proc:%d:%d" % (proc.salt, proc.id))
            else:
                np.random.set_state(proc.np_state)
                random.setstate(proc.py_state)
            GSClient._default_client = proc.gs_default

    def runnable(self):
        out = []
        for t in self.tasks:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked" and (
                t.proc.dead or t.pending_exc is not None or t.cond()
            ):
                out.append(t)
        return out

    def _choose(self, key, options, default):
        """One scheduling decision, recorded when it differs from the default."""
        if len(options) == 1:
            return options[0]
        if self.replay is not None:
            want = self.replay.get(key)
            for t in options:
                if t.index == want:
                    return t
            return default
        t = options[self.rng.randrange(len(options))]
        if t is not default:
            self.choices.append([key, t.index])
        return t

    def _resume(self, t):
        t.state = "ready"
        t.cond = None
        self.cur = t
        self._activate(t.proc)
        self.sched_digest.update(b"%d:%d;" % (self.step, t.index))
        t.go.release()

    def run_until(self, cond):
        """Runs tasks until cond(); returns "ok", "hang" or "limit"."""
        while not cond():
            if self.limit_hit:
                return "limit"
            opts = self.runnable()
            if not opts:
                self.log("deadlock")
                return "hang"
            t = self._choose("B%d.%d" % (self.step, self.switches), opts, opts[0])
            self.switches += 1
            self._resume(t)
            self.back.acquire()
            self.cur = None
        return "ok"

    def shutdown(self):
        """Ends every task; nothing they do on the way out has an effect."""
        for p in self.procs:
            p.dead = True
        for _ in range(1000):
            live = [t for t in self.tasks if t.state != "done"]
            if not live:
                break
            for t in live:
                self._resume(t)
                self.back.acquire()
                self.cur = None
        else:
            raise SimAbort("tasks do not end: %s" % [t.name for t in live])
        self._activate(None)

    # -- called by tasks -----------------------------------------------------
    def _park(self, t):
        t.go.acquire()
        if t.proc.dead:
            raise SimKilled()
        if t.pending_exc is not None:
            e, t.pending_exc = t.pending_exc, None
            raise e

    def _switch(self, t, other):
        self.switches += 1
        t.state = "ready"
        self._resume(other)
        self._park(t)

    def block(self, cond, what=""):
        """Blocks the calling task until cond() holds."""
        t = self.cur
        if t.proc.dead:
            raise SimKilled()
        if t.pending_exc is not None:
            e, t.pending_exc = t.pending_exc, None
            raise e
        if cond():
            return
        t.state = "blocked"
        t.cond = cond
        self.log("block", what)
        self.back.release()
        self._park(t)

    def point(self, kind, path=""):
        """A place where the world may change: returns the action of a matching
        fault (for the caller to apply), or None."""
        t = self.cur
        if t.proc.dead:
            raise SimKilled()
        self.step += 1
        if self.step > self.max_steps:
            self.limit_hit = True
            self.kill_tree(None, "step limit")
            raise SimKilled()
        self.clock += 0.002 * self.clock_rate
        self.log(kind, path)
        cls = self.classify(path) if path else "none"
        key = (kind, cls)
        self.opcount[key] = self.opcount.get(key, 0) + 1
        action = None
        if self.faults:
            for f in self.faults:
                if f.hit(kind, cls, t.proc.role):
                    action = f.action
                    self.keep = f.spec.get("keep")
                    self.note_fault(action, kind, cls)
                    break
        if action is not None:
            if action == "kill":
                self.kill(t.proc, "kill")
                raise SimKilled()
            if action == "kill_driver":
                self.kill_driver(t.proc)
                if t.proc.dead:
                    raise SimKilled()
                action = None
            elif action == "kill_all":
                self.kill_tree(t.proc.run, "kill_all")
                raise SimKilled()
            elif action == "power":
                self.kill_tree(None, "power")
                self.vfs.power_loss(self.rng_for_fault())
                raise SimKilled()
            elif action == "sigint":
                # Ctrl-C: the main thread of the driver sees it, its children die
                self.log("sigint")
                action = None
                run = t.proc.run
                for p in self.procs:
                    if p.run == run and p.role == "worker":
                        self.kill(p, "sigint")
                for o in self.tasks:
                    if o.main and o.proc.run == run and o.state != "done" and o is not t:
                        o.pending_exc = KeyboardInterrupt()
                if t.main:
                    raise KeyboardInterrupt()
                if t.proc.dead:
                    raise SimKilled()
            elif action == "clock_back":
                self.clock -= 7200.0
                action = None
            elif action == "clock_fwd":
                self.clock += 86400.0 * 30
                action = None
        if self.on_step is not None:
            self.on_step(self)
        self.maybe_preempt(t)
        return action

    keep = None  # part of the data that a torn write leaves, if the fault says so

    def rng_for_fault(self):
        return random.Random("fault:%s:%d" % (self.seed, self.step))

    def note_fault(self, action, kind, cls):
        k = "%s@%s/%s" % (action, kind, cls)
        if self.cur is not None:
            self.cur.fault_hits += 1
        self.fired[k] = self.fired.get(k, 0) + 1
        self.log("FAULT", k)

    def maybe_preempt(self, t):
        if t.no_switch:
            return
        if self.replay is not None:
            want = self.replay.get("P%d" % self.step)
            if want is None or want == t.index:
                return
        elif not self.preempt_p or self.rng.random() >= self.preempt_p:
            return
        opts = [o for o in self.runnable() if o is not t]
        if not opts:
            return
        if self.replay is not None:
            other = next((o for o in opts if o.index == want), None)
            if other is None:
                return
        else:
            other = opts[self.rng.randrange(len(opts))]
            self.choices.append(["P%d" % self.step, other.index])
        self._switch(t, other)

    # -- line level ----------------------------------------------------------
    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC_PREFIX):
            return None
        # One closure per frame: a line counts when it differs from the last one seen
        # in that frame.  (How often a loop inside one line reports itself depends on
        # the interpreter's compiler, so that must not count.)
        last = [None]

        def line(frame, event, arg):
            if event == "line" and frame.f_lineno != last[0]:
                last[0] = frame.f_lineno
                self._line()
            return line

        return line

    def _line(self):
        self.lines += 1
        t = self.cur
        if t is None or t.ident != _ident() or t.proc.dead or t.no_switch:
            return
        if self.replay is not None:
            want = self.replay.get("L%d" % self.lines)
            if want is None:
                return
            opts = [o for o in self.runnable() if o is not t and o.index == want]
            if opts:
                self._switch(t, opts[0])
            return
        if self.line_next is None:
            self.line_next = self.lines + 1 + int(
                self.rng.expovariate(1.0 / self.line_mean)
            )
        if self.lines >= self.line_next:
            self.line_next = None
            opts = [o for o in self.runnable() if o is not t]
            if opts:
                other = opts[self.rng.randrange(len(opts))]
                self.choices.append(["L%d" % self.lines, other.index])
                self._switch(t, other)

    # -- death ---------------------------------------------------------------
    def kill(self, proc, why=""):
        if not proc.dead:
            proc.dead = True
            self.log("killed", repr(proc) + " " + why)

    def kill_driver(self, proc):
        """SIGKILL to the driver; its workers live on as orphans."""
        run = proc.run
        for p in self.procs:
            if p.run == run and p.role == "driver" and not p.dead:
                self.kill(p, "kill_driver")

    def kill_tree(self, run, why):
        for p in self.procs:
            if (run is None or p.run == run) and not p.dead:
                self.kill(p, why)


SRC_PREFIX = "/repo/src/"


class SimLock:
    """What threading.Lock and RLock are for the code under test."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = current()
        me = s.cur if s is not None else "outside"
        if self._owner is not None and self._owner is me and self._re:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if s is None:
                raise SimAbort("lock held by a simulated task")
            s.block(lambda: self._owner is None, "lock")
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._owner, self._count = None, 0

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # what threading.Condition needs of an RLock
    def _is_owned(self):
        s = current()
        return self._owner is not None and self._owner is (s.cur if s else "outside")

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st

    def __reduce__(self):
        raise TypeError("cannot pickle lock objects")


def raise_errno(action, path):
    e = ERRNOS[action]
    raise OSError(e, "injected: " + errno.errorcode[e], path)
