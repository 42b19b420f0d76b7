"""A world in which scripted clients use the code under test directly.

A scenario's runs are phases; a phase has clients, each a simulated process with a
list of operations.  Processes live on from phase to phase until a phase ends them or
a fault kills them; a name used again then starts a new process.
"""
from . import core, world


class Rec:
    """One operation as it happened."""

    def __init__(self, phase, client, proc, op, begin):
        self.phase, self.client, self.proc, self.op, self.begin = phase, client, proc, op, begin
        self.end = None  # None: the process died in it
        self.last = None  # last moment at which it can have had an effect
        self.result = None
        self.exc = None
        self.faults = 0

    @property
    def ok(self):
        return self.end is not None and self.exc is None

    def __repr__(self):
        return "%s#%d %s -> %s" % (
            self.client,
            self.proc.id,
            self.op,
            "killed" if self.end is None else repr(self.exc) if self.exc else repr(self.result)[:80],
        )


class PhaseRec:
    def __init__(self, index, spec):
        self.index, self.spec = index, spec
        self.status, self.error, self.tb, self.out = None, None, None, None
        self.faults = []


class ScriptWorld(world.World):
    def __init__(self, scenario, handler, max_steps=200000):
        world.World.__init__(self, scenario, max_steps)
        self.handler = handler
        self.hist = []
        self.clients = {}
        self.seq = 0

    def tick(self):
        self.seq += 1
        return self.seq

    def _one(self, i, spec):
        sim = self.sim
        rec = PhaseRec(i, spec)
        self.runs.append(rec)
        sim.clock += spec.get("gap", 1.0)
        sim.faults = [core.Fault(f) for f in spec.get("faults", [])]
        rec.faults = sim.faults
        sim.preempt_p = spec.get("preempt", 0.0)
        sim.line_mean = spec.get("line", 0)
        tasks = []
        for c in spec["clients"]:
            name = c["proc"]
            p = self.clients.get(name)
            if p is None or p.dead:
                p = sim.new_proc("client", i, None, c.get("salt", 0), c.get("cwd", "/simfs"))
                p.objs = {}
                self.clients[name] = p
            p.run = i
            tasks.append(self._spawn(i, name, p, c["ops"]))
        st = sim.run_until(lambda: all(t.state == "done" for t in tasks))
        rec.status = st
        if st == "hang":
            sim.kill_tree(None, "operator")
        for t in tasks:
            if t.exc is not None:
                raise core.SimAbort("client failed: %s" % t.tb)
        now = self.tick()
        for h in self.hist:
            if h.last is None:
                h.last = now
        for name in spec.get("end", []):
            p = self.clients.get(name)
            if p is not None and not p.dead:
                sim.kill(p, "exit")
        sim.log("phase-end", st)

    def _spawn(self, i, name, proc, ops):
        sim = self.sim

        def body():
            t = sim.cur
            for op in ops:
                h = Rec(i, name, proc, op, self.tick())
                self.hist.append(h)
                sim.log("op", repr(op))
                hits = t.fault_hits
                try:
                    h.result = self.handler(self, proc, op)
                except Exception as e:
                    if proc.dead:
                        raise core.SimKilled()
                    h.exc = e
                finally:
                    h.faults = t.fault_hits - hits
                    if not proc.dead:
                        h.end = h.last = self.tick()
                sim.log("op-end", type(h.exc).__name__ if h.exc is not None else "ok")

        return sim.spawn(proc, body, name, trace_lines=bool(sim.line_mean))
