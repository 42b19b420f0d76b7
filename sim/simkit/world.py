"""One simulated world: storage, a history of driver runs over it, what was observed."""
import csv
import gc
import hashlib
import io
import os
import random
import sys

import numpy as np

from . import beamsim, core, fakes, gcs, vfs

HERE = os.path.dirname(os.path.abspath(__file__))
DESIGN_FILE = os.path.join(HERE, "design_file.py")

csv.field_size_limit(1 << 27)

BUCKET = "bkt"


def boot(proc):
    """First thing a simulated process does: import the code under test."""
    if proc.booted:
        return
    proc.booted = True
    if not proc.modules:
        import wfa_planning_evaluation_framework.driver.experiment_driver  # noqa: F401

        fakes.register()


def build_design(seed):
    """Descriptors of the design of the current run (called by the design file)."""
    from wfa_planning_evaluation_framework.driver.experiment_parameters import (
        ExperimentParameters,
    )
    from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import (
        ModelingStrategyDescriptor,
    )
    from wfa_planning_evaluation_framework.driver.trial_descriptor import (
        TrialDescriptor,
    )
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
        PrivacyBudget,
    )
    from wfa_planning_evaluation_framework.simulator.system_parameters import (
        LiquidLegionsParameters,
        SystemParameters,
    )

    sim = core.current()
    design = sim.world.design_of(sim.cur.proc.run)
    shared = np.random.default_rng(seed)
    out = []
    for c in design["trials"]:
        fr = c["fr"]
        kw = {}
        if isinstance(fr, dict):
            frac = fr["gen"]
            kw["campaign_spend_fractions_generator"] = (
                lambda ds, frac=frac: [frac] * ds.publisher_count
            )
            fr = [0]
        g = design.get("generator", "own")
        if g == "own":
            kw["generator"] = np.random.default_rng(seed)
        elif g == "shared":
            kw["generator"] = shared
        ll = c.get("ll", [12, 1000, 1])
        sp = SystemParameters(
            campaign_spend_fractions=list(fr),
            liquid_legions=LiquidLegionsParameters(*ll),
            **kw
        )
        ms = ModelingStrategyDescriptor(
            c.get("strategy", "fake"),
            dict(c.get("skw", {})),
            c.get("spm", "goerg"),
            dict(c.get("spkw", {})),
            c.get("mpm", "pairwise_union"),
            dict(c.get("mpkw", {})),
        )
        ep = ExperimentParameters(
            PrivacyBudget(c.get("eps", 1.0), c.get("delta", 1e-5)),
            c.get("rep", 1),
            c.get("mf", 3),
            c.get("tp", "grid"),
            dict(c.get("tpkw", {"grid_size": 2})),
        )
        out.append(TrialDescriptor(ms, sp, ep))
    return out


def classify(path):
    if path.startswith("gs://"):
        path = path[5:].split("/", 1)[1] if "/" in path[5:] else ""
        path = "/simfs/" + path
    if path.startswith("/simfs/w/"):
        p = path[9:]
        if p.startswith("data"):
            return "data"
        if p.startswith("inter"):
            return "temp" if "temp_result" in p else "result"
        if p.startswith("pending"):
            return "pending"
        if p.startswith("out"):
            return "output"
        if p.startswith("files"):
            return "file"
        return "other"
    if path.startswith("/simfs/tmp"):
        return "cache"
    return "other"


class RunRec:
    def __init__(self, index, spec):
        self.index, self.spec = index, spec
        self.status = None
        self.error = None
        self.tb = None
        self.out = None
        self.start = self.end = 0
        self.fits = []
        self.results_before = {}
        self.results_after = {}
        self.pending_after = {}


class World:
    """Runs a history of driver runs; the scenario decides everything."""

    def __init__(self, scenario, max_steps=400000, record_snapshots=True):
        self.sc = scenario
        self.cloud = bool(scenario.get("cloud"))
        self.fits = []
        self.on_fit = None
        self.on_run = None
        self.touched = set()
        self.sim = sim = core.Sim(scenario.get("seed", 0), classify, max_steps)
        sim.world = self
        sim.beam_cfg = {}
        sim.vfs = vfs.Vfs(sim, scenario.get("ls_salt", 0), scenario.get("chunk", 0))
        sim.gcs = gcs.Store(sim, scenario.get("skew", 0.0))
        sim.clock = 1.6e9 + scenario.get("clock0", 0)
        self.runs = []
        sch = scenario.get("schedule")
        if sch is not None:
            sim.replay = {k: v for k, v in sch}
        self.snapshots = record_snapshots
        self.base = ("gs://%s/w" % BUCKET) if self.cloud else "/simfs/w"
        self.root = (BUCKET + "/w") if self.cloud else "/simfs/w"
        for name, pubs in scenario.get("datasets", {}).items():
            for pn, log in pubs.items():
                self.put(
                    "data/%s/%s" % (name, pn),
                    "".join("%s,%s\n" % (i, s) for i, s in log).encode(),
                )
        if not self.cloud:
            sim.vfs.mkdirs("/simfs/w")

    # -- storage seen from outside
    def put(self, rel, data):
        if self.cloud:
            self.sim.gcs.put(BUCKET, "w/" + rel, data)
        else:
            self.sim.vfs.put("/simfs/w/" + rel, data)

    def files(self, rel):
        """{relative path: bytes} below rel."""
        if self.cloud:
            fs = self.sim.gcs.files(self.root + "/" + rel)
        else:
            fs = self.sim.vfs.files(self.root + "/" + rel)
        n = len(self.root) + 1
        return {k[n:]: v for k, v in fs.items()}

    def get(self, rel):
        if self.cloud:
            return self.sim.gcs.get(BUCKET, "w/" + rel)
        return self.sim.vfs.get("/simfs/w/" + rel)

    def watch(self, rel, cb):
        """cb(sim) whenever the content at rel may have changed."""
        if self.cloud:
            self.sim.gcs.watch[self.root + "/" + rel] = lambda sim, p: cb(sim)
        else:
            self.sim.vfs.watch[self.root + "/" + rel] = lambda sim, p, n: cb(sim)

    def watch_clear(self):
        self.sim.gcs.watch.clear()
        self.sim.vfs.watch.clear()

    def pending_now(self):
        return self.files("pending")

    def results_now(self):
        return {
            k: v for k, v in self.files("inter").items() if "temp_result" not in k
        }

    # -- scenario access
    def design_of(self, run):
        r = self.sc["runs"][run] if isinstance(run, int) else {}
        return self.sc["designs"][r.get("design", 0)]

    def behave(self, ident):
        b = self.sc.get("behave", {}).get(str(ident)) if ident is not None else None
        return b if b is not None else self.sc.get("default_behave", {})

    # -- running
    def argv(self, spec):
        d = self.sc["designs"][spec.get("design", 0)]
        mode = spec.get("mode", "serial")
        a = [
            "driver",
            "--data_design_dir=%s/data" % self.base,
            "--experimental_design=%s" % DESIGN_FILE,
            "--output_file=%s/%s" % (self.base, spec.get("out", "out.csv")),
            "--intermediates_dir=%s/inter" % self.base,
            "--seed=%d" % d.get("seed", 1),
        ]
        cores = spec.get("cores", 2)
        if mode == "pool":
            a.append("--cores=%d" % cores)
        elif mode.startswith("beam") or mode == "dataflow":
            a.append("--use_apache_beam")
            if mode == "dataflow":
                a.append("--runner=DataflowRunner")
            else:
                a.append("--runner=%s" % spec.get("runner", "direct"))
                a.append(
                    "--direct_running_mode="
                    + {
                        "beam_mem": "in_memory",
                        "beam_threads": "multi_threading",
                        "beam_procs": "multi_processing",
                    }[mode]
                )
                a.append("--cores=%d" % cores)
        elif self.cloud:
            a.append("--runner=DataflowRunner")
        if d.get("analysis"):
            a.append("--analysis_type=" + d["analysis"])
        return a

    def run(self):
        """Executes the whole history."""
        sim = self.sim
        if core.SIM is not None:
            raise core.SimAbort("nested simulation")
        core.SIM = sim
        gc.disable()
        t0 = sim.clock
        try:
            for i, spec in enumerate(self.sc["runs"]):
                self._one(i, spec)
        finally:
            try:
                sim.shutdown()
            finally:
                core.SIM = None
                gc.enable()
                self.sim_seconds = max(0.0, sim.clock - t0)
        return self

    def _one(self, i, spec):
        sim = self.sim
        rec = RunRec(i, spec)
        self.runs.append(rec)
        sim.clock += spec.get("gap", 60.0)
        sim.faults = [core.Fault(f) for f in spec.get("faults", [])]
        rec.faults = sim.faults
        sim.preempt_p = spec.get("preempt", 0.0)
        sim.line_mean = spec.get("line", 0)
        sim.beam_cfg = dict(spec.get("beam", {}))
        if spec.get("wipe_out", True):
            # a fresh output file per run, so that what is read is what it wrote
            if self.cloud:
                sim.gcs.delete(BUCKET, "w/" + spec.get("out", "out.csv"))
            else:
                sim.vfs.remove_tree("/simfs/w/" + spec.get("out", "out.csv"))
        for ed in spec.get("edits", []):
            self._edit(ed)
        sim.vfs.sync_all()
        sim.vfs.salt = self.sc.get("ls_salt", 0) + spec.get("salt", 0)
        rec.start = sim.step
        rec.results_before = self.results_now()
        nfits = len(self.fits)
        if self.on_run is not None:
            self.on_run(sim, rec, "start")
        proc = sim.new_proc("driver", i, None, spec.get("salt", 0), spec.get("cwd", "/simfs"))

        def main():
            boot(proc)
            ed = sys.modules[core.PKG + ".driver.experiment_driver"]
            ed.main(self.argv(spec))

        t = sim.spawn(proc, main, "driver")
        t.main = True
        st = sim.run_until(lambda: t.state == "done")
        if st == "limit":
            rec.status = "limit"
        elif st == "hang":
            rec.status = "hang"
            sim.kill_tree(None, "operator")
        elif t.killed or proc.dead:
            rec.status = "killed"
        elif t.exc is not None:
            rec.status = "error"
            rec.error = t.exc
            rec.tb = t.tb
        else:
            rec.status = "ok"
        rec.end = sim.step
        if rec.status in ("ok", "error"):
            # daemonic workers end with the driver; Dataflow's linger
            for p in sim.procs:
                if p.run == i and p.role == "worker" and spec.get("mode") != "dataflow":
                    sim.kill(p, "exit")
            sim.kill(proc, "exit")
        elif rec.status == "killed":
            for p in sim.procs:
                if p.run == i and p.role == "worker" and not p.dead:
                    p.orphan_quota = spec.get("orphan", 0)
        rec.out = self.get(spec.get("out", "out.csv"))
        rec.results_after = self.results_now()
        rec.pending_after = self.pending_now()
        rec.fits = [f for f in self.fits[nfits:] if f.run == i]
        sim.log("run-end", rec.status)
        if self.on_run is not None:
            self.on_run(sim, rec, "end")

    def _edit(self, ed):
        """What an operator does between runs."""
        if ed["do"] == "drain":
            # orphans get time to finish
            self.sim.run_until(
                lambda: not [
                    t for t in self.sim.tasks if t.state != "done" and not t.proc.dead
                ]
            )
        elif ed["do"] == "reap":
            self.sim.kill_tree(None, "reap")


# -- rows -------------------------------------------------------------------------
def parse_rows(data):
    """CSV bytes -> (columns, [canonical row dict])."""
    if data is None:
        return None, None
    text = data.decode("utf-8", "surrogateescape").replace("\0", "\ufffd")
    rd = csv.reader(io.StringIO(text, newline=""))
    rows = list(rd)
    if not rows:
        return [], []
    cols = rows[0]
    out = []
    for r in rows[1:]:
        if len(r) != len(cols):
            out.append({"__malformed__": repr(r)[:300]})
        else:
            out.append({k: canon(k, v) for k, v in zip(cols, r)})
    return cols, out


def canon(col, v):
    if col == "model_exception":
        lines = [x for x in v.replace("\r", "\n").split("\n") if x.strip()]
        v = lines[-1].strip() if lines else ""
        return None if v.lower() in ("", "nan", "none") else v
    if col in ("dataset", "trial"):
        return v
    s = v.strip()
    if s == "" or s.lower() == "nan":
        return None
    try:
        return float(s)
    except ValueError:
        return s


def same_value(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float):
        if a == b:
            return True
        return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300
    return a == b


def same_row(a, b, skip=()):
    if set(a) != set(b):
        return False
    return all(k in skip or same_value(a[k], b[k]) for k in a)


def diff_rows(a, b, n=4):
    d = []
    for k in list(a) + [k for k in b if k not in a]:
        if k not in a or k not in b:
            d.append("%s only in %s" % (k, "expected" if k in a else "actual"))
        elif not same_value(a[k], b[k]):
            d.append("%s: expected %r, got %r" % (k, a[k], b[k]))
    return "; ".join(d[:n])


def key_of(row):
    return (row.get("dataset"), row.get("trial"))


def compare_rows(expected, actual, ordered=False):
    """None, or a description of the first difference; order-free, exactly once."""
    if actual is None:
        return "no output was written"
    bad = [r for r in actual if "__malformed__" in r]
    if bad:
        return "malformed row %s" % bad[0]["__malformed__"]
    left = list(actual)
    for e in expected:
        hit = None
        for i, a in enumerate(left):
            if same_row(e, a):
                hit = i
                break
        if hit is None:
            cand = [a for a in left if str(key_of(a)) == str(key_of(e))]
            if cand:
                return "row %s differs: %s" % (key_of(e), diff_rows(e, cand[0]))
            return "row %s is missing (%d rows expected, %d reported)" % (
                key_of(e),
                len(expected),
                len(actual),
            )
        del left[hit]
    if left:
        return "unexpected row %s (%d rows expected, %d reported)" % (
            key_of(left[0]),
            len(expected),
            len(actual),
        )
    return None


# -- references -----------------------------------------------------------------
_ref_cache = {}


def _ref_key(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()


def reference(sc, design_index, cloud=None):
    """Rows, columns and result files of an undisturbed serial run from scratch."""
    d = sc["designs"][design_index]
    c = sc.get("cloud", False) if cloud is None else cloud
    key = _ref_key("whole", sc["datasets"], d, sc.get("behave"), sc.get("default_behave"), c)
    if key not in _ref_cache:
        w = World(
            dict(
                datasets=sc["datasets"],
                designs=[d],
                behave=sc.get("behave", {}),
                default_behave=sc.get("default_behave", {}),
                cloud=c,
                seed=0,
                runs=[{"mode": "serial"}],
            )
        ).run()
        _ref_cache[key] = w
        if len(_ref_cache) > 300:
            _ref_cache.pop(next(iter(_ref_cache)))
    return _ref_cache[key]


def place_faults(sc):
    """Turns the relative positions of faults ("u", between 0 and 1) into counts of
    matching operations, as an undisturbed serial run of the same design performs them."""
    for r in sc["runs"]:
        for f in r.get("faults", []):
            if "nth" in f:
                continue
            u = f.pop("u", 0.0)
            ref = reference(sc, r.get("design", 0))
            n = 0
            probe = core.Fault(dict(f, nth=1, count=0))
            for (kind, cls), k in ref.sim.opcount.items():
                seen = probe.seen
                probe.hit(kind, cls, probe.role if probe.role != "*" else "driver")
                if probe.seen > seen:
                    n += k
            f["nth"] = 1 + int(u * max(n, 3))
    return sc


def solo(sc, design_index):
    """For every (data set, trial): a run of that trial alone in a fresh process over
    a data design that holds that data set alone."""
    d = sc["designs"][design_index]
    out = []
    for ds in sorted(sc["datasets"]):
        for t in d["trials"]:
            sub = dict(
                datasets={ds: sc["datasets"][ds]},
                designs=[dict(d, trials=[t])],
                behave=sc.get("behave", {}),
                default_behave=sc.get("default_behave", {}),
                cloud=sc.get("cloud", False),
            )
            out.append((ds, t, reference(sub, 0)))
    return out
