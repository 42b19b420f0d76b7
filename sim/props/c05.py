"""C05: the pending directory names what is executing, and nothing else."""
from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C05"
BUDGET = {"quick": (900, 65.0), "thorough": (30000, 2400.0)}
RULE = (
    "1-3 driver runs in generated modes and schedules, the earlier ones possibly killed, with failing models mixed in; "
    "the pending directory is inspected at every operation of a model and when a result starts to be stored, for every trial "
    "executing at that instant, and after every run that ends without error."
)

DS = ["dset-xa-01", "dset-xb-02", "dset-xc-03", "dset-xd-04"]


def gen(rng, i):
    sc = common.base(rng, cloud=rng.random() < 0.15)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2]), names=DS)
    sc["designs"] = [common.design(rng, sc, rng.choice([1, 2, 3, 4]), real=0.03, big=0.02)]
    for b in sc["behave"].values():
        if rng.random() < 0.25:
            b["fail"] = common.failure(rng)
    crashes = rng.choice([0, 0, 1, 1, 2])
    for k in range(crashes):
        r = common.run_spec(rng, sc["cloud"])
        if rng.random() < 0.5 and not sc["cloud"]:
            r["mode"] = "serial"
        f = common.kill_fault(rng, r["mode"], sc["cloud"])
        if rng.random() < 0.4:
            # between storing a result and removing the entry
            f["op"] = "gcs.delete" if sc["cloud"] else "unlink"
            f["cls"] = "pending"
            f["action"] = rng.choice(["kill_all", "kill_all", "power", "sigint", "kill_driver"])
            f["u"] = round(rng.random(), 4)
            f.pop("nth", None)
        r["faults"] = [f]
        sc["runs"].append(r)
    for k in range(rng.choice([1, 1, 2])):
        last = common.run_spec(rng, sc["cloud"])
        if k == 0 and crashes:
            last["edits"] = [{"do": rng.choice(["reap", "reap", "drain"])}]
        sc["runs"].append(last)
    for r in sc["runs"]:
        # work executed twice has two executions behind one entry
        for key in ("dup", "linger", "dup_merge"):
            r.get("beam", {}).pop(key, None)
    return sc


def judge(sc, out):
    rows = common.solo_rows(sc, 0, out)
    if rows is None:
        return
    keys, prints = [], {}
    for (ds, t, w), row in zip(world.solo(sc, 0), rows):
        k = (ds, row["trial"])
        keys.append(k)
        fp = w.runs[0].fits[0].fingerprint if w.runs[0].fits else None
        prints.setdefault(fp, set()).add(k)
    w = world.World(world.place_faults(sc))
    executing = {}  # task -> (key, run)
    last = {}  # task -> what it evaluated last

    def entry(files, k):
        for v in files.values():
            text = v.decode("utf-8", "replace")
            if k[0] in text and k[1] in text:
                return True
        return False

    def orphans(sim):
        now = w.runs[-1].index
        return [
            t for t in sim.tasks if t.state != "done" and not t.proc.dead and t.proc.run != now
        ]

    def check(sim, when):
        if orphans(sim):
            w.overlap.add(w.runs[-1].index)  # two executions may share one entry
        if w.runs[-1].index in w.overlap:
            return
        files = w.pending_now()
        for t, (k, run) in executing.items():
            if t.proc.dead or t.state == "done" or run != w.runs[-1].index:
                continue
            out.note("instants")
            if not entry(files, k):
                out.fail("no-entry", "%s is executing, but no pending entry names it (%s)" % (k, when))

    def on_fit(sim, ctx):
        ks = prints.get(ctx.fingerprint, ())
        executing.pop(sim.cur, None)
        old = last.pop(sim.cur, None)
        if old is not None and entry(w.pending_now(), old[0]):
            if w.runs[-1].index not in w.overlap and not any(o[0] == old[0] for o in executing.values()) and old[1] == ctx.run:
                out.fail("stale", "%s has been evaluated, but its pending entry is still there" % (old[0],))
        if len(ks) == 1:
            last[sim.cur] = executing[sim.cur] = (next(iter(ks)), ctx.run)
            out.note("concurrent_%d" % len([t for t in executing if t.state != "done" and not t.proc.dead]))
            check(sim, "at the start of its fit")

    def on_step(sim):
        if not executing or not sim.tail:
            return
        st, name, kind, path = sim.tail[-1]
        t = sim.cur
        if kind.startswith("model."):
            check(sim, kind)
        elif t in executing and kind in ("open_w", "gcs.upload", "rename", "replace"):
            if sim.classify(path) == "result":
                # the last instant at which the evaluation certainly still runs
                check(sim, "when its result is about to be stored")
                w.storing.append(t)
        elif t in executing and t in w.storing and sim.classify(path) in ("pending", "data", "temp", "output"):
            executing_done(t)

    def executing_done(t):
        executing.pop(t)
        w.storing.remove(t)

    w.storing = []
    w.overlap = set()
    w.on_fit = on_fit
    w.sim.on_step = on_step

    def on_run(sim, rec, what):
        if what == "start":
            executing.clear()
            last.clear()
            del w.storing[:]
            if orphans(sim):
                w.overlap.add(rec.index)

    w.on_run = on_run
    w.run()
    out.worlds.append(w)
    common.probes(w, out)
    if out.violation:
        return
    if w.sim.limit_hit:
        return out.fail("steps", "the history does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        if r.status != "ok":
            if not r.spec.get("faults"):
                return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
            continue
        if any(f.fired for f in r.faults) or r.index in w.overlap:
            continue
        for k in keys:
            if entry(r.pending_after, k):
                return out.fail(
                    "left", "run %d completed, but the pending directory still names %s" % (r.index, k)
                )
        out.note("clean_ends")
