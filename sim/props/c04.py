"""C04: storage faults end a run with an error or leave its output right."""
from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C04"
BUDGET = {"quick": (900, 70.0), "thorough": (30000, 3000.0)}
RULE = (
    "1-2 driver runs, each meeting 1-3 generated storage faults (I/O errors, full disk, short writes, refused, "
    "rate-limited and lost object-store requests; single, repeated or lasting), over an empty or partly filled "
    "intermediates directory, then one run without faults; every run that reports success is compared with a fault-free run."
)


def gen(rng, i):
    sc = common.base(rng, cloud=rng.random() < 0.3)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2, 3]))
    sc["designs"] = [common.design(rng, sc, rng.choice([1, 2, 3]), real=0.05, big=0.03)]
    if rng.random() < 0.15:
        for b in sc["behave"].values():
            if rng.random() < 0.4:
                b["fail"] = common.failure(rng)
    if rng.random() < 0.25:
        # something to read back
        r = common.run_spec(rng, sc["cloud"])
        if rng.random() < 0.7:
            r["faults"] = [common.kill_fault(rng, r["mode"], sc["cloud"])]
        sc["runs"].append(r)
    for _ in range(rng.choice([1, 1, 2])):
        r = common.run_spec(rng, sc["cloud"])
        if rng.random() < 0.4 and not sc["cloud"]:
            r["mode"] = "serial"
        r["faults"] = [common.io_fault(rng, sc["cloud"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        r["io"] = True
        sc["runs"].append(r)
    sc["runs"].append(common.run_spec(rng, sc["cloud"]))
    return sc


def judge(sc, out):
    exp = common.reference_rows(sc, 0, out)
    if exp is None:
        return
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the history does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        if r.status == "ok":
            d = world.compare_rows(exp, world.parse_rows(r.out)[1])
            if d is not None:
                fired = [f.spec for f in r.faults if f.fired]
                return out.fail(
                    "rows", "run %d reports success, but %s (faults met: %s)" % (r.index, d, fired)
                )
            if r.spec.get("io") and any(f.fired for f in r.faults):
                out.note("faulted_but_right")
        elif r.spec.get("io"):
            if r.status == "hang":
                return out.fail("hang", "run %d neither fails nor completes" % r.index)
            if r.status == "error" and not any(f.fired for f in r.faults):
                return out.fail("error", "run %d fails without a fault: %s" % (r.index, r.error))
            out.note("faulted_and_loud")
        elif not r.spec.get("faults"):
            return out.fail(
                "after-" + r.status,
                "after the faults stopped, run %d: %s %s" % (r.index, r.status, r.error),
            )
