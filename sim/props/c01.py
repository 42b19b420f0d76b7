"""C01: crash anywhere, any number of times, re-run: same rows as without the crash."""
from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C01"
BUDGET = {"quick": (640, 75.0), "thorough": (20000, 3000.0)}
RULE = (
    "A history of 1-3 driver runs, each ended at a generated instant (kill of any process, torn write, "
    "power loss with only synced data surviving, interrupt), in generated execution modes, then one run left alone; "
    "compared with a serial run from scratch."
)


def gen(rng, i):
    sc = common.base(rng)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2]))
    sc["designs"] = [common.design(rng, sc, rng.choice([1, 2, 3]), real=0.06, big=0.04)]
    if rng.random() < 0.15:
        for b in sc["behave"].values():
            if rng.random() < 0.5:
                b["fail"] = common.failure(rng)
    if rng.random() < 0.1 and all(len(d) == 1 for d in sc["datasets"].values()):
        sc["designs"][0]["analysis"] = "single_pub"
    late = None
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = common.run_spec(rng, sc["cloud"])
        if rng.random() < 0.5 and not sc["cloud"]:
            r["mode"] = "serial"
        r["faults"] = [common.kill_fault(rng, r["mode"], sc["cloud"])]
        if not sc["cloud"] and rng.random() < 0.12:
            # in the middle of the last thing that a run writes
            r["mode"] = rng.choice(["beam_mem", "beam_threads", "beam_procs"])
            r["faults"] = [{
                "action": rng.choice(["torn_all", "torn_power"]), "op": "write", "cls": rng.choice(["temp", "temp", "output"]),
                "nth": 1, "keep": round(1 - rng.random() ** 3, 3),
            }]  # fmt: skip
            late = r["mode"]
            sc.pop("chunk", None)
        if rng.random() < 0.4:
            r["orphan"] = rng.choice([1, 2, 5])
        sc["runs"].append(r)
    last = common.run_spec(rng, sc["cloud"], mode=late if late and rng.random() < 0.8 else None)
    if rng.random() < 0.3:
        last["edits"] = [{"do": rng.choice(["drain", "reap"])}]
    if rng.random() < 0.2:
        last["gap"] = rng.choice([-4000.0, 0.0, 86400.0])
    sc["runs"].append(last)
    common.use_global(rng, sc)
    return sc


def judge(sc, out):
    exp = common.reference_rows(sc, 0, out)
    if exp is None:
        return
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the history does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        last = r is w.runs[-1]
        faulted = bool(r.spec.get("faults"))
        if last and not faulted and r.status != "ok":
            return out.fail(
                "resume-" + r.status, "the run left alone does not complete: %s %s" % (r.status, r.error)
            )
        if r.status == "ok":
            d = world.compare_rows(exp, world.parse_rows(r.out)[1])
            if d is not None:
                return out.fail("rows", "run %d: %s" % (r.index, d))
