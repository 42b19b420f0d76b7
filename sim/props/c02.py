"""C02: rows do not depend on how a design is executed."""
from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C02"
BUDGET = {"quick": (600, 70.0), "thorough": (20000, 3000.0)}
RULE = (
    "One design executed from scratch in a generated execution mode (serial, pool, in-memory, threads, processes, "
    "Dataflow with re-executed bundles) under a generated schedule and bundling; every row compared with the row of that "
    "trial evaluated alone in a fresh process, exactly once each."
)


def gen(rng, i):
    sc = common.base(rng)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2, 3]))
    sc["designs"] = [common.design(rng, sc, rng.choice([2, 2, 3, 4]), real=0.12, big=0.06)]
    if i % 100 in (7, 57) or rng.random() < 0.01:
        # very many small trials
        sc["cloud"] = False
        sc["datasets"] = common.datasets(rng, 1, pubs=1, size=(4, 6))
        sc["behave"] = {}
        sc["designs"] = [common.design(rng, sc, 66 if i % 100 in (7, 57) else rng.choice([20, 35, 45]), real=0, big=0)]
        r = common.run_spec(rng, False, line=0.0, mode={7: "pool", 57: rng.choice(["beam_procs", "beam_threads"])}.get(i % 100))
        sc["runs"].append(r)
        return sc
    trials = sc["designs"][0]["trials"]
    if rng.random() < 0.25:
        # the same trial twice in the design
        trials.insert(rng.randrange(len(trials) + 1), dict(rng.choice(trials)))
    if rng.random() < 0.4:
        # a trial that differs from another one in a single parameter
        trials.insert(rng.randrange(len(trials) + 1), common.variant(rng, rng.choice(trials)))
    if rng.random() < 0.15:
        for b in sc["behave"].values():
            if rng.random() < 0.4:
                b["fail"] = common.failure(rng)
    if rng.random() < 0.1 and all(len(d) == 1 for d in sc["datasets"].values()):
        sc["designs"][0]["analysis"] = "single_pub"
    r = common.run_spec(rng, sc["cloud"], line=0.8)
    if rng.random() < 0.3:
        sc["clock0"] = rng.randrange(10**8)
    sc["runs"].append(r)
    if rng.random() < 0.25:
        # the same again over the results just stored, in another mode
        sc["runs"].append(common.run_spec(rng, sc["cloud"]))
    common.use_global(rng, sc)
    return sc


def judge(sc, out):
    exp = common.solo_rows(sc, 0, out)
    if exp is None:
        return
    exp = common.dedup(exp)
    if len(exp) != len(common.expected_keys(sc, 0)):
        return out.fail("keys", "distinct trials are reported under one name")
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the run does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        if r.status != "ok":
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
        cols, rows = world.parse_rows(r.out)
        d = world.compare_rows(exp, rows)
        if d is not None:
            return out.fail("rows", "run %d (%s): %s" % (r.index, r.spec["mode"], d))
        if cols and len(set(cols)) != len(cols):
            return out.fail("columns", "a column is reported twice: %s" % cols)
        out.note("rows_compared", len(rows))
