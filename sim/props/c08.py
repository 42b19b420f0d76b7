"""C08: all models are judged at the same test points."""
from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C08"
BUDGET = {"quick": (900, 70.0), "thorough": (30000, 3000.0)}
RULE = (
    "Designs whose trials share few test-point configurations while strategies, budgets, spend fractions and use of every "
    "random source differ, run in generated modes and schedules; the spend vectors at which every fitted model and the truth "
    "are queried are recorded and compared within each (data set, seed, test-point configuration)."
)


def gen(rng, i):
    sc = common.base(rng, cloud=rng.random() < 0.1)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2]))
    d = common.design(rng, sc, rng.choice([2, 3, 4, 5]), real=0.2, big=0.0)
    npub = [len(x) for x in sc["datasets"].values()]
    kinds = []
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        if r < 0.4:
            kinds.append(("latin_hypercube", {"npoints": rng.choice([100, 100, 120])}))
        elif r < 0.8:
            kinds.append(("uniformly_random", {"npoints": rng.choice([100, 100, 150])}))
        else:
            kinds.append(("grid", {"grid_size": rng.choice([1, 2, 3]) if max(npub) < 4 else 2}))
    if rng.random() < 0.5:
        # the same strategy with other options
        name, kw = rng.choice(kinds)
        k = next(iter(kw))
        kinds.append((name, {k: kw[k] + (1 if name == "grid" else rng.choice([1, 7, 30]))}))
    for c in d["trials"]:
        c["tp"], c["tpkw"] = rng.choice(kinds)
        c["tpkw"] = dict(c["tpkw"])
    for b in sc["behave"].values():
        if rng.random() < 0.7:
            b["rng"] = {
                "np": rng.choice([0, 1, 5, 40]),
                "py": rng.choice([0, 2, 9]),
                "gen": rng.choice([0, 1, 3, 10]),
            }
            if rng.random() < 0.4:
                b["rng"]["npseed"] = rng.randrange(10)
        if rng.random() < 0.1:
            b["fail"] = common.failure(rng)
    sc["designs"] = [d]
    r = common.run_spec(rng, sc["cloud"], line=0.8)
    if rng.random() < 0.3:
        r["faults"] = [common.kill_fault(rng, r["mode"], sc["cloud"])]
    sc["runs"].append(r)
    if r.get("faults") or rng.random() < 0.2:
        sc["runs"].append(common.run_spec(rng, sc["cloud"]))
    return sc


def judge(sc, out):
    solo = common.solo_rows(sc, 0, out)
    if solo is None:
        return
    prints = {}
    seed = sc["designs"][0]["seed"]
    fits = []
    for (ds, t, ws), row in zip(world.solo(sc, 0), solo):
        cfg = (ds, seed, t["tp"], repr(sorted(t["tpkw"].items())))
        for f in ws.runs[0].fits:
            prints.setdefault(f.fingerprint, set()).add(cfg)
            fits.append((cfg, f, "alone"))
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the history does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        if r.status != "ok" and not r.spec.get("faults"):
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
    whole = {r.index for r in w.runs if r.status == "ok" and not r.spec.get("faults")}
    for f in w.fits:
        c = prints.get(f.fingerprint, ())
        if len(c) == 1:
            fits.append((next(iter(c)), f, "run %d" % f.run))
    ref = {}
    count = {}
    for cfg, f, where in fits:
        if where == "alone" and f.points and not f.failed and f.end is not None:
            count.setdefault(cfg, len(f.points))
        for seq, what in ((f.points, "model"), (f.truth, "truth")):
            if not seq:
                continue
            for p in seq:
                if len(p) != len(f.max_spends) or any(
                    not (-1e-9 * m <= x <= m * (1 + 1e-9)) for x, m in zip(p, f.max_spends)
                ):
                    return out.fail(
                        "range",
                        "test point %s of %s lies outside the maximum spends %s" % (p, cfg, f.max_spends),
                    )
            if cfg not in ref or len(seq) > len(ref[cfg][0]):
                ref.setdefault(cfg, (seq, where))
    for cfg, f, where in fits:
        if cfg not in ref:
            continue
        full = f.points and not f.failed
        for seq, what in ((f.points, "model"), (f.truth, "truth")):
            if not seq:
                continue
            want, wref = ref[cfg]
            n = min(len(seq), len(want))
            if any(not same(a, b) for a, b in zip(seq[:n], want[:n])):
                i = next(i for i in range(n) if not same(seq[i], want[i]))
                return out.fail(
                    "points",
                    "%s: %s of %s (%s) is queried at %s as point %d, another one (%s) at %s"
                    % (cfg, what, f.fingerprint[0][:2], where, seq[i], i, wref, want[i]),
                )
            if full and f.end is not None and cfg in count and (where == "alone" or f.run in whole) and len(seq) != count[cfg]:
                return out.fail(
                    "count",
                    "%s: %s of %s (%s) is queried at %d points, alone at %d"
                    % (cfg, what, f.fingerprint[0][:2], where, len(seq), count[cfg]),
                )
            out.note("sequences")
        if full and f.truth and f.end is not None and len(f.points) != len(f.truth):
            if where == "alone":
                return out.fail(
                    "count",
                    "%s: the model is queried at %d points, the truth at %d"
                    % (cfg, len(f.points), len(f.truth)),
                )
    out.note("configurations", len(ref))


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(a, b))
