"""C07: the reported privacy use is the noise released to that trial's model."""
from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C07"
BUDGET = {"quick": (900, 70.0), "thorough": (30000, 3000.0)}
RULE = (
    "A design whose models request generated sequences of measurements (combined reach, Venn diagram, confined to sampling "
    "buckets) and may fail between them, run in a generated mode and schedule; the privacy columns of every row are compared "
    "with the budgets of the requests that returned to that trial's model and with the noise drawn in the sketch library."
)
MECH = {"reach": "Discrete Gaussian", "venn": "Discrete Laplace"}
MECHS = ["Laplace", "Discrete Laplace", "Gaussian", "Discrete Gaussian"]


def gen(rng, i):
    sc = common.base(rng, cloud=rng.random() < 0.12)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2]), size=(5, 24))
    sc["designs"] = [common.design(rng, sc, rng.choice([1, 2, 3, 4]), real=0.15, big=0.02)]
    maxp = max(len(d) for d in sc["datasets"].values())
    for b in sc["behave"].values():
        ms = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
            m = {"part": rng.choice([0.03125, 0.0625, 0.125, 0.25]), "split": rng.choice([0.5, 0.5, 0.25, 0.75, 0.875])}
            if maxp <= 3 and rng.random() < 0.35:
                m["venn"] = True
            else:
                m["mf"] = rng.choice([1, 1, 2, 5])
            if rng.random() < 0.3:
                m["only"] = rng.randrange(3)
            ms.append(m)
        b["measures"] = ms
        if rng.random() < 0.35:
            b["events"] = [
                {
                    "eps": rng.randrange(1, 64) / 64.0,
                    "delta": rng.randrange(0, 64) / 2.0**20,
                    "lo": rng.randrange(16) / 16.0,
                    "rate": rng.choice([rng.randrange(0, 17) / 16.0, 1.0, 0.5]),
                    "mech": rng.choice(MECHS),
                }
                for _ in range(rng.choice([1, 2, 3, 5, 8]))
            ]
        if rng.random() < 0.35:
            b["fail"] = common.failure(rng)
            if rng.random() < 0.6:
                b["fail"]["where"] = "fit"
                b["fail"]["n"] = rng.choice([0, 1, 2, 3, "end"])
                b["fail"].pop("how", None)
    r = common.run_spec(rng, sc["cloud"], line=0.8)
    for key in ("linger",):
        r.get("beam", {}).pop(key, None)
    if rng.random() < 0.2:
        r["faults"] = [
            {
                "op": rng.choice(["lib.noiser", "lib.estimate", "lib.estimated"]),
                "action": "raise:" + rng.choice(["ValueError", "MemoryError", "RuntimeError"]),
                "nth": rng.choice([1, 2, 3, 5, 9, 17]),
            }
        ]
        r.get("beam", {}).pop("dup", None)
    sc["runs"].append(r)
    if rng.random() < 0.2:
        sc["runs"].append(common.run_spec(rng, sc["cloud"]))
    return sc


def expected(ctx):
    """(low, high) of epsilon and delta, mechanisms: from what the model saw."""
    eps = sum(m[0] for m in ctx.measures)
    dlt = sum(m[1] for m in ctx.measures)
    mech = {MECH[m[2]] for m in ctx.measures}
    be = bd = 0.0
    if ctx.extra:
        # the user (a point of [0, 1)) that is in most buckets, by brute force
        cuts = sorted({0.0} | {e["lo"] % 1 for e in ctx.extra} | {(e["lo"] + e["rate"]) % 1 for e in ctx.extra})
        mids = [(a + b) / 2 for a, b in zip(cuts, cuts[1:] + [1.0])]
        for x in mids:
            inside = [e for e in ctx.extra if (x - e["lo"]) % 1 < e["rate"]]
            be = max(be, sum(e["eps"] for e in inside))
            bd = max(bd, sum(e["delta"] for e in inside))
        mech |= {e["mech"] for e in ctx.extra}
    over_e = sum(m[0] for m in ctx.measure_failed)
    over_d = sum(m[1] for m in ctx.measure_failed)
    return (eps + be, eps + be + over_e), (dlt + bd, dlt + bd + over_d), mech


def near(x, lo, hi):
    tol = 1e-9 * max(abs(lo), abs(hi)) + 1e-15
    return lo - tol <= x <= hi + tol


def judge(sc, out):
    solo = common.solo_rows(sc, 0, out)
    if solo is None:
        return
    prints = {}
    for (ds, t, ws), row in zip(world.solo(sc, 0), solo):
        f = ws.runs[0].fits
        if len(f) != 1:
            return out.fail("fits", "a single trial is fitted %d times" % len(f))
        prints.setdefault(f[0].fingerprint, set()).add((ds, row["trial"]))
        bad = check(row, f[0])
        if bad:
            return out.fail("account", "%s alone: %s" % (world.key_of(row), bad))
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the run does not end within %d operations" % w.sim.max_steps)
    fits = {}
    for f in w.fits:
        ks = prints.get(f.fingerprint, ())
        if len(ks) == 1:
            fits.setdefault(next(iter(ks)), []).append(f)
    for r in w.runs:
        if r.status != "ok":
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
        cols, rows = world.parse_rows(r.out)
        for row in rows:
            k = world.key_of(row)
            if k not in fits:
                continue
            # work executed twice gives two accounts of which one is reported
            bads = [check(row, f) for f in fits[k]]
            if all(bads):
                return out.fail("account", "run %d, %s: %s" % (r.index, k, bads[0]))
            out.note("accounts")
            if fits[k][0].measure_failed:
                out.note("accounts_with_failed_request")
            if fits[k][0].extra:
                out.note("accounts_with_buckets")


def check(row, f):
    (el, eh), (dl, dh), mech = expected(f)
    ue = row.get("privacy_used_epsilon") or 0.0
    ud = row.get("privacy_used_delta") or 0.0
    if not isinstance(ue, float) or not isinstance(ud, float):
        return "used budget is %r, %r" % (ue, ud)
    if not near(ue, el, eh):
        return "used epsilon is reported as %r, released to the model: %r" % (ue, el)
    if not near(ud, dl, dh):
        return "used delta is reported as %r, released to the model: %r" % (ud, dl)
    if not f.measure_failed:
        e = sum(m[0] for m in f.measures)
        if not near(f.noise, e, e):
            return "noise of epsilon %r was drawn for requests of %r" % (f.noise, e)
    got = set((row.get("privacy_mechanisms") or "").split("/")) - {""}
    if got != mech and not (f.measure_failed and got >= mech):
        return "mechanisms are reported as %s, used: %s" % (sorted(got), sorted(mech))
    b = (row.get("privacy_budget_epsilon"), row.get("privacy_budget_delta"))
    if not (world.same_value(b[0], f.budget[0] * 1.0) and world.same_value(b[1], f.budget[1] * 1.0)):
        return "the budget is reported as %s, given: %s" % (b, f.budget)
    if getattr(f, "supplied", False):
        if ue > f.budget[0] * (1 + 1e-9) or ud > f.budget[1] * (1 + 1e-9):
            return "the supplied strategy used (%r, %r) of (%r, %r)" % (ue, ud, f.budget[0], f.budget[1])
    return None
