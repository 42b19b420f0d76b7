"""C13: a row compares its own model with the truth of its own data set."""
import math

from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C13"
BUDGET = {"quick": (700, 70.0), "thorough": (20000, 3000.0)}
RULE = (
    "Designs of synthetic and supplied strategies over generated impression logs, run in generated modes, schedules and crash "
    "histories; every reported row is recomputed by a reference model from the impressions in storage, the recorded "
    "predictions of the trial's model at the recorded test points, and the documented definitions of the statistics."
)


def gen(rng, i):
    sc = common.base(rng)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2, 3]), size=(2, 18))
    for ds in sc["datasets"].values():
        for log in ds.values():
            k = rng.random()
            if k < 0.25:
                # all at one price, or several impressions at every price
                v = rng.choice([0.5, 1.0, 2.5])
                for x in log:
                    x[1] = round(v * (1 + int(x[1] / v)), 4)
            elif k < 0.4:
                for x in log:
                    x[0] = x[0] % rng.choice([1, 2, 4])
            elif k < 0.5:
                for x in log:
                    x[0] = x[0] * 1000003 + 7
                    x[1] = x[1] * 1.1
    names = sorted(sc["datasets"])
    if len(names) > 1 and rng.random() < 0.5:
        # publishers of the same name and the same largest spend in several data sets
        a, b = rng.sample(names, 2)
        pubs = sorted(set(sc["datasets"][a]) & set(sc["datasets"][b]))
        if len(sc["datasets"][a]) == len(sc["datasets"][b]) == len(pubs):
            pubs.pop(rng.randrange(len(pubs)))
        for p in rng.sample(pubs, rng.randint(1, len(pubs)) if pubs else 0):
            x, y = sc["datasets"][a][p], sc["datasets"][b][p]
            m = max(max(v[1] for v in x), max(v[1] for v in y))
            for log in (x, y):
                j = max(range(len(log)), key=lambda q: log[q][1])
                log[j][1] = m
    often = rng.random() < 0.12
    if often:
        # one or two users, shown very many impressions
        one = rng.random() < 0.5
        for ds in sc["datasets"].values():
            u = rng.choice([1, 1, 2])
            while one and len(ds) > 1:
                del ds[sorted(ds)[-1]]
            for log in ds.values():
                top, n = max(x[1] for x in log), rng.randint(26, 44)
                log[:] = [[rng.randrange(u), round(top * (j + 1) / n, 4) if j < n - 1 else top] for j in range(n)]
    if len({tuple(max(x[1] for x in l) for l in d.values()) for d in sc["datasets"].values()}) < len(sc["datasets"]):
        # data sets are told apart by their largest spends
        k = sorted(sc["datasets"])[0]
        sc["datasets"] = {k: sc["datasets"][k]}
    d = common.design(rng, sc, rng.choice([1, 2, 3, 4]), real=0.12, big=0.0 if often else 0.1)
    for c in d["trials"]:
        if c.get("strategy") is None and rng.random() < 0.6:
            c["mf"] = rng.choice([1, 2, 5, 6, 7, 9, 10, 12])
        if often and c.get("strategy") is None:
            c["mf"], c["tpkw"] = rng.choice([9, 10, 12, 15]), {"grid_size": 1}
        elif c["tp"] == "grid" and rng.random() < 0.3:
            c["tpkw"] = {"grid_size": rng.choice([1, 2, 4])}
        if rng.random() < 0.5:
            c["rep"] = rng.randrange(1, 9)
        if c.get("strategy") is None and rng.random() < 0.3:
            c["mpm"] = rng.choice(["pairwise_union", "restricted_pairwise_union"])
    if rng.random() < 0.15:
        for b in sc["behave"].values():
            if rng.random() < 0.3:
                b["fail"] = common.failure(rng)
    if rng.random() < (0.7 if often else 0.25) and all(len(x) == 1 for x in sc["datasets"].values()):
        d["analysis"] = "single_pub"
    sc["designs"] = [d]
    r = common.run_spec(rng, sc["cloud"], line=0.8)
    if rng.random() < 0.35:
        r["faults"] = [common.kill_fault(rng, r["mode"], sc["cloud"])]
    sc["runs"].append(r)
    if r.get("faults") or rng.random() < 0.3:
        sc["runs"].append(common.run_spec(rng, sc["cloud"]))
    return sc


# -- the reference model -------------------------------------------------------------
def logs(sc, ds):
    return [sc["datasets"][ds][p] for p in sorted(sc["datasets"][ds])]


def true_kplus(ls, spends, mf):
    counts = {}
    for log, s in zip(ls, spends):
        for uid, price in log:
            if price <= s:
                counts[uid] = counts.get(uid, 0) + 1
    return [sum(1 for c in counts.values() if c >= k) for k in range(1, mf + 1)]


def describe(sc, ds, t):
    """Columns that follow from the configuration and the data set alone."""
    ls = logs(sc, ds)
    ll = t.get("ll", [12, 1000, 1])
    fr = [t["fr"]["gen"]] if isinstance(t["fr"], dict) else t["fr"]
    return {
        "dataset": ds,
        "replica_id": float(t.get("rep", 1)),
        "single_pub_model": t.get("spm", "goerg"),
        "multi_pub_model": t.get("mpm", "pairwise_union"),
        "strategy": t.get("strategy", "fake"),
        "liquid_legions_sketch_size": float(ll[1]),
        "liquid_legions_decay_rate": float(ll[0]),
        "maximum_reach": float(len({u for l in ls for u, _ in l})),
        "ncampaigns": float(len(ls)),
        "largest_pub_reach": float(max(len({u for u, _ in l}) for l in ls)),
        "max_frequency": float(t.get("mf", 3)),
        "average_spend_fraction": sum(fr) / len(fr),
        "privacy_budget_epsilon": float(t.get("eps", 1.0)),
        "privacy_budget_delta": float(t.get("delta", 1e-5)),
    }


def statistics(truth, model):
    """Definitions of the error statistics; absent: not judged (a true reach is zero)."""
    n = len(truth)
    x = [float(p[0]) for p in truth]
    y = [p[0] for p in model]
    e = [a - b for a, b in zip(x, y)]
    mean = lambda v: math.fsum(v) / len(v)
    var = lambda v: mean([(a - mean(v)) ** 2 for a in v])
    out = {
        "npoints": float(n),
        "mean_error": mean(e),
        "mean_abs_error": mean([abs(a) for a in e]),
        "mean_squared_error": mean([a * a for a in e]),
        "var_error": var(e),
    }
    if all(x):
        rel = [abs(a) / b for a, b in zip(e, x)]
        out["mean_abs_relative_error"] = mean(rel)
        out["mean_squared_relative_error"] = mean([a * a for a in rel])
        out["var_relative_error"] = var([a / b for a, b in zip(e, x)])
        s = sorted(rel)
        for q in range(10, 100, 10):
            h = (n - 1) * q / 100
            lo = int(math.floor(h))
            hi = min(lo + 1, n - 1)
            out["relative_error_q%d" % q] = s[lo] + (h - lo) * (s[hi] - s[lo])
    for k in range(2, 10):
        name = "mare_freq_at_least_%d" % k
        if any(len(p) < k for p in truth) or any(len(p) < k for p in model):
            out[name] = None
        elif all(p[k - 1] for p in truth):
            out[name] = mean([abs(p[k - 1] - q[k - 1]) / p[k - 1] for p, q in zip(truth, model)])
    sd = []
    for p, q in zip(truth, model):
        if len(p) <= 5 or len(q) <= 5:
            sd.append(1.0)
            continue
        f = [p[i] - p[i + 1] for i in range(5)]
        g = [q[i] - q[i + 1] for i in range(5)]
        if sum(f) == 0 or sum(g) == 0:
            sd.append(0.5)
        else:
            sd.append(0.5 * sum(abs(a / sum(f) - b / sum(g)) for a, b in zip(f, g)))
    out["mean_shuffle_distance"] = mean(sd)
    out["mean_squared_shuffle_distance"] = mean([a * a for a in sd])
    out["var_shuffle_distance"] = var(sd)
    return out


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    if not isinstance(a, float) or not isinstance(b, float):
        return a == b
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-9


def check(sc, ds, t, row, f, out):
    """None, or what is wrong with a row whose model was fitted as recorded in f."""
    for k, v in describe(sc, ds, t).items():
        if not close(v, row.get(k)):
            return "%s is reported as %r, it is %r" % (k, row.get(k), v)
    failed = f is not None and (f.failed or f.measure_failed)
    if f is None or failed or row.get("model_succeeded") != 1.0:
        if f is not None and not failed and row.get("model_succeeded") != 1.0 and not getattr(f, "supplied", 0):
            return "a model that did not fail is reported as failed: %s" % row.get("model_exception")
        if failed and row.get("model_succeeded") != 0.0:
            return "a model that failed is reported as successful"
        out.note("descriptions")
        return None
    ls = logs(sc, ds)
    mf = t.get("mf", 3)
    n = row.get("npoints")
    if not isinstance(n, float) or n != int(n) or n < 1 or n > len(f.values):
        return "%r test points are reported, the model was asked at %d" % (n, len(f.values))
    n = int(n)
    if t["tp"] == "grid":
        g = t["tpkw"]["grid_size"]
        if n != g ** len(ls):
            return "%d test points on a grid of %d and %d publishers" % (n, g, len(ls))
        maxs = [max(p for _, p in l) for l in ls]
        want = [[m * i / (g + 1) for i in range(1, g + 1)] for m in maxs]
        got = [sorted({round(v[0][j], 9) for v in f.values[:n]}) for j in range(len(ls))]
        for a, b in zip(want, got):
            if len(a) != len(b) or any(abs(p - q) > 1e-6 for p, q in zip(a, b)):
                return "grid coordinates %s instead of %s" % (b[:5], a[:5])
        if len({v[0] for v in f.values[:n]}) != n:
            return "a grid point is used twice"
    elif n < t["tpkw"]["npoints"]:
        return "%d test points, %d were asked for" % (n, t["tpkw"]["npoints"])
    truth = [true_kplus(ls, s, mf) for s, _ in f.values[:n]]
    model = [v for _, v in f.values[:n]]
    if any(x != x for v in model for x in v):
        out.note("rows_of_models_that_predict_nan")
        return None
    for k, v in statistics(truth, model).items():
        if not close(v, row.get(k)):
            return "%s is reported as %r, by its definition it is %r" % (k, row.get(k), v)
    out.note("rows_recomputed")
    if sc["designs"][0].get("analysis") == "single_pub":
        fr = t["fr"]["gen"] if isinstance(t["fr"], dict) else t["fr"][0]
        c = fr * max(p for _, p in ls[0])
        for k in range(mf):
            for j in range(10, 301, 10):
                name = ("freq_%d_" % k if k else "") + "relative_error_at_%03d" % j
                if name not in row:
                    return "there is no column %s" % name
                s, v = c * j / 100, row[name]
                if any(abs(p - s) < 1e-9 for _, p in ls[0]):
                    continue  # at a price: decided by the last bit
                tr = true_kplus(ls, [s], max(k, 1))[-1]
                cand = [m[max(k, 1) - 1] for x, m in f.values[n:] if abs(x[0] - s) < 1e-9 and len(m) >= k]
                if v is None and not tr:
                    continue
                if not any(tr and v is not None and close(abs(tr - m) / tr, v) for m in cand):
                    return "%s is reported as %r; true reach %d, predicted %s" % (name, v, tr, cand[:2])
        out.note("single_publisher_rows")
        if not any(abs(p - c) < 1e-9 for _, p in ls[0]):
            kp = true_kplus(ls, [c], mf)
            m = max([i + 1 for i, x in enumerate(kp) if x], default=0)
            if not close(float(m), row.get("max_nonzero_frequency_from_data")):
                return "max_nonzero_frequency_from_data is reported as %r, it is %d" % (
                    row.get("max_nonzero_frequency_from_data"), m)  # fmt: skip
        m = max([i + 1 for i, x in enumerate(f.data0 or []) if x], default=0)
        if f.data0 is not None and not close(float(m), row.get("max_nonzero_frequency_from_halo")):
            return "max_nonzero_frequency_from_halo is reported as %r, it is %d" % (
                row.get("max_nonzero_frequency_from_halo"), m)  # fmt: skip
    return None


def judge(sc, out):
    exp = common.solo_rows(sc, 0, out)
    if exp is None:
        return
    names, prints = {}, {}
    for (ds, t, ws), row in zip(world.solo(sc, 0), exp):
        fits = ws.runs[0].fits
        f = fits[0] if len(fits) == 1 else None
        bad = check(sc, ds, t, row, f, out)
        if bad:
            return out.fail("row", "%s alone: %s" % (world.key_of(row), bad))
        if f is not None:
            prints.setdefault(f.fingerprint, set()).add(world.key_of(row))
        names[world.key_of(row)] = (ds, t)
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the run does not end within %d operations" % w.sim.max_steps)
    fits = {}
    for f in w.fits:
        ks = prints.get(f.fingerprint, ())
        if len(ks) == 1:
            fits.setdefault(next(iter(ks)), []).append(f)
    for r in w.runs:
        if r.spec.get("faults"):
            continue
        if r.status != "ok":
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
        cols, rows = world.parse_rows(r.out)
        for row in rows:
            k = world.key_of(row)
            if k not in names:
                return out.fail("row", "run %d reports %s, which is not in the design" % (r.index, k))
            ds, t = names[k]
            # fits that were interrupted, or repeated by the runner, do not count
            bads = [check(sc, ds, t, row, f, out) for f in fits.get(k, [None])]
            if all(bads):
                return out.fail("row", "run %d, %s: %s" % (r.index, k, bads[-1]))
