"""C14: measurements are well-formed for every outcome of the noise."""
import math

from simkit import world

from . import common, c13
from .common import REAL, STUB, ASSUME, shape  # noqa: F401

ID = "C14"
BUDGET = {"quick": (1500, 70.0), "thorough": (60000, 3000.0)}
RULE = (
    "Strategies that request reach and Venn diagram measurements at generated spends while the noise drawn for them is "
    "injected (none, as drawn, huge of either sign, any sequence), run in generated modes and schedules; every measurement "
    "handed to a model is recomputed from the impressions in storage, the sketch parameters and the noise, or, for Venn "
    "diagrams, checked for consistency."
)


def noise(rng):
    r = rng.random()
    if r < 0.25:
        return [0]
    if r < 0.4:
        return None
    if r < 0.55:
        return [rng.choice([-1000000, -1000, -20, -5])]
    if r < 0.65:
        return [rng.choice([5, 20, 1000, 1000000])]
    return [rng.choice([0, 0, 1, -1, 2, -2, 5, -5, 30, -30, -1000, 1000, None]) for _ in range(rng.randint(1, 7))]


def gen(rng, i):
    sc = common.base(rng, cloud=rng.random() < 0.08)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 1, 2]), size=(2, 22))
    d = common.design(rng, sc, rng.choice([1, 2, 3]), real=0.0, big=0.0)
    for c in d["trials"]:
        c["tp"], c["tpkw"] = "grid", {"grid_size": 1}
        c["ll"] = rng.choice([[12, 5000, 1], [12, 100000, 1], [12, 5000, 7], [4, 3, 1], [12, 60, 1], [3, 11, 2], [1, 40, 3]])
    for b in sc["behave"].values():
        b["measures"] = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            m = {"part": 0.125, "split": rng.choice([0.5, 0.5, 0.25, 0.9])}
            if rng.random() < 0.3:
                m["venn"] = True
            else:
                m["mf"] = rng.choice([1, 2, 3, 5, 10])
            if rng.random() < 0.5:
                m["spends"] = [rng.choice([0.0, 0.1, 0.33, 0.5, 0.77, 1.0, 1.5]) for _ in range(3)]
            elif rng.random() < 0.3:
                m["only"] = rng.randrange(3)
            if rng.random() < 0.3:
                # just before and just after an impression
                ds = sc["datasets"][rng.choice(sorted(sc["datasets"]))]
                e = rng.choice([1e-2, 1e-3, 1e-4, 1e-5]) * rng.choice([1, -1])
                at = [rng.choice(sorted(x for _, x in ds[k])[: 1 + len(ds[k]) // 2]) / max(x for _, x in ds[k]) for k in sorted(ds)]
                q = dict(m, spends=[x * (1 - e) for x in at])
                m["spends"] = [x * (1 + e) for x in at]
                m.pop("only", None)
                q.pop("only", None)
                b["measures"].append(q)
            b["measures"].append(m)
        b["noise"] = noise(rng)
    sc["designs"] = [d]
    sc["runs"].append(common.run_spec(rng, sc["cloud"], line=0.8))
    return sc


def shrink(sc):
    import copy

    for k, b in sc["behave"].items():
        for j in range(len(b.get("measures", []))):
            if len(b["measures"]) > 1:
                s = copy.deepcopy(sc)
                s.pop("schedule", None)
                s["behave"][k]["measures"].pop(j)
                yield s
        if b.get("noise") and len(b["noise"]) > 1:
            s = copy.deepcopy(sc)
            s.pop("schedule", None)
            s["behave"][k]["noise"] = b["noise"][: len(b["noise"]) // 2]
            yield s
    for s in common.shrink(sc):
        yield s


def fractions_of(t, n):
    return [t["fr"]["gen"]] * n if isinstance(t["fr"], dict) else t["fr"]


def estimate(ls, t, spends, mf, draws):
    """The estimate that the sketches of these impressions give under this noise."""
    from wfa_cardinality_estimation_evaluation_framework import hooks
    from wfa_cardinality_estimation_evaluation_framework.estimators import same_key_aggregator as ska

    ll = t.get("ll", [12, 1000, 1])
    sk = None
    for log, s, fr in zip(ls, spends, fractions_of(t, len(ls))):
        cap = fr * max(p for _, p in log)
        one = ska.ExponentialSameKeyAggregator(int(ll[1]), ll[0], ll[2])
        one.add_ids([u for u, p in log if p <= min(s, cap)])
        sk = one if sk is None else ska.StandardizedHistogramEstimator.merge_two_sketches(sk, one)
    left = list(draws)
    saved = (hooks.on_noise, hooks.on_measure, hooks.on_draw, hooks.on_call)
    hooks.on_noise = hooks.on_measure = hooks.on_call = None
    hooks.on_draw = lambda v, x=None: left.pop(0)
    try:
        est = ska.StandardizedHistogramEstimator(max_freq=mf, reach_epsilon=1.0, frequency_epsilon=1.0)
        return est.estimate_cardinality(sk), not left
    except IndexError:
        return None, False
    finally:
        hooks.on_noise, hooks.on_measure, hooks.on_draw, hooks.on_call = saved


def edge(ls, t, spends):
    """True if a price and a spend are equal up to rounding."""
    for log, s, fr in zip(ls, spends, fractions_of(t, len(ls))):
        cap = fr * max(p for _, p in log)
        for _, p in log:
            if (p != s and abs(p - s) < 1e-9) or (p != cap and abs(p - cap) < 1e-9):
                return True
    return False


def check(sc, ds, t, f, out):
    ls = c13.logs(sc, ds)
    for name, args, kwargs, draws, points, noised in f.requests:
        spends = [float(x) for x in (args[0] if args else kwargs["spends"])]
        impressions = [float(sum(1 for _, p in log if p <= s)) for log, s in zip(ls, spends)]
        if any(not math.isfinite(x) for p in points for x in p[1]):
            return "a measurement at %s is not a number: %s" % (spends, points)
        if any(x < 0 for p in points for x in p[1]):
            return "a measurement at %s is negative: %s" % (spends, points)
        if name == "simulated_reach_by_spend":
            ((imps, kp, sp),) = points
            mf = args[3] if len(args) > 3 else kwargs.get("max_frequency", 1)
            if len(kp) != mf:
                return "%d frequencies were asked for, %d are reported" % (mf, len(kp))
            if any(a < b for a, b in zip(kp, kp[1:])):
                return "more people are reached more often: %s" % kp
            if sp != spends:
                return "the spends are reported as %s, asked for: %s" % (sp, spends)
            if imps != impressions:
                return "the impressions at %s are reported as %s, they are %s" % (spends, imps, impressions)
            if kp[0] > max(sum(imps) - 1, 1):
                return "%g people are reached by %d impressions" % (kp[0], sum(imps))
            out.note("measurements")
            if edge(ls, t, spends):
                continue
            est, used = estimate(ls, t, spends, mf, draws)
            if not used:
                continue  # another number of draws
            want, low = [], float("inf")
            for x in est:
                low = min(low, max(round(x), 0))
                want.append(float(low))
            if sum(imps) <= want[0]:
                want = [max(sum(imps) - 1, 1.0)] + [0.0] * (mf - 1)
            if any(abs(a - b) > 1e-6 for a, b in zip(want, kp)):
                return "measured at %s: %s, from the impressions and the noise %s: %s" % (spends, kp, draws[:4], want)
            out.note("measurements_recomputed")
        else:
            act = [i for i, s in enumerate(spends) if s]
            seen = {}
            for imps, kp, sp in points:
                sub = frozenset(i for i in act if sp[i])
                if not sub or sub in seen:
                    return "two Venn diagram points, or an empty one, for publishers %s" % sorted(sub)
                if any(a != (s if i in sub else 0.0) for i, (a, s) in enumerate(zip(sp, spends))):
                    return "the spends of a Venn diagram point are %s, asked for: %s" % (sp, spends)
                if any(a != (s if i in sub else 0.0) for i, (a, s) in enumerate(zip(imps, impressions))):
                    return "the impressions of a Venn diagram point are %s, of %s" % (imps, impressions)
                if len(kp) != 1:
                    return "a Venn diagram point with %d frequencies" % len(kp)
                seen[sub] = kp[0]
            if len(seen) != 2 ** len(act) - 1:
                return "%d Venn diagram points for %d publishers" % (len(seen), len(act))
            for a, x in seen.items():
                for b, y in seen.items():
                    if a < b and x > y + 1e-6:
                        return "publishers %s reach %g people, %s together %g" % (sorted(a), x, sorted(b), y)
                    if not a & b and seen[a | b] > x + y + 1e-6:
                        return "publishers %s and %s reach %g and %g people, together %g" % (
                            sorted(a), sorted(b), x, y, seen[a | b])  # fmt: skip
            users = [{u for u, p in log if p <= s} for log, s in zip(ls, spends)]
            if act and noised and None not in noised:
                # all active publishers together reach the noisy estimate of the cardinality
                whole = seen[frozenset(act)]
                if not any(abs(max(0.0, x + n) - whole) < 1e-6 for x, n in zip(noised, draws)):
                    return "the publishers %s together reach %g people; the noisy counts are %s" % (
                        act, whole, [x + n for x, n in zip(noised, draws)])  # fmt: skip
                n = len(set().union(*[users[i] for i in act]))
                if t.get("ll", [12, 1000])[1] >= 5000 and not edge(ls, t, spends):
                    # the sketch is large, so its estimate is good
                    if not any(abs(x - n) <= 0.3 * n + 0.01 for x in noised):
                        return "%d people are reached at %s, estimated before noise: %s" % (n, spends, noised)
                out.note("venn_totals")
            # a publisher none of whose users is reached by anyone else, and so on: no user
            # outside the regions that really have users may be reported when there is no noise
            if draws and not any(draws) and act and not edge(ls, t, spends):
                whole, n = seen[frozenset(act)], len(set().union(*[users[i] for i in act]))
                if t.get("ll", [12, 1000])[1] >= 5000 and n:
                    # nearly all users are sampled
                    for a in seen:
                        k = len(set().union(*[users[i] for i in a]))
                        if abs(seen[a] * n - k * whole) > 2.5 * whole + 1e-6:
                            return "%s reach %d of %d people, measured without noise: %g of %g" % (sorted(a), k, n, seen[a], whole)
                    out.note("venn_proportions")
                for a in seen:
                    for b in seen:
                        if a < b and set().union(*[users[i] for i in a]) == set().union(*[users[i] for i in b]):
                            if abs(seen[a] - seen[b]) > 1e-6:
                                return "%s reach the same people as %s: %g and %g" % (
                                    sorted(a), sorted(b), seen[a], seen[b])  # fmt: skip
                        if not a & b and not (
                            set().union(*[users[i] for i in a]) & set().union(*[users[i] for i in b])
                        ):
                            if abs(seen[a | b] - seen[a] - seen[b]) > 1e-6:
                                return "%s and %s have no common users: %g, %g, together %g" % (
                                    sorted(a), sorted(b), seen[a], seen[b], seen[a | b])  # fmt: skip
                out.note("venn_without_noise")
            out.note("venn_diagrams")
    return None


def judge(sc, out):
    exp = common.solo_rows(sc, 0, out)
    if exp is None:
        return
    prints = {}
    for (ds, t, ws), row in zip(world.solo(sc, 0), exp):
        for f in ws.runs[0].fits:
            prints.setdefault(f.fingerprint, []).append((ds, t))
            bad = check(sc, ds, t, f, out)
            if bad:
                return out.fail("measurement", "%s alone: %s" % (world.key_of(row), bad))
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the run does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        if r.status != "ok":
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
    for f in w.fits:
        for ds, t in prints.get(f.fingerprint, [])[:1]:
            bad = check(sc, ds, t, f, out)
            if bad:
                return out.fail("measurement", "run %d, %s: %s" % (f.run, (ds, t), bad))
