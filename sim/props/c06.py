"""C06: a failing model costs exactly its own row."""
import copy

from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shrink, shape  # noqa: F401

ID = "C06"
BUDGET = {"quick": (900, 70.0), "thorough": (30000, 3000.0)}
RULE = (
    "A design in which a generated subset of models fails (exception type, message, phase and call chosen; exceptions "
    "injected inside measurements of the sketch library; useless return values), run in a generated mode and then run again; "
    "failed rows are judged on their own, all other rows against runs in which nothing fails."
)

# Columns that describe the trial; everything else is a metric.
DESCRIPTIVE = {
    "dataset", "trial", "replica_id", "single_pub_model", "multi_pub_model", "strategy",
    "liquid_legions_sketch_size", "liquid_legions_decay_rate", "maximum_reach", "ncampaigns",
    "largest_pub_reach", "max_frequency", "average_spend_fraction", "privacy_budget_epsilon",
    "privacy_budget_delta", "privacy_used_epsilon", "privacy_used_delta", "privacy_mechanisms",
    "model_succeeded", "model_exception",
}  # fmt: skip
USED = {"privacy_used_epsilon", "privacy_used_delta", "privacy_mechanisms"}


def gen(rng, i):
    sc = common.base(rng, cloud=rng.random() < 0.15)
    single = rng.random() < 0.2
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2]), pubs=1 if single else None)
    sc["designs"] = [common.design(rng, sc, rng.choice([2, 2, 3, 4]), real=0.06, big=0.03)]
    if single:
        sc["designs"][0]["analysis"] = "single_pub"
    lib = rng.random() < 0.2
    if not lib:
        some = False
        for b in sc["behave"].values():
            if rng.random() < 0.45 or not some:
                some = True
                b["fail"] = common.failure(rng)
    r = common.run_spec(rng, sc["cloud"])
    if lib:
        if rng.random() < 0.5 and not sc["cloud"]:
            r["mode"] = "serial"
        r.get("beam", {}).pop("dup", None)
        for b in sc["behave"].values():
            if not b["measures"]:
                b["measures"] = [{"part": 0.25, "mf": 1}]
        r["faults"] = [
            {
                "op": rng.choice(["lib.noiser", "lib.estimate", "lib.estimated", "lib.noiser|lib.estimate"]),
                "action": "raise:" + rng.choice(sorted(common.EXCS)),
                "nth": rng.choice([1, 1, 2, 3, 5, 9, 17]),
            }
        ]
    sc["runs"].append(r)
    sc["runs"].append(common.run_spec(rng, sc["cloud"]))
    for r in sc["runs"]:
        r.get("beam", {}).pop("linger", None)
    return sc


def raw_rows(data):
    import csv
    import io

    text = data.decode("utf-8", "surrogateescape").replace("\0", "\ufffd")
    rd = list(csv.reader(io.StringIO(text, newline="")))
    return [dict(zip(rd[0], r)) for r in rd[1:]] if rd else []


def squeeze(s):
    return " ".join(s.replace("\0", "\ufffd").split())


def printable(s):
    return s.replace("\0", "\\x00").encode("utf-8", "backslashreplace").decode()


def judge(sc, out):
    quiet = copy.deepcopy(sc)
    for b in quiet["behave"].values():
        b.pop("fail", None)
    good = common.solo_rows(quiet, 0, out)
    if good is None:
        return
    solo = common.solo_rows(sc, 0, out)
    if solo is None:
        return
    pairs = world.solo(sc, 0)
    qpairs = world.solo(quiet, 0)
    exp = []
    failing = {}
    for (ds, t, ws), (_, _, wq), srow, grow in zip(pairs, qpairs, solo, good):
        ident = (t.get("skw") or {}).get("id")
        f = sc["behave"].get(str(ident), {}).get("fail") if ident is not None else None
        reached = f is not None and ws.runs[0].fits and ws.runs[0].fits[0].failed
        if not reached:
            if grow.get("model_succeeded") == 0.0:
                # fails by itself
                bad = judge_failed(grow, grow, raw_rows(wq.runs[0].out)[0], {"how": "itself"})
                if bad:
                    return out.fail("failed-row", "%s: %s" % (world.key_of(grow), bad))
                out.note("failed_by_itself")
            exp.append(grow)
            continue
        k = world.key_of(grow)
        failing[k] = f
        # columns: of the stored table of the trial alone, with and without the failure
        cols = world.parse_rows(ws.runs[0].out)[0]
        qcols = world.parse_rows(wq.runs[0].out)[0]
        if cols != qcols:
            return out.fail(
                "columns",
                "the row of a failed model has other columns: %s"
                % sorted(set(cols) ^ set(qcols))[:6],
            )
        bad = judge_failed(srow, grow, raw_rows(ws.runs[0].out)[0], f)
        if bad:
            return out.fail("failed-row", "%s: %s" % (k, bad))
        exp.append(srow)
        out.note("failed_rows")
    exp = common.dedup(exp)
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    if w.sim.limit_hit:
        return out.fail("steps", "the run does not end within %d operations" % w.sim.max_steps)
    prints = {}
    for (ds, t, ws), row in zip(pairs, solo):
        fp = ws.runs[0].fits[0].fingerprint if ws.runs[0].fits else None
        prints.setdefault(fp, []).append(world.key_of(row))
    for r in w.runs:
        if r.status != "ok":
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
        cols, rows = world.parse_rows(r.out)
        hit = set()
        for f in w.runs[0].fits:
            if f.lib_raised and len(prints.get(f.fingerprint, ())) == 1:
                hit.add(prints[f.fingerprint][0])
        e2, lib_rows = [], []
        for e in exp:
            k = world.key_of(e)
            if k in hit and k not in failing:
                a = [x for x in rows if world.key_of(x) == k]
                if len(a) != 1:
                    return out.fail("rows", "%d rows for %s" % (len(a), k))
                raw = [x for x in raw_rows(r.out) if (x["dataset"], x["trial"]) == k]
                bad = judge_failed(a[0], e, raw[0], {"lib": True})
                if bad:
                    return out.fail("failed-row", "%s: %s" % (k, bad))
                lib_rows.append(a[0])
                out.note("failed_in_library")
                e2.append(a[0])
            else:
                e2.append(e)
        if any(f.fired for f in r.faults) and not hit:
            out.note("library_failure_not_attributed")
            return
        d = world.compare_rows(e2, rows)
        if d is not None:
            return out.fail("rows", "run %d: %s" % (r.index, d))
        if r.index and r.fits:
            return out.fail("refit", "a re-run over complete results fits %d models" % len(r.fits))


def judge_failed(row, good, raw, f):
    """None, or what is wrong with the row of a failed model."""
    if row.get("model_succeeded") != 0.0:
        return "model_succeeded is %r" % row.get("model_succeeded")
    text = squeeze(raw.get("model_exception", ""))
    if not text or text.lower() in ("nan", "none"):
        return "no reason is given"
    if "how" not in f and f.get("n") != "none" and "lib" not in f:
        if f["exc"] not in text:
            return "the reason does not name %s: %s" % (f["exc"], text[-200:])
        msg = squeeze(f["msg"])
        if msg not in text and squeeze(printable(f["msg"])) not in text and squeeze(repr(f["msg"])) not in text:
            return "the reason does not contain the message %r: %s" % (f["msg"][:100], text[-200:])
    if "lib" in f and "injected inside a measurement" not in text:
        return "the reason does not contain the message: %s" % text[-200:]
    for k, v in row.items():
        if k in DESCRIPTIVE:
            if k not in USED and k not in ("model_succeeded", "model_exception"):
                if not world.same_value(v, good.get(k)):
                    return "%s is %r instead of %r" % (k, v, good.get(k))
        elif v is not None:
            return "metric %s has the value %r" % (k, v)
    return None
