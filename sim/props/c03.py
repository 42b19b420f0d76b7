"""C03: what is completely stored is not computed again and does not change."""
import copy

from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shape  # noqa: F401

ID = "C03"
BUDGET = {"quick": (900, 70.0), "thorough": (30000, 3000.0)}
RULE = (
    "A history of 2-4 driver runs over one intermediates directory with generated crashes, modes and edited designs; "
    "at the start of every run the completely stored results are noted, every fit of that run is attributed to its trial, "
    "and every change of a noted file is observed as it happens."
)


def gen(rng, i):
    sc = common.base(rng)
    sc["datasets"] = common.datasets(rng, rng.choice([1, 1, 2]))
    full = common.design(rng, sc, rng.choice([2, 3, 4]), real=0.08, big=0.03)
    if rng.random() < 0.25:
        for b in sc["behave"].values():
            if rng.random() < 0.4:
                b["fail"] = common.failure(rng)
    if rng.random() < 0.1 and all(len(d) == 1 for d in sc["datasets"].values()):
        full["analysis"] = "single_pub"
    # subsets of one list of trials
    n = len(full["trials"])
    for k in range(rng.choice([1, 2, 2, 3])):
        d = copy.deepcopy(full)
        if k or rng.random() < 0.5:
            keep = rng.sample(range(n), rng.randint(1, n))
            d["trials"] = [d["trials"][j] for j in keep]
        sc["designs"].append(d)
    nr = rng.choice([2, 2, 3, 4])
    for k in range(nr):
        r = common.run_spec(rng, sc["cloud"])
        if rng.random() < 0.4 and not sc["cloud"]:
            r["mode"] = "serial"
        r["design"] = rng.randrange(len(sc["designs"]))
        if k < nr - 1 and rng.random() < 0.6:
            f = common.kill_fault(rng, r["mode"], sc["cloud"])
            if rng.random() < 0.3:
                # between the storing of a result and the end of its trial
                f = {"action": rng.choice(["kill_all", "kill", "power", "sigint"]), "u": round(rng.random(), 4)}
                if sc["cloud"]:
                    f["op"], f["cls"] = rng.choice(["gcs.delete", "gcs.reply", "gcs.get"]), rng.choice(["pending", "result|pending"])
                else:
                    f["op"], f["cls"] = rng.choice(["unlink", "unlink|stat"]), "pending"
            elif "u" in f:
                f["u"] = round(f["u"] ** 0.5, 4)  # late enough to leave results
            r["faults"] = [f]
            if rng.random() < 0.3:
                r["orphan"] = rng.choice([1, 2, 5])
        if k and rng.random() < 0.2:
            r["edits"] = [{"do": rng.choice(["drain", "reap"])}]
        if rng.random() < 0.15:
            r["gap"] = rng.choice([-4000.0, 0.0, 86400.0 * 40])
        sc["runs"].append(r)
    return sc


def shrink(sc):
    return common.shrink(sc)


def judge(sc, out):
    solos = {}  # (data set, trial) -> (row, fingerprint)
    prints = {}
    for d in range(len(sc["designs"])):
        rows = common.solo_rows(sc, d, out)
        if rows is None:
            return
        for (ds, t, w), row in zip(world.solo(sc, d), rows):
            k = world.key_of(row)
            if k in solos:
                continue
            fp = w.runs[0].fits[0].fingerprint if w.runs[0].fits else None
            solos[k] = (row, fp)
            prints.setdefault(fp, []).append(k)
    w = world.World(world.place_faults(sc))
    w.complete = {}

    def on_run(sim, rec, what):
        if what == "end":
            w.watch_clear()
            return
        done = {}
        for path, data in rec.results_before.items():
            try:
                text = data.decode()
            except UnicodeDecodeError:
                continue
            if not text.endswith("\n"):
                continue
            cols, rows = world.parse_rows(data)
            if not rows or len(rows) != 1:
                continue
            k = world.key_of(rows[0])
            if k not in solos:
                continue
            want = solos[k][0]
            if not world.same_row({c: want.get(c) for c in rows[0]}, rows[0]):
                continue
            if any(want.get(c) is not None for c in want if c not in rows[0]):
                continue
            done[k] = (path, data)
        w.complete[rec.index] = done
        out.note("complete_at_start", len(done))
        for k, (path, data) in done.items():
            w.watch(path, lambda sim, path=path, data=data, k=k, i=rec.index: changed(sim, path, data, k, i))

    def changed(sim, path, data, k, i):
        by = sim.cur.proc.run if sim.cur is not None else None
        if by is None or by < i:
            w.touched.add((i, k))
            return
        if (i, k) in w.touched:
            return
        now = w.get(path)
        if now != data:
            out.fail(
                "changed",
                "run %d changes the stored result of %s: %d bytes become %s"
                % (i, k, len(data), "none" if now is None else len(now)),
            )

    w.on_run = on_run
    w.run()
    out.worlds.append(w)
    common.probes(w, out)
    if out.violation:
        return
    if w.sim.limit_hit:
        return out.fail("steps", "the history does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        done = w.complete[r.index]
        for f in r.fits:
            if f.run != r.index:
                continue  # an orphan of an earlier run
            ks = prints.get(f.fingerprint, [])
            if len(ks) == 1 and ks[0] in done and (r.index, ks[0]) not in w.touched:
                return out.fail(
                    "refit", "run %d fits %s again, whose result was completely stored" % (r.index, ks[0])
                )
            out.note("fits_attributed", 1 if len(ks) == 1 else 0)
        if r.spec.get("faults"):
            continue
        if r.status != "ok":
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
        exp = common.dedup(common.solo_rows(sc, r.spec.get("design", 0), out))
        d = world.compare_rows(exp, world.parse_rows(r.out)[1])
        if d is not None:
            return out.fail("rows", "run %d: %s" % (r.index, d))
