"""Scenario generators, shrinking and shared oracles for histories of driver runs."""
import copy

from simkit import world

REAL = [
    "src/driver/*: experiment_driver.main, experimental_design, experiment, experimental_trial, descriptors, test points, aggregation",
    "src/simulator/*: halo simulator, publisher, privacy tracker, m3 and single publisher strategies",
    "src/data_generators: data_design, data_set, publisher_data",
    "src/models: goerg, pairwise and restricted pairwise union surfaces, reach points",
    "src/filesystem_wrappers/*, cloudpathlib, pandas, numpy, scipy, cvxpy, dill",
]
STUB = [
    "file system and clock (simulated, in memory)",
    "google.cloud.storage.Client (simulated object store)",
    "apache_beam (stand-in pipeline; simulated in-memory, threaded, multi-process and Dataflow runners)",
    "pathos ProcessPool (simulated processes)",
    "wfa_cardinality_estimation_evaluation_framework (stand-in sketches and noisers; not installed here)",
]
ASSUME = [
    "the stand-ins for Beam, pathos, the object store and the sketch library behave as the real ones do where the property can see them",
    "threads switch only at source lines of the code under test and at simulated operations",
]

NAMES = [
    "a", "b", "ds1", "ds2", "alpha", "beta", "x.y", "with space", "k=1", "n_1",
    "000000000042", "17", "NA", "1e5", "homog_p=10_rep=3", "Zeta", "q-1", "#5",
]  # fmt: skip


def log_of(rng, n, ids=12, sort=True):
    s, out = 0.0, []
    for _ in range(n):
        if rng.random() < 0.85:
            s += rng.choice([0.05, 0.1, 0.25, 0.5, 1.0])
        out.append([rng.randrange(ids), round(s + 0.01, 4)])
    if not sort:
        rng.shuffle(out)
    return out


def datasets(rng, n, pubs=None, names=None, size=(4, 16)):
    """Data sets whose maximum spends are pairwise different."""
    names = list(names or NAMES)
    rng.shuffle(names)
    out, seen = {}, set()
    for i in range(n):
        k = pubs or rng.choice([1, 2, 2, 2, 3])
        while True:
            ds = {
                str(j + 1): log_of(rng, rng.randint(*size), sort=rng.random() < 0.7)
                for j in range(k)
            }
            key = tuple(max(x[1] for x in l) for l in ds.values())
            if key not in seen:
                seen.add(key)
                break
        out[names[i]] = ds
    return out


def pub_count(ds):
    return len(ds)


def fractions(rng, dss, vary=True):
    counts = {len(d) for d in dss.values()}
    if len(counts) > 1 or rng.random() < 0.25:
        return {"gen": rng.choice([0.25, 0.5, 0.6, 0.75])}
    k = counts.pop()
    return [rng.choice([0.25, 0.5, 0.6, 0.8, 1.0]) for _ in range(k)]


def test_points(rng, big=0.1):
    r = rng.random()
    kw = {"npoints": 100}
    if r < 2 * big and rng.random() < 0.3:
        # the number of publishers is filled in for every data set
        kw = {"npoints": 10, "npublishers": 1, "minimum_points_per_publisher": rng.choice([20, 60])}
    if r < big:
        return "latin_hypercube", kw
    if r < 2 * big:
        return "uniformly_random", kw
    return "grid", {"grid_size": rng.choice([1, 2, 2, 3])}


def behaviour(rng, max_pubs, fail=False):
    b = {}
    ms = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        m = {"part": rng.choice([0.125, 0.25, 0.25])}
        if max_pubs <= 3 and rng.random() < 0.25:
            m["venn"] = True
        else:
            m["mf"] = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.3:
            m["only"] = rng.randrange(3)
        ms.append(m)
    b["measures"] = ms
    if rng.random() < 0.6:
        b["rng"] = {
            "np": rng.choice([0, 1, 5]),
            "py": rng.choice([0, 2]),
            "gen": rng.choice([0, 1, 3]),
        }
        if rng.random() < 0.3:
            b["rng"]["npseed"] = rng.randrange(10)
    return b


EXCS = [
    "ValueError", "RuntimeError", "ZeroDivisionError", "MemoryError", "RecursionError",
    "OSError", "FileNotFoundError", "KeyError", "IndexError", "AssertionError",
    "NotImplementedError", "StopIteration", "LinAlgError", "TypeError", "Exception",
    "TimeoutError", "ConnectionError", "FloatingPointError", "LookupError",
    "AttributeError", "UserError", "ArithmeticError",
]  # fmt: skip

MSGS = [
    "injected", "", "a,b,c", 'quote " inside', "two\nlines", "tail newline\n", "x" * 3000,
    "NaN", "1.5", "caf\u00e9 \u4e2d", "trailing comma,", "'single'", "\ttab", "semi;colon",
    "carriage\rreturn", "# comment", "{brace} %s %d", "None", "a\x00b", "lone \ud800 half",
    "back\\slash", '",', "crlf\r\nend", "\x1a", "y" * 150000,
]  # fmt: skip


def failure(rng):
    f = {"exc": rng.choice(EXCS), "msg": rng.choice(MSGS)}
    if rng.random() < 0.55:
        f["where"] = "fit"
        f["n"] = rng.choice([0, 0, 1, 1, 2, "end", "none"])
    else:
        f["where"] = "by_spend"
        f["n"] = rng.choice([1, 2, 4, 50])
        if rng.random() < 0.3:
            f["how"] = rng.choice(["none", "text", "empty"])
    return f


def design(rng, sc, ntrials, ids=None, real=0.15, big=0.1, distinct=True, seed=None):
    """A design over the scenario's data sets; fake strategies get behaviours."""
    dss = sc["datasets"]
    maxp = max(len(d) for d in dss.values())
    minp = min(len(d) for d in dss.values())
    trials = []
    fr = fractions(rng, dss)
    one_fr = rng.random() < 0.5
    sketches = rng.random() < 0.35
    for i in range(ntrials):
        c = {"fr": fr if one_fr else fractions(rng, dss)}
        c["tp"], c["tpkw"] = test_points(rng, big)
        c["mf"] = rng.choice([1, 2, 3, 3, 6])
        c["eps"] = rng.choice([1.0, 0.5, 2.0, 1000.0])
        c["delta"] = rng.choice([1e-5, 1e-9, 0.001])
        c["rep"] = rng.choice([1, 1, 2])
        if rng.random() < real and (minp > 1 or maxp == 1):
            if maxp == 1:
                c["strategy"], c["mpm"] = rng.choice(["single_publisher", "single_publisher", "m3strategy"]), "none"
            else:
                c["strategy"] = "m3strategy"
                if rng.random() < 0.4:
                    c["mpm"] = "restricted_pairwise_union"
            if c["strategy"] == "m3strategy" and "mpm" not in c and rng.random() < 0.15:
                c["skw"] = {"use_ground_truth_for_reach_curves": True}
            c["mf"] = rng.choice([1, 2, 3])
            c["eps"] = rng.choice([1.0, 1000.0])
        else:
            ident = (ids or (lambda k: k))(len(sc["behave"]) + 1)
            c["skw"] = {"id": ident}
            sc["behave"][str(ident)] = behaviour(rng, maxp)
        if sketches:
            c["ll"] = rng.choice([[12, 5000, 1], [12, 5000, 1], [12, 5000, 7], [4, 3, 1], [12, 60, 1], [3, 11, 2]])
        if "npublishers" in c["tpkw"] and ("ll" in c or "strategy" in c or ids):
            c["tpkw"] = {"npoints": 100}  # the name of a trial is limited by that of a file
        trials.append(c)
    return {
        "trials": trials,
        "seed": rng.choice([1, 1, 2, 77]) if seed is None else seed,
        "generator": rng.choice(["own", "own", "shared", "default"]),
    }


def variant(rng, c):
    """The same trial with one parameter changed."""
    c = copy.deepcopy(c)
    what = rng.choice(["ll", "ll", "eps", "delta", "mf", "rep", "tpkw", "fr"])
    if what == "ll":
        c["ll"] = rng.choice([[4, 3, 1], [12, 60, 1], [12, 5000, 9], [3, 11, 2]])
    elif what == "eps":
        c["eps"] = c["eps"] * 3
    elif what == "delta":
        c["delta"] = c["delta"] / 4
    elif what == "mf":
        c["mf"] = c["mf"] + 1
    elif what == "rep":
        c["rep"] = c["rep"] + 1
    elif what == "tpkw":
        k = "grid_size" if c["tp"] == "grid" else "npoints"
        c["tpkw"] = dict(c["tpkw"], **{k: c["tpkw"][k] + 1})
    elif isinstance(c["fr"], list):
        c["fr"][0] = c["fr"][0] - 0.125
    else:
        c["fr"]["gen"] = c["fr"]["gen"] - 0.125
    return c


def use_global(rng, sc):
    """Lets models depend on numpy's global generator, which the driver seeds for every trial.

    Only where the trials of one process run one after the other: the global generator is
    shared by the threads of a process.
    """
    for r in sc["runs"]:
        if r["mode"] not in ("serial", "pool", "beam_mem", "beam_procs"):
            if r["mode"] != "dataflow" or r["beam"].get("threads", 1) != 1:
                return
    for b in sc["behave"].values():
        if b.get("rng") and rng.random() < 0.5:
            b["rng"]["np"] = b["rng"]["np"] or 1
            b["rng"]["npuse"] = True


LOCAL = ["serial", "pool", "beam_mem", "beam_threads", "beam_procs"]


def run_spec(rng, cloud=False, mode=None, line=0.5):
    if mode is None:
        if cloud:
            mode = rng.choice(["dataflow", "dataflow", "serial"])
        else:
            mode = rng.choice(LOCAL)
    r = {"mode": mode}
    if mode in ("pool", "beam_threads", "beam_procs"):
        r["cores"] = rng.choice([2, 2, 3, 4, 0] if mode == "pool" else [1, 2, 3, 4])
    if mode != "serial":
        r["preempt"] = rng.choice([0.0, 0.1, 0.3, 0.6])
        r["beam"] = {"bundle": rng.choice([1, 2, 3, 8]), "seed": rng.randrange(1000)}
    if mode == "beam_threads" and rng.random() < line:
        r["line"] = rng.choice([20, 60, 200])
    if mode == "dataflow":
        r["beam"]["workers"] = rng.choice([1, 2, 3])
        r["beam"]["threads"] = rng.choice([1, 1, 2])
        if rng.random() < 0.5:
            r["beam"]["dup"] = [rng.randrange(6) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.2:
            r["beam"]["dup_merge"] = [0]
        if rng.random() < 0.3:
            r["beam"]["linger"] = True
    if rng.random() < 0.3:
        r["salt"] = rng.randrange(1, 1000)
    if rng.random() < 0.7:
        r["wipe_out"] = False  # what an earlier run has left at the output is still there
    return r


def base(rng, cloud=None):
    sc = {
        "seed": rng.randrange(1 << 30),
        "datasets": {},
        "behave": {},
        "designs": [],
        "runs": [],
        "cloud": (rng.random() < 0.2) if cloud is None else cloud,
    }
    if rng.random() < 0.25:
        sc["chunk"] = rng.choice([300, 1000] if sc["cloud"] else [7, 64, 200])
    if rng.random() < 0.4:
        sc["ls_salt"] = rng.randrange(1000)
    if rng.random() < 0.2:
        sc["skew"] = rng.choice([-3600.0, 3600.0, 0.5])
    return sc


# -- faults ---------------------------------------------------------------------
def kill_fault(rng, mode, cloud):
    """A fault that ends (part of) a run."""
    action = rng.choice(
        ["kill_all", "kill_all", "kill_driver", "kill", "power", "sigint"]
        + (["torn", "torn_all", "torn_power"] * 2 if not cloud else [])
    )
    f = {"action": action}
    if action.startswith("torn"):
        f["op"] = "write"
        f["cls"] = rng.choice(["result", "result", "result", "pending", "temp", "output"])
        f["u"] = round(rng.random(), 4)
        return f
    r = rng.random()
    if r < 0.5:
        f["op"] = rng.choice(
            ["gcs.upload", "gcs.reply", "gcs.delete", "gcs.get", "gcs.download", "gcs.list"]
            if cloud
            else ["open_w", "write", "close", "unlink", "mkdir", "stat", "open_r", "read"]
        )
        f["cls"] = rng.choice(["result", "result", "pending", "temp", "output", "result|pending"])
        f["u"] = round(rng.random(), 4)
    elif r < 0.65:
        f["op"] = rng.choice(["model.fit", "model.measure", "model.fitted", "model.by_spend"])
        f["u"] = round(rng.random(), 4)
    elif r < 0.75 and mode not in ("serial", "beam_mem"):
        f["op"] = rng.choice(["pool.fork", "pool.submit", "pool.result", "bundle.commit"])
        f["nth"] = rng.choice([1, 1, 2, 3])
    else:
        f["op"] = "*"
        f["u"] = round(rng.random(), 4)
    return f


IO_LOCAL = {
    "open_r": ["eio", "emfile", "estale", "eacces"],
    "open_w": ["eio", "enospc", "emfile", "erofs", "edquot", "eacces"],
    "read": ["eio", "estale"],
    "write": ["enospc", "eio", "short", "edquot"],
    "close": ["eio", "enospc", "edquot"],
    "stat": ["eio", "estale", "eacces"],
    "listdir": ["eio", "emfile", "estale", "eacces"],
    "mkdir": ["enospc", "eio", "erofs", "edquot"],
    "unlink": ["eio", "erofs", "eacces"],
}
IO_CLOUD = {
    "gcs.get": ["503", "503_after", "429", "conn"],
    "gcs.list": ["503", "503_after", "429", "conn"],
    "gcs.download": ["503", "503_after", "conn"],
    "gcs.upload": ["503", "503_after", "429", "conn"],
    "gcs.delete": ["503", "503_after", "conn"],
}


def io_fault(rng, cloud):
    t = IO_CLOUD if cloud else IO_LOCAL
    op = rng.choice(sorted(t))
    if cloud and rng.random() < 0.15:
        # the local copy that cloudpathlib keeps
        op = rng.choice(["open_w", "write", "read", "open_r", "close", "mkdir"])
        return {
            "op": op,
            "cls": "cache",
            "action": rng.choice(IO_LOCAL[op]),
            "u": round(rng.random(), 4),
            "count": 1,
        }
    f = {"op": op, "action": rng.choice(t[op])}
    f["cls"] = rng.choice(["*", "data", "result", "result", "pending", "output", "temp"])
    f["u"] = round(rng.random(), 4)
    f["count"] = rng.choice([1, 1, 1, 2, 5, 1000])
    return f


# -- shrinking --------------------------------------------------------------------
def shrink(sc):
    """Simpler scenarios, most drastic first."""

    def mk(fn):
        s = copy.deepcopy(sc)
        s.pop("schedule", None)
        if fn(s) is False:
            return None
        return s

    cands = []

    def add(fn):
        cands.append(fn)

    n = len(sc["runs"])
    for i in range(n):
        if n > 1:
            add(lambda s, i=i: s["runs"].pop(i) and None)
    for k in list(sc["datasets"]):
        if len(sc["datasets"]) > 1:
            add(lambda s, k=k: s["datasets"].pop(k) and None)
    for d, des in enumerate(sc["designs"]):
        for t in range(len(des["trials"])):
            if len(des["trials"]) > 1:
                add(lambda s, d=d, t=t: s["designs"][d]["trials"].pop(t) and None)
    for i, r in enumerate(sc["runs"]):
        for j in range(len(r.get("faults", []))):
            add(lambda s, i=i, j=j: s["runs"][i]["faults"].pop(j) and None)
        if r.get("mode") not in ("serial", None):
            add(lambda s, i=i: s["runs"][i].update(mode="serial"))
        for key in ("preempt", "line", "beam", "orphan", "salt", "cwd", "edits", "gap"):
            if r.get(key):
                add(lambda s, i=i, key=key: s["runs"][i].pop(key) and None)
        if r.get("cores", 2) > 2:
            add(lambda s, i=i: s["runs"][i].update(cores=2))
    for key in ("chunk", "ls_salt", "skew", "clock0"):
        if sc.get(key):
            add(lambda s, key=key: s.pop(key) and None)
    if sc.get("cloud") and all(r.get("mode") != "dataflow" for r in sc["runs"]):
        add(lambda s: s.update(cloud=False))
    for b in sc.get("behave", {}):
        v = sc["behave"][b]
        for key in ("rng", "events", "fail"):
            if v.get(key):
                add(lambda s, b=b, key=key: s["behave"][b].pop(key) and None)
        if len(v.get("measures", [])) > 0:
            add(lambda s, b=b: s["behave"][b].update(measures=[]))
    for d, des in enumerate(sc["designs"]):
        for t, c in enumerate(des["trials"]):
            if c.get("tp", "grid") != "grid":
                add(
                    lambda s, d=d, t=t: s["designs"][d]["trials"][t].update(
                        tp="grid", tpkw={"grid_size": 1}
                    )
                )
    for k, ds in sc["datasets"].items():
        for p, log in ds.items():
            if len(log) > 4:
                add(
                    lambda s, k=k, p=p: s["datasets"][k].update(
                        {p: s["datasets"][k][p][: len(s["datasets"][k][p]) // 2 + 1]}
                    )
                )
    for fn in cands:
        s = mk(fn)
        if s is not None:
            yield s


def shape(sc):
    modes = "+".join(r.get("mode", "serial") for r in sc.get("runs", []))
    return ("cloud:" if sc.get("cloud") else "local:") + modes


# -- shared oracles -----------------------------------------------------------------
def dedup(expected):
    """One row per (data set, trial)."""
    seen, out = set(), []
    for r in expected:
        k = world.key_of(r)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def solo_rows(sc, d, out):
    """Rows of every trial evaluated alone in a fresh process, or None if one fails."""
    rows = []
    for ds, t, w in world.solo(sc, d):
        r = w.runs[0]
        if r.status != "ok":
            out.fail(
                "solo", "a single trial on data set %r does not complete: %s" % (ds, r.error)
            )
            return None
        cols, rr = world.parse_rows(r.out)
        if rr is None or len(rr) != 1:
            out.fail(
                "solo",
                "a single trial on data set %r gives %s rows" % (ds, rr and len(rr)),
            )
            return None
        rows.append(rr[0])
    # one table: a column some trials do not have is missing in their rows
    allcols = []
    for r in rows:
        for k in r:
            if k not in allcols:
                allcols.append(k)
    return [{k: r.get(k) for k in allcols} for r in rows]


def reference_rows(sc, d, out):
    w = world.reference(sc, d)
    r = w.runs[0]
    if r.status != "ok":
        out.fail("reference", "an undisturbed serial run does not complete: %s" % r.error)
        return None
    cols, rows = world.parse_rows(r.out)
    want = expected_keys(sc, d)
    if rows is None or len(rows) != len(want):
        out.fail(
            "reference",
            "an undisturbed serial run reports %s rows for %d distinct trials"
            % (rows and len(rows), len(want)),
        )
        return None
    return rows


def expected_keys(sc, d):
    """Distinct (data set, configuration) pairs."""
    seen = []
    for ds in sc["datasets"]:
        for c in sc["designs"][d]["trials"]:
            k = (ds, cfg_key(c))
            if k not in seen:
                seen.append(k)
    return seen


def cfg_key(c):
    return repr(sorted((k, repr(v)) for k, v in c.items()))


def probes(w, out):
    """How often the conditions the property is about were reached."""
    for r in w.runs:
        out.note("run_" + str(r.status))
        out.note("mode_" + r.spec.get("mode", "serial"))
    if any(p.orphan_quota is not None for p in w.sim.procs):
        out.note("orphans")
