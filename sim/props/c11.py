"""C11: different trials never share a stored result."""
import copy

from simkit import world

from . import common
from .common import REAL, STUB, ASSUME, shape  # noqa: F401

ID = "C11"
BUDGET = {"quick": (1200, 70.0), "thorough": (30000, 3000.0)}
RULE = (
    "One trial configuration and variants that differ from it (or from each other) in one or two parameters, by little or by much, "
    "arranged into 1-3 designs that are run over one intermediates directory in generated modes, sometimes with a crash in between; "
    "the model fitted depends on the whole configuration, and every run must report exactly the rows that every pair of data set and "
    "distinct configuration gives alone from scratch."
)

FLOATS = [0.1, 0.10000001, 0.2, 0.25, 0.2500001, 1.0, 1.5, 2.0, 10.0, 100.0, 1e-3, 1e-6, 0.3, 0.30000000000000004]
NUMBERS = [0, 1, 2, 3, 10, 11, 100, 101, 1000, -1, True, None] + FLOATS
TEXTS = ["a", "b", "ab", "A", "x.y", "x_y", "x-y", "a b", "caf\u00e9"]
NAMES = [
    "a", "ae", "A", "ds", "ds1", "ds11", "ds_1", "1", "01", "001", "x.y", "x.csv", "x", "xy", "NA", "None",
    "temp", "b", "a=1", "k,v", "(p)", "1.0", "1e0", "fake", "ds ", "a.b.c",
]  # fmt: skip


def other(rng, old, pool):
    while True:
        v = rng.choice(pool)
        # values written alike are no different values to a user of the result table
        if str(v) != str(old) and not (isinstance(v, (int, float)) and isinstance(old, (int, float)) and v == old):
            return v


def opts(rng, old, keys=("id", "p", "q")):
    """Another dictionary of options."""
    o = dict(old)
    while True:
        k = rng.choice(keys)
        r = rng.random()
        if k in o and r < 0.25 and k != "id":
            del o[k]
        elif k in o and r < 0.4:
            # the value moves to another name
            k2 = rng.choice([x for x in keys if x != k])
            v = o.pop(k)
            o[k2] = v
        else:
            o[k] = other(rng, o.get(k, "?"), NUMBERS + (TEXTS if rng.random() < 0.3 else []))
        if sorted((k, str(v)) for k, v in o.items()) != sorted((k, str(v)) for k, v in old.items()):
            # one order of names, so that one configuration is written in one way
            return {k: o[k] for k in sorted(o)}


WHAT = [
    "strategy", "skw", "skw", "spm", "spkw", "mpm", "mpkw", "fr", "fr", "decay", "sketch", "hash_seed",
    "eps", "delta", "rep", "mf", "tp", "tpkw",
]  # fmt: skip


def near(rng, old, pool):
    """Another value: one of the pool, or one that differs a little from the old one."""
    if rng.random() < 0.5:
        return other(rng, old, pool)
    while True:
        k = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
        v = old * (1 + 10.0**-k) if rng.random() < 0.5 else old + 10.0**-k
        if v != old and 0 < v:
            return v


def vary(rng, c, pubs, w=None):
    c = copy.deepcopy(c)
    w = w or rng.choice(WHAT)
    if w == "strategy":
        c["strategy"] = other(rng, c["strategy"], ["fake", "efake", "fake2"])
    elif w == "skw":
        c["skw"] = opts(rng, c["skw"])
    elif w == "spm":
        c["spm"] = other(rng, c["spm"], ["goerg", "gamma_poisson", "kinflated_gamma_poisson"])
    elif w == "spkw":
        c["spkw"] = opts(rng, c["spkw"], ("p", "q"))
    elif w == "mpm":
        c["mpm"] = other(rng, c["mpm"], ["pairwise_union", "restricted_pairwise_union", "none"])
    elif w == "mpkw":
        c["mpkw"] = opts(rng, c["mpkw"], ("p", "q"))
    elif w == "fr":
        fr = list(c["fr"])
        if len(fr) > 1 and fr[0] != fr[-1] and rng.random() < 0.3:
            fr = fr[::-1]
        else:
            k = rng.randrange(len(fr))
            fr[k] = (near if fr[k] < 0.9 else other)(rng, fr[k], [0.1, 0.25, 0.2500001, 0.5, 0.50000001, 0.6, 0.75, 1.0, 0.05, 0.3, 0.30000000000000004])
        c["fr"] = fr
    elif w == "decay":
        c["ll"][0] = other(rng, c["ll"][0], [10, 11, 12, 13, 120, 12.5])
    elif w == "sketch":
        c["ll"][1] = other(rng, c["ll"][1], [1000, 1001, 100, 10000, 100000, 1000000])
    elif w == "hash_seed":
        c["ll"][2] = other(rng, c["ll"][2], [1, 2, 3, 0, 12, 1000])
    elif w == "eps":
        c["eps"] = near(rng, c["eps"], [0.1, 0.01, 0.5, 1.0, 1.0986, 1.09861, 2.0, 10.0, 1000.0, 1.0000001])
    elif w == "delta":
        c["delta"] = near(rng, c["delta"], [1e-5, 1e-7, 1e-8, 1e-9, 1e-10, 1.1e-5, 0.001, 1e-12])
    elif w == "rep":
        c["rep"] = other(rng, c["rep"], [1, 2, 3, 10, 11, 0])
    elif w == "mf":
        c["mf"] = other(rng, c["mf"], [1, 2, 3, 4, 10])
    elif w == "tp":
        c["tp"] = other(rng, c["tp"], ["grid", "latin_hypercube", "uniformly_random"])
        c["tpkw"] = {"grid_size": 2} if c["tp"] == "grid" else {"npoints": 100}
    elif w == "tpkw":
        if c["tp"] == "grid":
            c["tpkw"] = {"grid_size": other(rng, c["tpkw"]["grid_size"], [1, 2, 3, 4])}
        elif rng.random() < 0.6:
            c["tpkw"] = dict(c["tpkw"], npoints=other(rng, c["tpkw"]["npoints"], [100, 101, 110]))
        else:
            c["tpkw"] = dict(
                c["tpkw"],
                minimum_points_per_publisher=other(
                    rng, c["tpkw"].get("minimum_points_per_publisher", 10), [10, 11, 40, 60]
                ),
            )
    return c


def gen(rng, i):
    if i == 0:
        return finding()
    sc = common.base(rng, cloud=rng.random() < 0.1)
    pubs = rng.choice([1, 2, 2, 2, 3])
    sc["datasets"] = common.datasets(rng, 1 if sc["cloud"] else rng.choice([1, 1, 2, 2, 3]), pubs=pubs, names=NAMES, size=(4, 9))
    sc["default_behave"] = {"measures": [] if rng.random() < 0.6 else [{"part": 0.25}]}
    c = {
        "strategy": "fake",
        "skw": {"id": 1} if rng.random() < 0.7 else {},
        "spm": "goerg",
        "spkw": {},
        "mpm": "pairwise_union",
        "mpkw": {},
        "fr": [rng.choice([0.25, 0.5, 0.6]) for _ in range(pubs)],
        "ll": [12, 1000, 1],
        "eps": rng.choice([1.0, 0.1]),
        "delta": rng.choice([1e-5, 1e-5, 1e-9, 1e-8]),
        "rep": 1,
        "mf": rng.choice([1, 2, 3]),
        "tp": "grid",
        "tpkw": {"grid_size": 2},
    }
    if rng.random() < 0.25:
        c["tp"] = rng.choice(["latin_hypercube", "uniformly_random"])
        c["tpkw"] = {"npoints": 100}
    if rng.random() < 0.25:
        # a name nearly as long as a file name can be
        w = rng.choice(["skw", "spkw", "mpkw"])
        c[w] = dict(c[w], zz=rng.choice(["x", "0", "ab"]) * 90)
        c[w]["zz"] = c[w]["zz"][: max(1, 230 - name_len(dict(c, **{w: dict(c[w], zz="")})))]
        c[w] = {k: c[w][k] for k in sorted(c[w])}
    pool = [c]
    if not sc["cloud"] and rng.random() < 0.06:
        # a data set and a trial whose names joined are those of others
        sc["datasets"] = common.datasets(rng, 2, pubs=pubs, names=["a", "ae"], size=(4, 9))
        pool.append(dict(copy.deepcopy(c), strategy="efake"))
    sweep = not sc["cloud"] and rng.random() < 0.35
    if sweep:
        # one variant for (nearly) every parameter
        for w in sorted(set(WHAT)):
            v = vary(rng, c, pubs, w)
            if name_len(v) < 240 and rng.random() < 0.85:
                pool.append(v)
        if len(sc["datasets"]) > 1 and len(pool) > 8 and "ae" not in sc["datasets"]:
            del sc["datasets"][sorted(sc["datasets"])[-1]]
    for _ in range(0) if sweep else range(rng.choice([1, 2, 3] if sc["cloud"] else [1, 2, 3, 4, 6, 8])):
        v = vary(rng, rng.choice(pool), pubs)
        if rng.random() < 0.2:
            v = vary(rng, v, pubs)
        if name_len(v) < 240:
            pool.append(v)
    nd = rng.choice([1, 1, 2] if sweep else [1, 2, 2, 3])
    base = {"seed": rng.choice([1, 2]), "generator": rng.choice(["own", "shared", "default"])}
    for k in range(nd):
        t = list(pool)
        if k < nd - 1 or rng.random() < 0.3:
            t = rng.sample(pool, rng.randint(1, len(pool)))
        else:
            rng.shuffle(t)
        sc["designs"].append(dict(base, trials=copy.deepcopy(t)))
    for k in range(nd):
        r = common.run_spec(rng, sc["cloud"], line=0.2)
        if rng.random() < 0.5 and not sc["cloud"]:
            r["mode"] = "serial"
        r["design"] = k
        if k < nd - 1 and rng.random() < 0.2:
            r["faults"] = [common.kill_fault(rng, r["mode"], sc["cloud"])]
        sc["runs"].append(r)
    return sc


def name_len(c):
    """About as long as the name of the trial's result file (names of 255 bytes are the limit)."""

    def call(name, kw):
        return len(name) + (sum(len(("%s=%s" % kv).encode()) + 1 for kv in kw.items()) + 1 if kw else 0)

    n = call(c["strategy"], c["skw"]) + call(c["spm"], c["spkw"]) + call(c["mpm"], c["mpkw"]) + call(c["tp"], c["tpkw"])
    n += sum(len(str(x)) + 1 for x in c["fr"])
    n += sum(len(str(x)) for x in c["ll"][:2] + [c["eps"], c["delta"], c["rep"], c["mf"]])
    return n + len(",,spends=()decay_rate=,sketch_size=,epsilon=,delta=,replica_id=,max_frequency=,test_point_strategy=,.csv") + 16


def finding():
    """The inputs of the findings on record: see KNOWN_FINDINGS."""
    t = {
        "fr": [0.5], "ll": [12, 1000, 1], "eps": 1.0, "delta": 1e-5, "rep": 1, "mf": 1, "tp": "grid",
        "tpkw": {"grid_size": 1}, "strategy": "fake",
    }  # fmt: skip
    return {
        "seed": 1,
        "datasets": {"d": {"1": [[1, 0.1], [2, 0.2], [3, 0.3]]}},
        "behave": {},
        "default_behave": {"measures": []},
        "cloud": False,
        "designs": [
            {"seed": 1, "trials": [dict(t, skw={"p": "1,q=2"}), dict(t, skw={"p": 1, "q": 2})]},
            {"seed": 1, "trials": [dict(t, skw={"p": "x" * 120})]},
        ],
        "runs": [{"mode": "serial"}, {"mode": "serial", "design": 1}],
        "finding": True,
    }


def judge_finding(sc, out):
    w = world.World(sc).run()
    out.worlds.append(w)
    if w.runs[0].status == "ok" and len(world.parse_rows(w.runs[0].out)[1]) == 1:
        out.known.append(
            "strategy options {'p': '1,q=2'} and {'p': 1, 'q': 2} are written alike, so one trial is dropped"
        )
    if w.runs[1].status == "error" and "name too long" in str(w.runs[1].error):
        out.known.append(
            "a trial whose description exceeds 255 bytes ends the run with 'File name too long' on a local file system"
        )


def effective(c):
    return common.cfg_key(c)


def shrink(sc):
    for s in common.shrink(sc):
        if s["designs"] and s["runs"]:
            yield s


def judge(sc, out):
    if sc.get("finding"):
        return judge_finding(sc, out)
    want = []
    names = {}
    for d in range(len(sc["designs"])):
        rows = common.solo_rows(sc, d, out)
        if rows is None:
            return
        seen, exp = set(), []
        for (ds, t, w), row in zip(world.solo(sc, d), rows):
            k = (ds, effective(t))
            if k in seen:
                continue
            seen.add(k)
            exp.append((k, t, w, row))
            n = (row.get("dataset"), row.get("trial"))
            if names.setdefault(n, k) != k:
                return out.fail(
                    "name", "two trials are both reported as %s: %s and %s" % (n, names[n][1], k[1])
                )
            if n[0] != ds:
                return out.fail("dataset", "a row of data set %r names %r" % (ds, n[0]))
            bad = own(t, w, row)
            if bad:
                return out.fail("own", "%s: %s" % (n, bad))
        want.append(exp)
    w = world.World(world.place_faults(sc)).run()
    out.worlds.append(w)
    common.probes(w, out)
    out.note("trials", sum(len(x) for x in want))
    if w.sim.limit_hit:
        return out.fail("steps", "the run does not end within %d operations" % w.sim.max_steps)
    for r in w.runs:
        if r.status == "killed" or (r.spec.get("faults") and r.status in ("error", "hang")):
            continue
        if r.status != "ok":
            return out.fail("run-" + r.status, "run %d: %s %s" % (r.index, r.status, r.error))
        exp = want[r.spec.get("design", 0)]
        cols, rows = world.parse_rows(r.out)
        d = world.compare_rows([x[3] for x in exp], rows)
        if d is not None:
            return out.fail("rows", "run %d: %s" % (r.index, d))
    # every configuration was fitted with its own parameters
    for exp in want:
        for k, t, sw, row in exp:
            out.note("distinct_configurations")


def own(t, w, row):
    """Does the run of a single trial use the parameters of that trial?"""
    fits = w.runs[0].fits
    if len(fits) != 1:
        return "%d models were fitted for one trial" % len(fits)
    f = fits[0]
    name, kw, spm, spkw, mpm, mpkw = f.fingerprint[0]
    if name != t["strategy"]:
        return "strategy %s was used" % name
    if kw != repr(sorted(t["skw"].items())):
        return "strategy options %s were used instead of %s" % (kw, t["skw"])
    if spkw != repr(sorted(t["spkw"].items())) or mpkw != repr(sorted(t["mpkw"].items())):
        return "model options %s %s were used" % (spkw, mpkw)
    if [float(x) for x in f.fingerprint[1]] != [float(x) for x in t["fr"]]:
        return "spend fractions %s were used" % (f.fingerprint[1],)
    if list(f.fingerprint[2]) != list(t["ll"]):
        return "sketch parameters %s were used" % (f.fingerprint[2],)
    if f.budget != (t["eps"], t["delta"]):
        return "the budget was %s" % (f.budget,)
    n = len(f.max_spends)
    want = t["tpkw"]["grid_size"] ** n if t["tp"] == "grid" else None
    if want is not None and len(set(f.points)) != want:
        return "%d test points" % len(set(f.points))
    if want is None and len(f.points) < t["tpkw"]["npoints"]:
        return "%d test points" % len(f.points)
    for col, v in (("replica_id", t["rep"]), ("max_frequency", t["mf"]), ("privacy_budget_epsilon", t["eps"]),
                   ("privacy_budget_delta", t["delta"]), ("single_pub_model", t["spm"]), ("multi_pub_model", t["mpm"]),
                   ("strategy", t["strategy"]), ("liquid_legions_sketch_size", t["ll"][1]),
                   ("liquid_legions_decay_rate", t["ll"][0])):  # fmt: skip
        got = row.get(col)
        if isinstance(v, str):
            if got is None and v == "none":
                continue
            if got != v:
                return "%s is %r" % (col, got)
        elif got is None or not world.same_value(float(got), float(v)):
            return "%s is %r instead of %r" % (col, got, v)
    return None
