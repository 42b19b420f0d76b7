"""C12: everything random is determined by the seed alone."""
import copy
import random
import sys

from simkit import core, genconf, script, world

from . import common
from .common import ASSUME, STUB  # noqa: F401

ID = "C12"
BUDGET = {"quick": (1500, 70.0), "thorough": (40000, 3000.0)}
RULE = (
    "Either a generated data design configuration (or one of the repository's) generated several times, in fresh and in used "
    "processes, next to each other, into different directories, and read back; or one experimental design evaluated from scratch "
    "2-3 times; each time under another clock, process id, hash seed, listing order, working directory, operating system entropy "
    "and state of the global generators.  Same configuration and seed: byte-equal files, equal listings and equal rows; "
    "another seed: other data."
)
REAL = common.REAL + ["src/data_generators/*: synthetic_data_design_generator, all impression, pricing and overlap generators, examples"]

EXAMPLES = ["lhs_data_design_example"]
CONFIGS = ["simple_data_design_example", "lhs_data_design_example", "m3_data_design", "analysis_example_data_design", "single_publisher_design"]
DESIGNS = ["sample_experimental_design", "analysis_example_experimental_design", "m3_first_round_experimental_design", "single_publisher_design"]


def gen(rng, i):
    if rng.random() < 0.4:
        return gen_eval(rng)
    return gen_data(rng)


# -- data designs ----------------------------------------------------------------
def conf(rng):
    sets = []
    for k in range(rng.choice([1, 2, 2, 3])):
        pubs = rng.choice([1, 2, 2, 3, 4])
        c = {
            "pubs": pubs,
            "size": rng.choice([30, 31, 40, 60, 100]),
            "ratio": rng.choice([1, 0.9, 0.5, 0.3]),
            "id": str(k) if rng.random() < 0.8 else "set %d" % k,
        }
        if rng.random() < 0.5:
            c["pricing"] = ["Fixed", {"cost_per_impression": rng.choice([0.1, 0.01, 1.0, 0.3])}]
        c["impression"] = rng.choice([
            None,
            ["Homogeneous", {"poisson_lambda": rng.choice([0.0, 0.5, 3.0])}],
            ["Heterogeneous", {"gamma_shape": rng.choice([1.0, 4.0]), "gamma_scale": rng.choice([0.5, 2.0])}],
            ["HeavyTailed", {"zeta_s": rng.choice([2.5, 3.0, 5.0])}],
        ])  # fmt: skip
        seq = {
            "order": rng.choice(["original", "reversed", "random"]),
            "correlated_sets": rng.choice(["all", "one"]),
            "shared_prop": rng.choice([0.25, 0.75, 1.0]),
        }
        if rng.random() < 0.7:
            seq["random_generator"] = rng.randrange(1, 9)
        c["overlap"] = rng.choice([
            None,
            ["FullOverlap", {}],
            ["Independent", {"universe_size": rng.choice([300, 1000]), "random_generator": rng.randrange(1, 9)}],
            ["Independent", {"universe_size": 5000, "random_generator": rng.randrange(1, 9)}],
            ["Sequential", seq],
            ["Sequential", seq],
        ])  # fmt: skip
        sets.append(c)
    return {"sets": sets, "draw": rng.random() < 0.4, "lazy": rng.random() < 0.3}


def gen_data(rng):
    sc = {"kind": "data", "seed": rng.randrange(1 << 30), "datasets": {}, "cloud": False, "runs": [], "configs": {}}
    if rng.random() < 0.2:
        sc["chunk"] = rng.choice([64, 200])
    for k in range(rng.choice([1, 1, 2])):
        sc["configs"]["c%d" % k] = conf(rng)
    which = sorted(sc["configs"])
    if rng.random() < 0.12:
        which.append(rng.choice(EXAMPLES))
    target = (rng.choice(which), rng.choice([1, 1, 2, 3, 12345, 0]))
    other = (rng.choice(which), rng.choice([1, 2, 4, 99]))
    n = 0
    if target[0] in EXAMPLES or other[0] in EXAMPLES:
        sc.pop("chunk", None)
        target = other = target if target[0] in EXAMPLES else other
    for ph in range(rng.choice([2, 2, 3]) if target[0] not in EXAMPLES else 2):
        done = n
        clients = []
        for k in range(1 if ph == 0 or target[0] in EXAMPLES else rng.choice([1, 1, 2])):
            ops = []
            mine = list(range(done))  # nobody reads what is being generated
            if rng.random() < 0.6:
                ops += noise(rng)
            for _ in range(rng.choice([1, 1, 2]) if target[0] not in EXAMPLES else 1):
                what = target if rng.random() < 0.75 else other
                if rng.random() < 0.15:
                    ops.append([rng.choice(["config"]), rng.choice(CONFIGS), rng.choice([1, 2])])
                if rng.random() < 0.15:
                    ops.append(["design", rng.choice(DESIGNS), rng.choice([1, 2])])
                ops.append(["gen", "out%d" % n, what[0], what[1], "call"])
                mine.append(n)
                n += 1
                if rng.random() < 0.3:
                    ops += noise(rng)
                if rng.random() < 0.5:
                    ops.append(["read", "out%d" % rng.choice(mine)])
            clients.append({"proc": "p%d_%d" % (ph, k) if rng.random() < 0.8 else "p", "ops": ops, "salt": rng.randrange(1, 1000),
                            "cwd": rng.choice(["/simfs", "/simfs/w", "/simfs/tmp"])})  # fmt: skip
        run = {"clients": clients, "preempt": rng.choice([0.0, 0.2, 0.5]), "gap": rng.choice([1.0, 3600.0, 86400.0 * 365, -1e6])}
        if len(clients) == 1:
            for o in clients[0]["ops"]:
                if o[0] == "gen" and rng.random() < 0.5:
                    o[4] = "main"
        sc["runs"].append(run)
    fin = [["read", "out%d" % k] for k in range(n)]
    for k in range(2 if target[0] not in EXAMPLES else 1):
        sc["runs"].append({"clients": [{"proc": "r%d" % k, "ops": [["ls", rng.randrange(1000)]] + fin, "salt": rng.randrange(1, 1000)}]})
    return sc


def noise(rng):
    return [
        rng.choice([
            ["np_seed", rng.randrange(1000)], ["np_draw", rng.randint(1, 50)], ["py_draw", rng.randint(1, 50)], ["py_seed", rng.randrange(1000)],
            ["ls", rng.randrange(1000)], ["clock", rng.choice([3600.0, -3600.0, 1e7])],
        ])
        for _ in range(rng.choice([1, 2]))
    ]  # fmt: skip


def handler(w, proc, op):
    import numpy as np

    k = op[0]
    sim = w.sim
    if k == "np_seed":
        np.random.seed(op[1])
    elif k == "np_draw":
        np.random.random(op[1])
    elif k == "py_draw":
        for _ in range(op[1]):
            random.random()
    elif k == "py_seed":
        random.seed(op[1])
    elif k == "ls":
        sim.vfs.salt = op[1]
    elif k == "clock":
        sim.clock += op[1]
    elif k == "gen":
        m = genconf.generator_module()
        sim.cur.conf = op[2]
        path = genconf.CONFIG_FILE if op[2] in w.sc["configs"] else example_file(op[2])
        out = "/simfs/w/" + op[1]
        if op[4] == "main":
            genconf.run_main(m, ["--output_dir=" + out, "--data_design_config=" + path, "--random_seed=%d" % op[3], "--noverbose"])
            return None
        g = m.SyntheticDataDesignGenerator(out, path, op[3], False)
        d = g()
        return list(d.names)
    elif k == "read":
        from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign

        d = DataDesign("/simfs/w/" + op[1])
        out = []
        for n in d.names:
            ds = d.by_name(n)
            big = [1 << 40] * ds.publisher_count
            one = [k + 1 for k in range(ds.publisher_count)]
            out.append([n, ds.name, ds.publisher_count, [float(x) for x in ds.spend_by_impressions(big)],
                        [float(x) for x in ds.spend_by_impressions(one)], [int(ds.reach_by_impressions(big).reach(j)) for j in (1, 2, 5)]])  # fmt: skip
        return out
    elif k in ("config", "design"):
        import importlib

        if k == "config":
            m = importlib.import_module(core.PKG + ".data_generators." + op[1])
            np.random.seed(op[2])
            return [str(x) for x in m.generate_data_design_config(np.random.default_rng(op[2]))]
        m = importlib.import_module(core.PKG + ".driver." + op[1])
        return [str(x) for x in m.generate_experimental_design_config(seed=op[2])]
    else:
        raise ValueError(k)
    return None


def example_file(name):
    return core.SRC_PREFIX.rstrip("/") + "/data_generators/" + name + ".py"


def judge_data(sc, out):
    w = script.ScriptWorld(sc, handler, max_steps=600000).run()
    out.worlds.append(w)
    for r in w.runs:
        if r.status in ("limit", "hang"):
            return out.fail("status", "phase %d: %s" % (r.index, r.status))
    gens = {}
    first = {}
    for h in w.hist:
        if h.exc is not None:
            return out.fail("raised", "%s raises %s: %s" % (h.op, type(h.exc).__name__, str(h.exc)[:300]))
        if h.op[0] == "gen":
            files = {k.split("/", 1)[1]: v for k, v in w.files(h.op[1]).items()}
            gens[h.op[1]] = ((h.op[2], h.op[3]), h, files)
        if h.op[0] in ("config", "design"):
            key = tuple(h.op)
            if key in first and first[key] != h.result:
                return out.fail(h.op[0], "%s differs from one process to another" % (h.op,))
            first.setdefault(key, h.result)
            out.note("configurations_compared")
    by = {}
    for name, (key, h, files) in sorted(gens.items(), key=lambda x: x[1][1].begin):
        if not files:
            return out.fail("empty", "%s: nothing was written" % h.op)
        a = by.setdefault(key, (h, files))
        if a[1] != files:
            bad = sorted(k for k in set(a[1]) | set(files) if a[1].get(k) != files.get(k))
            return out.fail("files", "generated twice from one configuration and seed %s: %s and %s differ in %d of %d files, first in %s" % (
                key[1], a[0].op[1], name, len(bad), len(set(a[1]) | set(files)), bad[0]))  # fmt: skip
        out.note("generations_compared")
    ks = sorted(by, key=str)
    for x in ks:
        for y in ks:
            if x[0] == y[0] and x[1] < y[1]:
                if varies(sc, x[0]) and by[x][1] == by[y][1]:
                    return out.fail("seed", "%s: seeds %s and %s give the same data" % (x[0], x[1], y[1]))
                out.note("seeds_compared")
    reads = {}
    for h in w.hist:
        if h.op[0] == "read" and h.op[1] in gens and gens[h.op[1]][1].end < h.begin:
            key = gens[h.op[1]][0]
            if h.result != reads.setdefault(key, h.result):
                return out.fail("read", "%s reads otherwise than before or in another directory: %s" % (h.op, first_diff(reads[key], h.result)))
            out.note("readings_compared")


def varies(sc, name):
    c = sc["configs"].get(name)
    return c is None or any(s["size"] >= 30 and (s["impression"] or [0, {}])[1].get("poisson_lambda", 1) for s in c["sets"])


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s / %s" % (x, y)
    return "%d / %d data sets" % (len(a), len(b))


# -- evaluations -------------------------------------------------------------------
def gen_eval(rng):
    sc = common.base(rng, cloud=rng.random() < 0.12)
    for k in ("skew", "ls_salt"):
        sc.pop(k, None)
    sc["kind"] = "eval"
    sc["datasets"] = common.datasets(rng, rng.choice([1, 2, 2]))
    sc["designs"] = [common.design(rng, sc, rng.choice([1, 2, 2]), real=0.3, big=0.25)]
    r = common.run_spec(rng, sc["cloud"])
    sc["runs"].append(r)
    if rng.random() < 0.5:
        r["mode"] = "serial"
        for k in ("preempt", "line", "cores", "beam"):
            r.pop(k, None)
    common.use_global(rng, sc)
    sc["ambients"] = []
    for _ in range(rng.choice([2, 2, 3])):
        sc["ambients"].append({
            "salt": rng.randrange(1, 1000), "ls_salt": rng.randrange(1000), "clock0": rng.choice([0, 1, 10**6, 10**8, -(10**8)]),
            "cwd": rng.choice(["/simfs", "/simfs/w", "/simfs/tmp"]), "seed": rng.randrange(1 << 30),
        })  # fmt: skip
    return sc


def judge_eval(sc, out):
    first = None
    for a in sc["ambients"]:
        s = copy.deepcopy(sc)
        s["seed"] = a["seed"]
        s["clock0"] = a["clock0"]
        s["ls_salt"] = a["ls_salt"]
        s["runs"][0]["salt"] = a["salt"]
        s["runs"][0]["cwd"] = a["cwd"]
        w = world.World(s).run()
        out.worlds.append(w)
        r = w.runs[0]
        if r.status != "ok":
            return out.fail("run-" + r.status, "%s %s" % (r.status, r.error))
        cols, rows = world.parse_rows(r.out)
        if first is None:
            first = rows, a
            continue
        d = world.compare_rows(first[0], rows)
        if d is not None:
            return out.fail("rows", "the same design and seed under %s and %s: %s" % (first[1], a, d))
        out.note("rows_compared", len(rows))


def judge(sc, out):
    return (judge_data if sc["kind"] == "data" else judge_eval)(sc, out)


def shape(sc):
    return sc["kind"] + ":" + (sc["runs"][0].get("mode", "") or "%d phases" % len(sc["runs"]))


def shrink(sc):
    from . import c10

    if sc["kind"] == "data":
        yield from c10.shrink(sc)
        yield from shrink_confs(sc)
        return
    if len(sc["ambients"]) > 2:
        for j in range(len(sc["ambients"])):
            s = copy.deepcopy(sc)
            del s["ambients"][j]
            yield s
    for j, a in enumerate(sc["ambients"]):
        for k, v in (("clock0", 0), ("cwd", "/simfs"), ("ls_salt", 0), ("salt", 1), ("seed", 1)):
            if a[k] != v:
                s = copy.deepcopy(sc)
                s["ambients"][j][k] = v
                yield s
    yield from common.shrink(sc)


def shrink_confs(sc):
    for c in sorted(sc["configs"]):
        n = len(sc["configs"][c]["sets"])
        for j in range(n):
            if n > 1:
                s = copy.deepcopy(sc)
                del s["configs"][c]["sets"][j]
                yield s
        for j in range(n):
            for k in ("pricing", "impression", "overlap"):
                if sc["configs"][c]["sets"][j].get(k):
                    s = copy.deepcopy(sc)
                    s["configs"][c]["sets"][j][k] = None
                    yield s
            if sc["configs"][c]["sets"][j]["pubs"] > 1:
                s = copy.deepcopy(sc)
                s["configs"][c]["sets"][j]["pubs"] -= 1
                yield s
